//! C15 hyperlinks.

use crate::book::a1;
use crate::gen::{self, FModel, Fmt, TextOpt};
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::{self, compare, save_open, Grid, Mode, Op, Sheets, Val};
use crate::xml::xstring;
use rust_xlsxwriter::{Format, Image, Url};
use std::collections::BTreeMap;

/// What a link should amount to in the file.
#[derive(Clone, Debug)]
struct Link {
    /// External target, None for internal links.
    target: Option<String>,
    location: String,
    text: String,
    tip: String,
    /// From an embedded image.
    object: bool,
}

/// Percent-escaping as the `Url` docs describe it.
fn escape(s: &str) -> String {
    let b = s.as_bytes();
    let done = b
        .windows(3)
        .any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit());
    if done {
        return s.to_string();
    }
    let mut o = String::new();
    for c in s.chars() {
        if " \"<>[]`^{}%".contains(c) {
            o.push_str(&format!("%{:02x}", c as u32));
        } else {
            o.push(c);
        }
    }
    o
}

fn part(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.usize(3) {
        match r.below(10) {
            0 => s.push_str(r.pick(&["a b", "<x>", "[1]", "{2}", "`q`", "^", "\"z\""])),
            1 => s.push_str(r.pick(&[
                "%41", "%20", "%C3%A9", "%5B", "%7b", "%e9", "100%", "%zz", "%",
            ])),
            2 => s.push_str(r.pick(&["?a=1&b=2", "&amp;", "'q'", "é", "日本", "😀", "_x0041_"])),
            3 => s.push('/'),
            _ => s.push_str(&gen::word(r)),
        }
    }
    s
}

fn anchor(r: &mut Rng) -> Option<String> {
    if r.one_in(3) {
        Some(match r.below(4) {
            0 => "Sheet1!A1".to_string(),
            1 => "'Sales Data'!A1:G5".into(),
            2 => format!("{}#{}", gen::word(r), gen::word(r)),
            _ => part(r).replace("_x0041_", "_"),
        })
    } else {
        None
    }
}

/// A link as the caller writes it, with its meaning.
fn link(r: &mut Rng) -> (String, Link) {
    let an = anchor(r);
    let with = |s: &str| match &an {
        Some(a) => format!("{s}#{a}"),
        None => s.to_string(),
    };
    let loc = an.clone().unwrap_or_default();
    let (raw, target, location, text) = match r.below(10) {
        0..=3 => {
            let p = *r.pick(&["http://", "https://", "ftp://", "ftps://"]);
            let base = format!("{p}{}.com/{}", gen::word(r), part(r));
            let raw = with(&base);
            (raw.clone(), Some(escape(&base)), loc, raw)
        }
        4 => {
            let m = format!("{}@{}.com", gen::word(r), gen::word(r));
            let raw = format!("mailto:{m}");
            (raw.clone(), Some(escape(&raw)), String::new(), m)
        }
        5 | 6 => {
            let l = match r.below(4) {
                0 => format!("S{}!B{}", r.below(3), r.range(1, 99)),
                1 => "'My Sheet'!A1:C3".into(),
                2 => format!("'it''s {}'!$A$1", gen::word(r)),
                _ => format!("{} & <é>", gen::word(r)),
            };
            (format!("internal:{l}"), None, l.clone(), l)
        }
        7 | 8 => {
            // Relative paths lose their scheme.
            let p = match r.below(4) {
                0 => format!("{}.xlsx", gen::word(r)),
                1 => format!("..\\{}\\{}.xlsx", gen::word(r), gen::word(r)),
                2 => format!("{}/{} x.xlsx", gen::word(r), gen::word(r)),
                _ => format!("sub/{}", part(r)),
            };
            let scheme = *r.pick(&["file:///", "file://"]);
            let scheme = if p.starts_with('/') {
                "file:///"
            } else {
                scheme
            };
            let full = with(&p);
            (format!("{scheme}{full}"), Some(escape(&p)), loc, full)
        }
        _ => {
            let p = match r.below(2) {
                0 => format!("C:\\{}\\{}.xlsx", gen::word(r), part(r).replace('/', "")),
                _ => format!("\\\\{}\\share\\{}.xlsx", gen::word(r), gen::word(r)),
            };
            let full = with(&p);
            (
                format!("file:///{full}"),
                Some(escape(&format!("file:///{p}"))),
                loc,
                full,
            )
        }
    };
    (
        raw,
        Link {
            target,
            location,
            text,
            tip: String::new(),
            object: false,
        },
    )
}

fn hyper() -> FModel {
    FModel {
        hyperlink: true,
        color: Some("theme=10".into()),
        underline: "single".into(),
        scheme: String::new(),
        ..FModel::new()
    }
}

pub fn case(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.usize(3);
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let fmts: Vec<Fmt> = (0..2).map(|_| Fmt::nondefault(&mut ctx.rng, 3)).collect();
    let mut sh = Sheets::new(&modes);
    let mut grids = vec![Grid::default(); n];
    let mut want: Vec<BTreeMap<(u32, u16), Link>> = vec![BTreeMap::new(); n];
    // The link each cell would have kept had it never been written over.
    let nops = 3 + ctx.rng.usize(25);
    let mut rows: Vec<Vec<u32>> = vec![];
    for m in &modes {
        let mut v: Vec<u32> = (0..nops).map(|_| ctx.rng.u32(0, 12)).collect();
        if m.constant() {
            v.sort_unstable();
        }
        rows.push(v);
    }
    let mut total = 0u64;
    let mut over = 0u64;
    for i in 0..nops {
        let k = ctx.rng.usize(n);
        let (r, c) = (rows[k][i], ctx.rng.u16(0, 4));
        if ctx.rng.one_in(6) {
            // Writing over a link keeps the link.
            let v = match ctx.rng.below(3) {
                0 => Val::Num(1.5),
                1 => Val::Str("plain".into()),
                _ => Val::Bool(true),
            };
            let op = Op::Write {
                r,
                c,
                v,
                fmt: None,
                how: 0,
            };
            ctx.log(format!("S{k} {op:?}"));
            grids[k].apply(&op, &fmts);
            if let Err(e) = sheetops::real(sh.ws(k), &op, &fmts) {
                ctx.fail("rejected", e.to_string());
            }
            continue;
        }
        let (raw, mut l) = link(&mut ctx.rng);
        total += 1;
        if want[k].contains_key(&(r, c)) {
            over += 1;
        }
        let tip = if ctx.rng.one_in(3) {
            gen::text(&mut ctx.rng, 40, gen::ALL)
        } else {
            String::new()
        };
        let text = if ctx.rng.one_in(3) {
            gen::text(
                &mut ctx.rng,
                30,
                TextOpt {
                    ctrl: true,
                    ..gen::ALL
                },
            )
        } else {
            String::new()
        };
        l.tip = tip.clone();
        if !modes[k].constant()
            && ctx.rng.one_in(10)
            && l.location.is_empty()
            && !raw.starts_with("file")
        {
            ctx.log(format!("S{k} {r},{c} embed {raw:?} tip {tip:?}"));
            l.object = true;
            let img = Image::new_from_buffer(&crate::kit::png(9, 7, None, b"c15"))
                .and_then(|i| i.set_url(Url::new(&raw).set_tip(&tip)));
            let res = match img {
                Ok(i) => sh.ws(k).embed_image(r, c, &i).map(|_| ()),
                Err(e) => Err(e),
            };
            if let Err(e) = res {
                ctx.fail("rejected", format!("{raw:?}: {e}"));
            }
            let v = crate::book::V::Err("#VALUE!".into());
            grids[k].put(r, c, v, None, false, Some(&hyper()));
            want[k].insert((r, c), l);
            continue;
        }
        if !text.is_empty() {
            l.text.clone_from(&text);
        }
        let fi = if ctx.rng.one_in(3) {
            Some(ctx.rng.usize(2))
        } else {
            None
        };
        let how = ctx.rng.below(4);
        ctx.log(format!(
            "S{k} {r},{c} url {raw:?} text {text:?} tip {tip:?} fmt {fi:?} how {how}"
        ));
        let u = Url::new(raw.clone()).set_text(&text).set_tip(&tip);
        let f: Option<Format> = fi.map(|i| fmts[i].f.clone());
        let ws = sh.ws(k);
        let res = match (&f, how) {
            (None, 0) => ws.write_url(r, c, &u),
            (None, 1) => ws.write(r, c, &u),
            (None, 2) if tip.is_empty() => ws.write_url_with_text(r, c, raw.as_str(), &text),
            (None, _) => ws.write_url_with_options(r, c, raw.as_str(), &text, &tip, None),
            (Some(f), 0) => ws.write_url_with_format(r, c, &u, f),
            (Some(f), 1) => ws.write_with_format(r, c, &u, f),
            (Some(f), _) => ws.write_url_with_options(r, c, raw.as_str(), &text, &tip, Some(f)),
        }
        .map(|_| ());
        if let Err(e) = res {
            ctx.fail("rejected", format!("{raw:?}: {e}"));
        }
        let m = match fi {
            Some(i) => fmts[i].m.clone(),
            None => hyper(),
        };
        grids[k].put_str(r, c, &l.text, Some(&m));
        want[k].insert((r, c), l);
        if ctx.rng.one_in(40) && !modes.iter().any(|m| m.constant()) {
            ctx.log("save");
            let _ = sh.save();
        }
    }
    let Some(b) = save_open(ctx, &mut sh) else {
        return;
    };
    for k in 0..n {
        let Some(s) = b.sheets.iter().find(|s| s.name == format!("S{k}")) else {
            return ctx.fail("sheet-missing", "");
        };
        let mut got: BTreeMap<(u32, u16), &crate::xml::Elem> = BTreeMap::new();
        let mut used = vec![];
        for h in s
            .xml
            .child("hyperlinks")
            .map(|e| e.elems().collect::<Vec<_>>())
            .unwrap_or_default()
        {
            let Some(p) = crate::book::parse_range(h.a("ref")) else {
                ctx.fail("link-ref", h.show());
                continue;
            };
            if (p.0, p.1) != (p.2, p.3) || got.insert((p.0, p.1), h).is_some() {
                ctx.fail("link-cell", format!("second or ranged link {}", h.show()));
            }
            if let Some(id) = h.attr("r:id") {
                used.push(id.to_string());
            }
        }
        for (at, l) in &want[k] {
            let name = a1(at.0, at.1);
            let Some(h) = got.remove(at) else {
                ctx.fail("link-missing", format!("{name}: {l:?}"));
                continue;
            };
            let target = h.attr("r:id").map(|id| match s.rel(id) {
                Some(rel) if rel.external && rel.kind == "hyperlink" => rel.target.clone(),
                other => format!("bad relationship {other:?}"),
            });
            ctx.check(target == l.target, "link-target", || {
                format!("{name}: {target:?}, expected {:?}", l.target)
            });
            let loc = h.attr("location").unwrap_or("").to_string();
            ctx.eq(&loc, &l.location, "link-location", &name);
            let tip = xstring(h.attr("tooltip").unwrap_or(""));
            ctx.eq(&tip, &l.tip, "link-tip", &name);
            // The display text, where given, never differs from the request.
            let is_str = matches!(
                grids[k].cells.get(at).map(|c| &c.v),
                Some(crate::book::V::Str(_))
            );
            if let Some(d) = h.attr("display") {
                // Over a cell that isn't text any more the target is shown,
                // which may be written as it is.
                let raw = d.to_string();
                let d = xstring(d);
                let of_target = |d: &String| Some(d) == l.target.as_ref() || *d == l.location;
                let ok = d == l.text || !is_str && (of_target(&d) || of_target(&raw));
                ctx.check(ok || l.object, "link-display", || {
                    format!("{name}: {d:?}, expected {:?}", l.text)
                });
            }
            ctx.count(match (&l.target, l.object) {
                (_, true) => "object links",
                (None, _) => "internal links",
                (Some(t), _) if t.starts_with("http") || t.starts_with("ftp") => "web links",
                (Some(t), _) if t.starts_with("mail") => "mail links",
                _ => "file links",
            });
        }
        for (at, h) in &got {
            ctx.fail("link-extra", format!("{}: {}", a1(at.0, at.1), h.show()));
        }
        // Each external link has its own relationship and there is no other.
        let mut have: Vec<String> = s
            .rels
            .iter()
            .filter(|r| r.kind == "hyperlink")
            .map(|r| r.id.clone())
            .collect();
        have.sort();
        used.sort();
        ctx.eq(&have, &used, "link-relationships", "relationship ids");
        compare(ctx, &b, s, &grids[k], true, true);
    }
    ctx.add("overwritten links", over);
    ctx.nontrivial = total > 4;
}
