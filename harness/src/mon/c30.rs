//! C30 rich strings.

use crate::book::{a1, Sheet, V};
use crate::gen::{self, FModel, Fmt};
use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use rust_xlsxwriter::{Format, XlsxError};
use std::collections::BTreeMap;

type Facts = BTreeMap<String, String>;

#[derive(Clone, Debug)]
enum Want {
    Rich(Vec<(String, Facts)>),
    Plain(String),
}

fn font(m: &FModel) -> Facts {
    m.facts()
        .into_iter()
        .filter_map(|(k, v)| k.strip_prefix("font.").map(|k| (k.to_string(), v)))
        .collect()
}

/// Text that looks like the markup of a rich string.
fn markup(ctx: &mut Ctx) -> String {
    let inner = gen::text(&mut ctx.rng, 6, gen::PLAIN);
    let t = [
        format!("<r><t>{inner}</t></r>"),
        format!("<r><rPr><b/></rPr><t>{inner}</t></r>"),
        format!("<r><t xml:space=\"preserve\"> {inner}</t></r><r><t>x</t></r>"),
        "<r></r>".to_string(),
        "<r>".to_string(),
        format!("<r>{inner}</r>"),
        format!("<t>{inner}</t>"),
        format!("<si><t>{inner}</t></si>"),
        format!("{inner}</r>"),
        "<r/>".to_string(),
        format!("&lt;r&gt;{inner}&lt;/r&gt;"),
    ];
    ctx.rng.pick(&t).clone()
}

fn segment(ctx: &mut Ctx) -> String {
    match ctx.rng.below(10) {
        0 => markup(ctx),
        1 => (*ctx.rng.pick(&[" ", "\n", "\t", "  a", "a  ", "\na", "a\n", "a\tb", "\r", "a\r\n", "\u{a0}x", " \u{3000}"]))
            .to_string(),
        2 => String::new(),
        _ => gen::text(&mut ctx.rng, 10, gen::ALL),
    }
}

/// A rich string that holds the given number of characters.
fn lengthy(ctx: &mut Ctx, n: usize, parts: usize) -> Vec<String> {
    let c = *ctx.rng.pick(&["x", "é", "<", "&", "\u{1F600}", "\u{1}"]);
    let mut left = n;
    let mut v = vec![];
    for k in 0..parts {
        let take = if k + 1 == parts { left } else { left / 2 };
        v.push(c.repeat(take));
        left -= take;
    }
    v
}

fn check(ctx: &mut Ctx, s: &Sheet, at: (u32, u16), w: &Want) {
    let me = format!("{}!{}", s.name, a1(at.0, at.1));
    let Some(c) = s.cells.get(&at) else {
        ctx.fail("missing", me);
        return;
    };
    match (w, &c.v) {
        (Want::Plain(t), V::Str(g)) => {
            ctx.check(g == t, "plain text", || format!("{me}: got {g:?}, wrote {t:?}"));
        }
        (Want::Plain(t), v) => ctx.fail("plain kind", format!("{me}: got {v:?}, wrote {t:?}")),
        (Want::Rich(w), V::Rich(runs)) => {
            let got: String = runs.iter().map(|r| r.text.as_str()).collect();
            let want: String = w.iter().map(|(t, _)| t.as_str()).collect();
            ctx.check(got == want, "text", || format!("{me}: got {got:?}, wrote {want:?}"));
            // Adjacent runs of one font are one run to a reader.
            let merged = |v: &mut dyn Iterator<Item = (String, Facts)>| {
                let mut out: Vec<(String, Facts)> = vec![];
                for (t, f) in v {
                    match out.last_mut() {
                        Some((lt, lf)) if *lf == f => lt.push_str(&t),
                        _ => out.push((t, f)),
                    }
                }
                out
            };
            let plain = font(&FModel::new());
            let got = merged(&mut runs.iter().map(|r| {
                let f = if r.has_props { r.font.clone() } else { plain.clone() };
                (r.text.clone(), f)
            }));
            let want = merged(&mut w.iter().cloned());
            if got != want {
                let m = got
                    .iter()
                    .zip(&want)
                    .find(|(a, b)| a != b)
                    .map(|(a, b)| format!("{:?} / {:?}: {}", a.0, b.0, gen::diff(&a.1, &b.1)))
                    .unwrap_or_else(|| format!("{} runs, {} wanted", got.len(), want.len()));
                ctx.fail("runs", format!("{me}: {m}"));
            } else {
                ctx.count("runs compared");
            }
        }
        (Want::Rich(w), v) => ctx.fail("kind", format!("{me}: got {v:?}, wrote {w:?}")),
    }
}

pub fn case(ctx: &mut Ctx) {
    let n = ctx.rng.u16(1, 4) as usize;
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let mut grids: Vec<BTreeMap<(u32, u16), Want>> = vec![BTreeMap::new(); n];
    let mut styles: Vec<BTreeMap<(u32, u16), (Option<FModel>, String)>> = vec![BTreeMap::new(); n];
    let mut row = vec![0u32; n];
    let fonts: Vec<Fmt> = (0..4)
        .map(|_| {
            if ctx.rng.one_in(4) {
                Fmt::new()
            } else {
                let k = ctx.rng.usize(5) + 1;
                Fmt::random(&mut ctx.rng, k)
            }
        })
        .collect();
    let saves = if modes.iter().any(|m| m.constant()) { 1 } else { ctx.rng.u16(1, 2) };
    let mut pool: Vec<Vec<(usize, String)>> = vec![];
    let (mut rich, mut plain, mut refused) = (0u64, 0u64, 0u64);
    for save in 0..saves {
        for _ in 0..ctx.rng.u16(4, 40) {
            let i = ctx.rng.usize(n);
            if modes[i].constant() {
                row[i] += u32::from(ctx.rng.one_in(3));
            } else {
                row[i] = ctx.rng.u32(0, 12);
            }
            let at = (row[i], ctx.rng.u16(0, 4));
            let me = format!("{}!{}", sh.names[i], a1(at.0, at.1));
            let f = if ctx.rng.one_in(3) {
                let k = ctx.rng.usize(4) + 1;
                Some(Fmt::nondefault(&mut ctx.rng, k))
            } else {
                None
            };
            if ctx.rng.one_in(3) {
                // A plain string, often one that looks like markup or equals
                // the text of a rich string.
                let t = match ctx.rng.below(3) {
                    0 if !pool.is_empty() => {
                        ctx.rng.pick(&pool).iter().map(|(_, t)| t.as_str()).collect()
                    }
                    1 => gen::text(&mut ctx.rng, 10, gen::ALL),
                    _ => markup(ctx),
                };
                if t.is_empty() || t.chars().count() > 32_767 {
                    continue;
                }
                ctx.log(format!("{me}: plain {t:?}"));
                let r = match &f {
                    None => sh.ws(i).write_string(at.0, at.1, &t).map(|_| ()),
                    Some(f) => sh.ws(i).write_string_with_format(at.0, at.1, &t, &f.f).map(|_| ()),
                };
                ctx.check(r.is_ok(), "plain result", || format!("{me}: {r:?}"));
                grids[i].insert(at, Want::Plain(t));
                styles[i].insert(at, (f.map(|f| f.m), me));
                plain += 1;
                continue;
            }
            // The segments of a rich string.
            let segs: Vec<(usize, String)> = match ctx.rng.below(14) {
                0 if !pool.is_empty() => ctx.rng.pick(&pool).clone(),
                1 if ctx.rng.one_in(4) => {
                    let n = *ctx.rng.pick(&[32_766usize, 32_767, 32_768, 40_000]);
                    let parts = ctx.rng.usize(3) + 1;
                    lengthy(ctx, n, parts)
                        .into_iter()
                        .map(|t| (ctx.rng.usize(fonts.len()), t))
                        .collect()
                }
                2 => vec![],
                _ => {
                    let n = ctx.rng.usize(6) + 1;
                    (0..n).map(|_| (ctx.rng.usize(fonts.len()), segment(ctx))).collect()
                }
            };
            let len: usize = segs.iter().map(|(_, t)| t.chars().count()).sum();
            let empty = segs.is_empty() || segs.iter().any(|(_, t)| t.is_empty());
            let ok = !empty && len <= 32_767;
            let parts: Vec<(&Format, &str)> = segs.iter().map(|(k, t)| (&fonts[*k].f, t.as_str())).collect();
            ctx.log(format!(
                "{me}: rich {} format {:?}",
                segs.iter()
                    .map(|(k, t)| {
                        let cut: String = t.chars().take(30).collect();
                        format!("[{}] {cut:?} ({})", fonts[*k].desc, t.chars().count())
                    })
                    .collect::<Vec<_>>()
                    .join(" + "),
                f.as_ref().map(|f| &f.desc)
            ));
            let r = match &f {
                None => sh.ws(i).write_rich_string(at.0, at.1, &parts).map(|_| ()),
                Some(f) => sh.ws(i).write_rich_string_with_format(at.0, at.1, &parts, &f.f).map(|_| ()),
            };
            let kind = match &r {
                Ok(()) => "ok",
                Err(XlsxError::ParameterError(_)) => "parameter",
                Err(XlsxError::MaxStringLengthExceeded) => "length",
                Err(_) => "other",
            };
            let want = if empty {
                "parameter"
            } else if len > 32_767 {
                "length"
            } else {
                "ok"
            };
            ctx.eq(&kind, &want, "result", &me);
            if ok {
                let w = segs.iter().map(|(k, t)| (t.clone(), font(&fonts[*k].m))).collect();
                grids[i].insert(at, Want::Rich(w));
                styles[i].insert(at, (f.map(|f| f.m), me));
                if len < 200 {
                    pool.push(segs);
                }
                rich += 1;
            } else {
                refused += 1;
            }
        }
        let Some(b) = save_open(ctx, &mut sh) else { return };
        for i in 0..n {
            let name = sh.names[i].clone();
            let Some(s) = b.sheet(&name) else {
                ctx.fail("sheet", format!("{name} is missing"));
                return;
            };
            for (at, w) in &grids[i] {
                check(ctx, s, *at, w);
            }
            for (at, (f, me)) in &styles[i] {
                let m = f.clone().unwrap_or_else(FModel::new);
                let want = gen::norm(&m.facts());
                let got = s.cells.get(at).map(|c| gen::norm(b.style(c.s))).unwrap_or_default();
                ctx.check(got == want, "format", || format!("save {save} {me}: {}", gen::diff(&got, &want)));
            }
            for (at, c) in &s.cells {
                ctx.check(grids[i].contains_key(at), "extra", || format!("{name}!{}: {c:?}", a1(at.0, at.1)));
            }
            if !ctx.fails.is_empty() {
                return;
            }
        }
    }
    ctx.add("rich strings", rich);
    ctx.add("plain strings", plain);
    ctx.add("refused", refused);
    if rich > 1 {
        ctx.nontrivial = true;
    }
}
