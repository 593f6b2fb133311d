//! C22 images.

use crate::book::{a1, Book, Sheet};
use crate::gen::{self, TextOpt};
use crate::kit;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::{
    Chart, ChartType, Format, HeaderImagePosition, Image, Note, ObjectMovement, Shape, Url,
    Worksheet,
};
use std::collections::BTreeMap;

struct Pic {
    bytes: Vec<u8>,
    ext: &'static str,
    dims: (u32, u32),
    dpi: (f64, f64),
}

/// An image as requested somewhere.
#[derive(Clone, Debug, Default)]
struct Use {
    pic: usize,
    alt: String,
    decorative: bool,
    edit: &'static str,
    /// Target, mode and tooltip of the link.
    link: Option<(String, bool, String)>,
    scaled: Option<(f64, f64)>,
}

#[derive(Default)]
struct Want {
    images: BTreeMap<(u32, u16, u32, u32), Use>,
    embedded: BTreeMap<(u32, u16), Use>,
    background: Option<usize>,
    header: BTreeMap<&'static str, Use>,
}

fn link(r: &mut Rng) -> (String, String, bool) {
    match r.below(9) {
        0 => ("internal:S0!A1".into(), "#S0!A1".into(), false),
        1 => {
            let n = r.u16(1, 3);
            (
                format!("internal:'S 1'!B{n}"),
                format!("#'S 1'!B{n}"),
                false,
            )
        }
        2 => ("mailto:a@b.com".into(), "mailto:a@b.com".into(), true),
        3 => {
            let u = format!("https://example.com/a?x={}", r.u16(1, 3));
            (u.clone(), u, true)
        }
        4 | 5 => {
            let u = format!("https://example.com/a#part{}", r.u16(1, 4));
            (u.clone(), u, true)
        }
        6 => {
            let n = r.u16(1, 3);
            (
                format!("file:///sub\\book{n}.xlsx"),
                format!("sub/book{n}.xlsx"),
                true,
            )
        }
        7 => {
            let n = r.u16(1, 3);
            (
                format!("file:///book.xlsx#Sheet1!A{n}"),
                format!("book.xlsx%23Sheet1!A{n}"),
                true,
            )
        }
        _ => {
            let n = r.u16(1, 3);
            let u = format!("file:///C:\\dir\\book.xlsx#Sheet1!A{n}");
            // As Excel does for objects.
            (u.clone(), u.replace('#', "%23"), true)
        }
    }
}

fn dims(b: &[u8]) -> Option<(f64, f64)> {
    // Density of the pictures made by the kit: PNG in dots per metre.
    let p = b.windows(4).position(|w| w == b"pHYs")?;
    let be = |o: usize| -> f64 {
        f64::from(u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]))
    };
    Some((be(p + 4) * 0.0254, be(p + 8) * 0.0254))
}

/// A request for a picture, in the way a user writes it.
fn request(ctx: &mut Ctx, pics: &[Pic], plain: bool) -> Option<(Image, Use)> {
    let pic = ctx.rng.usize(pics.len());
    let mut im = match Image::new_from_buffer(&pics[pic].bytes) {
        Ok(i) => i,
        Err(e) => {
            ctx.fail(
                "refused",
                format!("image {pic} ({}) refused: {e}", pics[pic].ext),
            );
            return None;
        }
    };
    let mut u = Use {
        pic,
        edit: "oneCell",
        ..Default::default()
    };
    let r = &mut ctx.rng;
    if r.one_in(2) {
        let n = match r.below(8) {
            0 => 255,
            1 => 256,
            _ => 20,
        };
        let o = TextOpt {
            ctrl: false,
            breaks: true,
            nonchar: false,
            esc: false,
        };
        let mut t = gen::text(r, n.min(20), o);
        if n > 20 {
            t = "é".repeat(n);
        }
        im = im.set_alt_text(&t);
        if n <= 255 {
            u.alt = t;
        }
    }
    if r.one_in(5) {
        let b = r.pct(80);
        im = im.set_decorative(b);
        u.decorative = b;
    }
    if r.one_in(3) {
        let (m, e) = match r.below(4) {
            0 => (ObjectMovement::MoveAndSizeWithCells, "twoCell"),
            1 => (ObjectMovement::MoveButDontSizeWithCells, "oneCell"),
            2 => (ObjectMovement::DontMoveOrSizeWithCells, "absolute"),
            _ => (ObjectMovement::MoveAndSizeWithCellsAfter, "twoCell"),
        };
        im = im.set_object_movement(m);
        u.edit = e;
    }
    if !plain && r.one_in(3) {
        let (given, want, ext) = link(r);
        let mut url = Url::new(given);
        let mut tip = String::new();
        if r.one_in(2) {
            tip = format!("tip <{}>", gen::word(r));
            url = url.set_tip(&tip);
        }
        match im.clone().set_url(url) {
            Ok(i) => {
                im = i;
                u.link = Some((want, ext, tip));
            }
            Err(e) => {
                ctx.fail("link", format!("link refused: {e}"));
                return None;
            }
        }
    }
    let r = &mut ctx.rng;
    if r.one_in(3) {
        let (x, y) = (
            f64::from(r.u16(1, 20)) / 10.0,
            f64::from(r.u16(1, 20)) / 10.0,
        );
        im = im.set_scale_width(x).set_scale_height(y);
        u.scaled = Some((x, y));
    }
    Some((im, u))
}

/// The bytes a relationship leads to, checked for type.
fn picture(ctx: &mut Ctx, b: &Book, part: &str, pics: &[Pic], pic: usize, sig: &str, at: &str) {
    match b.pkg.data(part) {
        Err(e) => ctx.fail(sig, format!("{at}: {e}")),
        Ok(d) => {
            let want = &pics[pic].bytes;
            if d != &want[..] {
                let other = pics.iter().position(|p| d == &p.bytes[..]);
                ctx.fail(
                    sig,
                    format!("{at}: {part} is image {other:?} instead of {pic}"),
                );
                return;
            }
            let ext = part.rsplit('.').next().unwrap_or("").to_lowercase();
            let ext = if ext == "jpg" { "jpeg".into() } else { ext };
            ctx.eq(&ext, &pics[pic].ext.to_string(), "extension", at);
            let ct = b.pkg.content_type(part).unwrap_or("").to_string();
            ctx.eq(&ct, &format!("image/{}", pics[pic].ext), "content-type", at);
            ctx.count("pictures compared");
        }
    }
}

fn anchored(ctx: &mut Ctx, b: &Book, s: &Sheet, want: &Want, pics: &[Pic], at: &str) {
    let mut left = want.images.clone();
    if let Some(d) = b.drawing(s) {
        for a in d.anchors() {
            let Some(p) = a.elem.child("xdr:pic") else {
                continue;
            };
            let (x, y) = (a.x / 9525, a.y / 9525);
            let key = (a.row, a.col, y as u32, x as u32);
            let me = format!("{at} {}+{x},{y}", a1(a.row, a.col));
            ctx.check(a.x % 9525 == 0 && a.y % 9525 == 0, "offset", || {
                format!("{me}: offsets {} {}", a.x, a.y)
            });
            let Some(u) = left.remove(&key) else {
                ctx.fail("extra", format!("{me}: image nobody put there"));
                continue;
            };
            let id = p
                .path("xdr:blipFill/a:blip")
                .map(|x| x.a("r:embed").to_string())
                .unwrap_or_default();
            match d.rel(&id) {
                Some(r) if r.kind == "image" && !r.external => {
                    picture(ctx, b, &r.part, pics, u.pic, "bytes", &me);
                }
                r => ctx.fail("rel", format!("{me}: image relationship {id:?} is {r:?}")),
            }
            let Some(nv) = p.path("xdr:nvPicPr/xdr:cNvPr") else {
                ctx.fail("properties", format!("{me}: no properties"));
                continue;
            };
            ctx.eq(
                &nv.attr("descr").map(xstring).unwrap_or_default(),
                &u.alt,
                "alt",
                &me,
            );
            let deco = nv
                .find_all("adec:decorative")
                .iter()
                .any(|x| x.flag("val", false));
            ctx.eq(&deco, &u.decorative, "decorative", &me);
            ctx.eq(&a.edit.as_str(), &u.edit, "movement", &me);
            let got = nv.child("a:hlinkClick").map(|h| {
                let rel = d.rel(h.a("r:id"));
                (
                    rel.map(|r| r.target.clone()).unwrap_or_default(),
                    rel.is_some_and(|r| r.external),
                    h.attr("tooltip").map(xstring).unwrap_or_default(),
                )
            });
            ctx.eq(&got, &u.link, "link", &me);
        }
    }
    for (k, u) in left {
        ctx.fail(
            "missing",
            format!("{at}: image {u:?} at {k:?} is not in the drawing"),
        );
    }
}

/// The image behind a cell's value metadata, and its texts.
fn rich_value(b: &Book, vm: i64) -> Option<(String, String, bool)> {
    let meta = b.pkg.xml("xl/metadata.xml").ok()?;
    let vmd = meta.child("valueMetadata")?;
    let bk = vmd.elems().nth(usize::try_from(vm - 1).ok()?)?;
    let rc = bk.child("rc")?;
    let ty = meta
        .child("metadataTypes")?
        .elems()
        .nth(rc.int("t")? as usize - 1)?;
    if ty.a("name") != "XLRICHVALUE" {
        return None;
    }
    let fm = meta
        .children("futureMetadata")
        .find(|f| f.a("name") == "XLRICHVALUE")?;
    let i = fm
        .elems()
        .nth(rc.int("v")? as usize)?
        .find_all("xlrd:rvb")
        .first()?
        .int("i")?;
    let rv = b.pkg.xml("xl/richData/rdrichvalue.xml").ok()?;
    let v = rv.children("rv").nth(i as usize)?;
    let st = b
        .pkg
        .xml("xl/richData/rdrichvaluestructure.xml")
        .ok()?
        .children("s")
        .nth(v.int("s")? as usize)?
        .clone();
    let vals: Vec<String> = v.children("v").map(Elem::text).collect();
    let get = |n: &str| {
        st.children("k")
            .position(|k| k.a("n") == n)
            .and_then(|i| vals.get(i).cloned())
    };
    let n: usize = get("_rvRel:LocalImageIdentifier")?.parse().ok()?;
    let rel = b.pkg.xml("xl/richData/richValueRel.xml").ok()?;
    let id = rel.children("rel").nth(n)?.a("r:id").to_string();
    let rels = b.pkg.rels("xl/richData/richValueRel.xml").ok()?;
    let part = rels.iter().find(|r| r.id == id)?.part.clone();
    Some((
        part,
        get("Text").unwrap_or_default(),
        get("CalcOrigin")? == "6",
    ))
}

fn embedded(ctx: &mut Ctx, b: &Book, s: &Sheet, want: &Want, pics: &[Pic], at: &str) {
    for ((r, c), cell) in &s.cells {
        if cell.vm.is_some() && !want.embedded.contains_key(&(*r, *c)) {
            ctx.fail(
                "extra-embedded",
                format!("{at} {} has an image", a1(*r, *c)),
            );
        }
    }
    for ((r, c), u) in &want.embedded {
        let me = format!("{at} {}", a1(*r, *c));
        let Some(vm) = s.cells.get(&(*r, *c)).and_then(|x| x.vm) else {
            ctx.fail("embedded", format!("{me}: no embedded image"));
            continue;
        };
        match rich_value(b, vm) {
            None => ctx.fail(
                "embedded-chain",
                format!("{me}: value metadata {vm} leads nowhere"),
            ),
            Some((part, alt, deco)) => {
                picture(ctx, b, &part, pics, u.pic, "embedded-bytes", &me);
                ctx.eq(&xstring(&alt), &u.alt, "embedded-alt", &me);
                ctx.eq(&deco, &u.decorative, "embedded-decorative", &me);
                ctx.count("embedded images");
            }
        }
    }
}

fn others(ctx: &mut Ctx, b: &Book, s: &Sheet, want: &Want, pics: &[Pic], at: &str) {
    let got = s
        .xml
        .child("picture")
        .and_then(|p| s.rel(p.a("r:id")))
        .map(|r| r.part.clone());
    match (got, want.background) {
        (None, None) => {}
        (Some(p), Some(i)) => {
            picture(
                ctx,
                b,
                &p,
                pics,
                i,
                "background",
                &format!("{at} background"),
            );
        }
        (g, w) => ctx.fail("background", format!("{at}: background {g:?} for {w:?}")),
    }
    let mut left = want.header.clone();
    if let Some(l) = s.xml.child("legacyDrawingHF") {
        let part = s
            .rel(l.a("r:id"))
            .map(|r| r.part.clone())
            .unwrap_or_default();
        let (Ok(x), Ok(rels)) = (b.pkg.xml(&part), b.pkg.rels(&part)) else {
            ctx.fail("vml", format!("{at}: no VML drawing {part:?}"));
            return;
        };
        for sh in x.children("v:shape") {
            let me = format!("{at} header image {}", sh.a("id"));
            let Some((_, u)) = left.remove_entry(sh.a("id")) else {
                ctx.fail("extra-header", me);
                continue;
            };
            let id = sh
                .child("v:imagedata")
                .map(|i| i.a("o:relid").to_string())
                .unwrap_or_default();
            match rels.iter().find(|r| r.id == id) {
                Some(r) => picture(ctx, b, &r.part, pics, u.pic, "header-bytes", &me),
                None => ctx.fail("header-rel", format!("{me}: no relationship {id:?}")),
            }
            // Its size, in points.
            let p = &pics[u.pic];
            let (sx, sy) = u.scaled.unwrap_or((1.0, 1.0));
            let style: BTreeMap<&str, &str> = sh
                .a("style")
                .split(';')
                .filter_map(|x| x.split_once(':'))
                .collect();
            for (k, n) in [
                ("width", f64::from(p.dims.0) / p.dpi.0 * 72.0 * sx),
                ("height", f64::from(p.dims.1) / p.dpi.1 * 72.0 * sy),
            ] {
                let g: f64 = style
                    .get(k)
                    .and_then(|v| v.trim_end_matches("pt").parse().ok())
                    .unwrap_or(-1.0);
                // Excel rounds to whole pixels.
                ctx.check((g - n).abs() < 0.76, "header-size", || {
                    format!("{me}: {k} is {g}pt, want {n}")
                });
            }
        }
    }
    for (k, u) in left {
        ctx.fail("header-missing", format!("{at}: no header image {k}: {u:?}"));
    }
}

fn distract(r: &mut Rng, ws: &mut Worksheet, n: u32) -> &'static str {
    match r.below(5) {
        0 => {
            let mut c = Chart::new(ChartType::Line);
            c.add_series().set_values(("S0", 0, 0, 3, 0));
            let _ = ws.insert_chart(200 + n, 5, &c);
            "chart"
        }
        1 => {
            let mut s = Shape::textbox();
            s = s.set_text("text");
            if r.bool() {
                if let Ok(x) = s
                    .clone()
                    .set_url(format!("https://example.com/a#part{}", r.u16(1, 4)).as_str())
                {
                    s = x;
                }
            }
            let _ = ws.insert_shape(300 + n, 5, &s);
            "textbox"
        }
        2 => {
            let _ = ws.insert_note(400 + n, 5, &Note::new("note"));
            "note"
        }
        3 => {
            let _ = ws.insert_button(500 + n, 5, &rust_xlsxwriter::Button::new());
            "button"
        }
        _ => {
            let _ = ws.write_url(
                600 + n,
                5,
                format!("https://example.com/a#part{}", r.u16(1, 4)).as_str(),
            );
            "link"
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    let mut pics = vec![];
    for _ in 0..1 + ctx.rng.usize(6) {
        let (bytes, ext, d) = kit::image_bytes(&mut ctx.rng);
        let dpi = match ext {
            "png" => dims(&bytes).unwrap_or((96.0, 96.0)),
            "jpeg" => match (bytes[13], bytes[15], bytes[17]) {
                (1, x, y) if x > 1 => (f64::from(x), f64::from(y)),
                (2, x, y) => (f64::from(x) * 2.54, f64::from(y) * 2.54),
                _ => (96.0, 96.0),
            },
            _ => (96.0, 96.0),
        };
        pics.push(Pic {
            bytes,
            ext,
            dims: d,
            dpi,
        });
    }
    let n = 1 + ctx.rng.usize(4);
    let modes: Vec<Mode> = (0..n)
        .map(|_| {
            if ctx.rng.one_in(5) {
                Mode::any(&mut ctx.rng)
            } else {
                Mode::random_access(&mut ctx.rng)
            }
        })
        .collect();
    let mut sh = Sheets::new(&modes);
    let mut want: Vec<Want> = (0..n).map(|_| Want::default()).collect();
    for step in 0..2 + ctx.rng.u32(0, 14) {
        let k = ctx.rng.usize(n);
        let w = &mut want[k];
        let what = ctx.rng.below(12);
        let (row, col) = match ctx.rng.below(8) {
            0 => (1_048_575, 16_383),
            _ => (ctx.rng.u32(0, 60), ctx.rng.u16(0, 8)),
        };
        match what {
            0..=3 => {
                let Some((im, u)) = request(ctx, &pics, false) else {
                    return;
                };
                let (x, y) = if ctx.rng.bool() {
                    (0, 0)
                } else {
                    (ctx.rng.u32(0, 63), ctx.rng.u32(0, 19))
                };
                ctx.log(format!("S{k} image at {} +{x},{y}: {u:?}", a1(row, col)));
                let g = sh
                    .ws(k)
                    .insert_image_with_offset(row, col, &im, x, y)
                    .map(|_| ());
                if let Err(e) = g {
                    ctx.fail("insert", format!("insert_image_with_offset: {e}"));
                    return;
                }
                w.images.insert((row, col, y, x), u);
            }
            4 => {
                let Some((im, u)) = request(ctx, &pics, false) else {
                    return;
                };
                ctx.log(format!("S{k} image fit to {}: {u:?}", a1(row, col)));
                let keep = ctx.rng.bool();
                if let Err(e) = sh.ws(k).insert_image_fit_to_cell(row, col, &im, keep) {
                    ctx.fail("insert", format!("insert_image_fit_to_cell: {e}"));
                    return;
                }
                w.images.insert((row, col, 0, 0), u);
            }
            5..=7 if !modes[k].constant() => {
                let Some((im, u)) = request(ctx, &pics, true) else {
                    return;
                };
                ctx.log(format!("S{k} embed at {}: {u:?}", a1(row, col)));
                let g = if ctx.rng.bool() {
                    sh.ws(k).embed_image(row, col, &im).map(|_| ())
                } else {
                    sh.ws(k)
                        .embed_image_with_format(row, col, &im, &Format::new().set_bold())
                        .map(|_| ())
                };
                if let Err(e) = g {
                    ctx.fail("insert", format!("embed_image: {e}"));
                    return;
                }
                w.embedded.insert((row, col), u);
            }
            8 => {
                let Some((im, u)) = request(ctx, &pics, true) else {
                    return;
                };
                ctx.log(format!("S{k} background {}", u.pic));
                sh.ws(k).insert_background_image(&im);
                w.background = Some(u.pic);
            }
            9 | 10 => {
                let footer = ctx.rng.bool();
                let g = if ctx.rng.bool() { "&G" } else { "&[Picture]" };
                let text = format!("&L{g}&C{g}&R{g}");
                if footer {
                    sh.ws(k).set_footer(text);
                } else {
                    sh.ws(k).set_header(text);
                }
                for _ in 0..1 + ctx.rng.usize(3) {
                    let Some((im, u)) = request(ctx, &pics, true) else {
                        return;
                    };
                    let (p, n) = match (ctx.rng.below(3), footer) {
                        (0, false) => (HeaderImagePosition::Left, "LH"),
                        (1, false) => (HeaderImagePosition::Center, "CH"),
                        (_, false) => (HeaderImagePosition::Right, "RH"),
                        (0, true) => (HeaderImagePosition::Left, "LF"),
                        (1, true) => (HeaderImagePosition::Center, "CF"),
                        (_, true) => (HeaderImagePosition::Right, "RF"),
                    };
                    ctx.log(format!("S{k} {n} image {u:?}"));
                    let g = if footer {
                        sh.ws(k).set_footer_image(&im, p).map(|_| ())
                    } else {
                        sh.ws(k).set_header_image(&im, p).map(|_| ())
                    };
                    if let Err(e) = g {
                        ctx.fail("insert", format!("set_header_image: {e}"));
                        return;
                    }
                    w.header.insert(n, u);
                }
            }
            _ => {
                let d = distract(&mut ctx.rng, sh.ws(k), step);
                ctx.log(format!("S{k} {d}"));
            }
        }
    }
    let names = sh.names.clone();
    let Some(b) = save_open(ctx, &mut sh) else {
        return;
    };
    for (k, w) in want.iter().enumerate() {
        let at = format!("S{k}");
        let Some(s) = b.sheet(&names[k]) else {
            ctx.fail("sheet", format!("no sheet {}", names[k]));
            continue;
        };
        anchored(ctx, &b, s, w, &pics, &at);
        embedded(ctx, &b, s, w, &pics, &at);
        others(ctx, &b, s, w, &pics, &at);
    }
    // Nothing is in the package that no sheet uses.
    let media: Vec<String> = b
        .pkg
        .parts
        .keys()
        .filter(|p| p.contains("/media/"))
        .cloned()
        .collect();
    for m in &media {
        let known = b
            .pkg
            .data(m)
            .is_ok_and(|d| pics.iter().any(|p| p.bytes[..] == *d));
        ctx.check(known, "stray", || format!("{m} is no image of the workbook"));
    }
    ctx.add("media parts", media.len() as u64);
    let uses: usize = want
        .iter()
        .map(|w| {
            w.images.len()
                + w.embedded.len()
                + w.header.len()
                + usize::from(w.background.is_some())
        })
        .sum();
    ctx.nontrivial = uses > 1;
}
