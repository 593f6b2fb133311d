//! C25 notes.

use crate::book::{a1, t_text, Book, Sheet};
use crate::gen::{self, TextOpt};
use crate::kit;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::{Button, Color, Image, Note, ObjectMovement};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
struct Want {
    text: String,
    author: Option<String>,
    prefix: bool,
    w: f64,
    h: f64,
    visible: Option<bool>,
    fill: String,
    font: String,
    size: f64,
    alt: String,
    movement: bool,
}

#[derive(Clone, Default)]
struct Model {
    notes: BTreeMap<(u32, u16), Want>,
    show_all: bool,
    author: Option<String>,
    buttons: BTreeSet<(u32, u16)>,
    header: bool,
}

const NO_ESC: TextOpt = TextOpt {
    ctrl: false,
    breaks: false,
    nonchar: false,
    esc: false,
};

fn author(r: &mut Rng) -> String {
    match r.below(6) {
        0 => (*r.pick(&["Author", "author", "Zoe", "Adam", "Mia", "A & <B>"])).to_string(),
        1 => gen::text(r, 20, gen::PLAIN),
        2 => {
            let n = *r.pick(&[51usize, 52, 53, 60]);
            (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect()
        }
        3 => String::new(),
        _ => format!("{}{}", gen::word(r), r.u8(0, 9)),
    }
}

fn place(r: &mut Rng) -> (u32, u16) {
    match r.below(6) {
        0 => (r.u32(0, 1_048_575), r.u16(0, 16_383)),
        1 => (1_048_575 - r.u32(0, 5), 16_383 - r.u16(0, 5)),
        2 => (0, 0),
        _ => (r.u32(0, 20), r.u16(0, 12)),
    }
}

fn note(r: &mut Rng) -> (Note, Want) {
    let text = match r.below(8) {
        0 => "text".repeat(r.usize(50)),
        1 => String::new(),
        2 => format!("\n{}", gen::text(r, 10, gen::ALL)),
        _ => gen::text(r, 40, gen::ALL),
    };
    let mut n = Note::new(text.as_str());
    let mut w = Want {
        text,
        author: None,
        prefix: true,
        w: 128.0,
        h: 74.0,
        visible: None,
        fill: "#ffffe1".into(),
        font: "Tahoma".into(),
        size: 8.0,
        alt: String::new(),
        movement: false,
    };
    for _ in 0..r.u8(0, 6) {
        match r.below(10) {
            0 | 1 => {
                let a = author(r);
                n = n.set_author(a.as_str());
                if a.chars().count() <= 52 {
                    w.author = Some(a);
                }
            }
            2 => {
                w.prefix = r.bool();
                n = n.add_author_prefix(w.prefix);
            }
            3 => {
                let v = r.u32(0, 400);
                n = n.set_width(v);
                if v > 0 {
                    w.w = f64::from(v);
                }
            }
            4 => {
                let v = r.u32(0, 400);
                n = n.set_height(v);
                if v > 0 {
                    w.h = f64::from(v);
                }
            }
            5 => {
                let v = r.bool();
                n = n.set_visible(v);
                w.visible = Some(v);
            }
            6 => {
                let (c, f) = gen::color(r);
                n = n.set_background_color(c);
                if !matches!(c, Color::Theme(..)) {
                    w.fill = format!("#{}", f.trim_start_matches("rgb=FF").to_lowercase());
                } else {
                    // A theme color can't be used: the default is kept.
                    w.fill = "#ffffe1".into();
                }
            }
            7 => {
                let f = gen::word(r);
                n = n.set_font_name(f.as_str());
                w.font = f;
            }
            8 => {
                let v = f64::from(r.u16(2, 80)) / 2.0;
                n = n.set_font_size(v);
                w.size = v;
            }
            _ => {
                let a = gen::text(r, 20, NO_ESC);
                n = n.set_alt_text(a.as_str());
                w.alt = a;
            }
        }
    }
    if r.one_in(4) {
        n = n.set_object_movement(ObjectMovement::MoveAndSizeWithCells);
        w.movement = true;
    }
    if r.one_in(10) {
        let t = gen::text(r, 20, gen::ALL);
        n.reset_text(t.as_str());
        w.text = t;
    }
    (n, w)
}

fn style(e: &Elem, k: &str) -> Option<String> {
    e.a("style")
        .split(';')
        .filter_map(|p| p.split_once(':'))
        .find(|(a, _)| a.trim() == k)
        .map(|(_, v)| v.trim().to_string())
}

fn points(e: &Elem, k: &str) -> Option<f64> {
    style(e, k)?.strip_suffix("pt")?.parse().ok()
}

fn run_text(e: &Elem) -> String {
    e.child("t").map(|t| xstring(&t_text(t))).unwrap_or_default()
}

fn check_comments(ctx: &mut Ctx, b: &Book, s: &Sheet, m: &Model, at: &str) {
    let parts = b.related(&s.rels, "comments");
    ctx.eq(&parts.len(), &usize::from(!m.notes.is_empty()), "parts", &format!("{at}: comments parts"));
    let Some(part) = parts.first() else { return };
    let x = match b.pkg.xml(part) {
        Ok(x) => x,
        Err(e) => return ctx.fail("comments", format!("{at}: {e}")),
    };
    let authors: Vec<String> = x
        .child("authors")
        .map(|a| a.children("author").map(|v| xstring(&v.text())).collect())
        .unwrap_or_default();
    let mut left = m.notes.clone();
    for c in x.path("commentList").iter().flat_map(|l| l.children("comment")) {
        let cell = c.a("ref");
        let Some(w) = crate::book::parse_a1(cell).and_then(|k| left.remove(&k)) else {
            ctx.fail("extra", format!("{at}: note on {cell} again or never requested"));
            continue;
        };
        let me = format!("{at} note {cell}");
        let want_author = w
            .author
            .clone()
            .or_else(|| m.author.clone())
            .unwrap_or_else(|| "Author".to_string());
        let got = c.int("authorId").and_then(|i| authors.get(i as usize));
        ctx.check(got == Some(&want_author), "author", || {
            format!("{me}: author {got:?} instead of {want_author:?} (of {authors:?})")
        });
        let runs: Vec<&Elem> = c.path("text").map(|t| t.children("r").collect()).unwrap_or_default();
        let text: String = runs.iter().map(|r| run_text(r)).collect();
        let want = if w.prefix {
            format!("{want_author}:\n{}", w.text)
        } else {
            w.text.clone()
        };
        ctx.check(text == want, "text", || {
            format!("{me}: text {text:?} instead of {want:?}")
        });
        for (i, r) in runs.iter().enumerate() {
            let p = |n: &str| r.path(&format!("rPr/{n}")).map(|e| e.a("val").to_string());
            ctx.eq(&p("rFont").map(|v| xstring(&v)), &Some(w.font.clone()), "font", &me);
            ctx.eq(&p("sz").and_then(|v| v.parse::<f64>().ok()), &Some(w.size), "font", &me);
            let bold = r.path("rPr/b").is_some();
            ctx.eq(&bold, &(w.prefix && i == 0), "bold", &me);
        }
    }
    for k in left.keys() {
        ctx.fail("missing", format!("{at}: note on {} is missing", a1(k.0, k.1)));
    }
}

fn check_vml(ctx: &mut Ctx, b: &Book, s: &Sheet, m: &Model, ids: &mut BTreeMap<String, String>, at: &str) {
    let part = s
        .xml
        .child("legacyDrawing")
        .and_then(|x| s.rel(x.a("r:id")))
        .map(|r| r.part.clone());
    let wanted = !m.notes.is_empty() || !m.buttons.is_empty();
    ctx.eq(&part.is_some(), &wanted, "vml part", at);
    let Some(part) = part else { return };
    let x = match b.pkg.xml(&part) {
        Ok(x) => x,
        Err(e) => return ctx.fail("vml", format!("{at}: {e}")),
    };
    let blocks: BTreeSet<u64> = x
        .path("o:shapelayout/o:idmap")
        .map(|e| e.a("data").split(',').filter_map(|v| v.trim().parse().ok()).collect())
        .unwrap_or_default();
    for k in &blocks {
        if let Some(o) = ids.insert(format!("block {k}"), at.to_string()) {
            ctx.fail("ids", format!("{at}: block {k} of shape ids is used by {o} too"));
        }
    }
    let mut left = m.notes.clone();
    let mut buttons = 0;
    for e in x.children("v:shape") {
        let id = e.a("id");
        if let Some(o) = ids.insert(id.to_string(), at.to_string()) {
            ctx.fail("ids", format!("{at}: shape id {id} is used in {o} too"));
        }
        let n: Option<u64> = id.strip_prefix("_x0000_s").and_then(|v| v.parse().ok());
        ctx.check(n.is_some_and(|n| blocks.contains(&(n / 1024))), "ids", || {
            format!("{at}: shape id {id} outside of the blocks {blocks:?} of the drawing")
        });
        let Some(c) = e.child("x:ClientData") else {
            ctx.fail("vml", format!("{at}: {id} has no client data"));
            continue;
        };
        if c.a("ObjectType") != "Note" {
            buttons += 1;
            continue;
        }
        let row: Option<u32> = c.child_text("x:Row").and_then(|v| v.parse().ok());
        let col: Option<u16> = c.child_text("x:Column").and_then(|v| v.parse().ok());
        let key = (row.unwrap_or(u32::MAX), col.unwrap_or(u16::MAX));
        let Some(w) = left.remove(&key) else {
            ctx.fail("extra", format!("{at}: note shape for {row:?} {col:?} again or never requested"));
            continue;
        };
        let me = format!("{at} shape of {}", a1(key.0, key.1));
        let visible = w.visible.unwrap_or(m.show_all);
        ctx.eq(
            &style(e, "visibility").unwrap_or_default().as_str(),
            &if visible { "visible" } else { "hidden" },
            "visibility",
            &me,
        );
        ctx.eq(&c.child("x:Visible").is_some(), &visible, "visibility", &me);
        ctx.eq(&e.a("fillcolor"), &w.fill.as_str(), "fill", &me);
        ctx.eq(&e.attr("alt").unwrap_or_default().to_string(), &w.alt, "alt text", &me);
        ctx.eq(&points(e, "width"), &Some(w.w * 0.75), "size", &me);
        ctx.eq(&points(e, "height"), &Some(w.h * 0.75), "size", &me);
        // Marked when the note does not follow the cells.
        ctx.eq(&c.child("x:MoveWithCells").is_none(), &w.movement, "movement", &me);
        let a: Vec<i64> = c
            .child_text("x:Anchor")
            .unwrap_or_default()
            .split(',')
            .filter_map(|v| v.trim().parse().ok())
            .collect();
        if a.len() == 8 {
            // Shown next to its cell.
            let (dc, dr) = ((a[0] - i64::from(key.1)).abs(), (a[2] - i64::from(key.0)).abs());
            ctx.check(dc <= 4 && dr <= 4, "anchor", || format!("{me}: shown at {a:?}"));
        } else {
            ctx.fail("anchor", format!("{me}: {a:?}"));
        }
    }
    for k in left.keys() {
        ctx.fail("missing", format!("{at}: no shape for the note on {}", a1(k.0, k.1)));
    }
    ctx.eq(&buttons, &m.buttons.len(), "buttons", at);
}

pub fn case(ctx: &mut Ctx) {
    let n = ctx.rng.u16(1, 4) as usize;
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let mut ms = vec![Model::default(); n];
    let saves = ctx.rng.u16(1, 3);
    let mut wide = 0;
    for save in 0..saves {
        if save == 0 && ctx.rng.one_in(12) {
            // A block of shape ids holds 1024 shapes.
            let i = ctx.rng.usize(n);
            let count = *ctx.rng.pick(&[1000u32, 1022, 1023, 1024, 1025, 1026, 2046, 2048, 2050]);
            ctx.log(format!("sheet {i}: {count} notes"));
            for k in 0..count {
                let (r, c) = (100 + k % 700, 20 + (k / 700) as u16);
                let (note, w) = (
                    Note::new("many"),
                    Want {
                        text: "many".into(),
                        author: None,
                        prefix: true,
                        w: 128.0,
                        h: 74.0,
                        visible: None,
                        fill: "#ffffe1".into(),
                        font: "Tahoma".into(),
                        size: 8.0,
                        alt: String::new(),
                        movement: false,
                    },
                );
                if sh.ws(i).insert_note(r, c, &note).is_err() {
                    ctx.fail("insert", "a note was refused");
                    return;
                }
                ms[i].notes.insert((r, c), w);
            }
            wide += 1;
        }
        for _ in 0..ctx.rng.u16(1, 16) {
            let i = ctx.rng.usize(n);
            match ctx.rng.below(12) {
                0 => {
                    let on = ctx.rng.bool();
                    ctx.log(format!("sheet {i}: show all notes {on}"));
                    sh.ws(i).show_all_notes(on);
                    ms[i].show_all = on;
                }
                1 => {
                    let a = author(&mut ctx.rng);
                    ctx.log(format!("sheet {i}: default author {a:?}"));
                    sh.ws(i).set_default_note_author(a.as_str());
                    if a.chars().count() <= 52 {
                        ms[i].author = Some(a);
                    }
                }
                2 => {
                    let (r, c) = place(&mut ctx.rng);
                    ctx.log(format!("sheet {i}: button {}", a1(r, c)));
                    if sh.ws(i).insert_button(r, c, &Button::new()).is_err() {
                        ctx.fail("insert", "a button was refused");
                        return;
                    }
                    ms[i].buttons.insert((r, c));
                }
                3 if !ms[i].header => {
                    ctx.log(format!("sheet {i}: header image"));
                    let png = kit::png(8, 8, None, &[i as u8]);
                    if let Ok(im) = Image::new_from_buffer(&png) {
                        let ws = sh.ws(i);
                        ws.set_header("&L&G");
                        let _ = ws.set_header_image(&im, rust_xlsxwriter::HeaderImagePosition::Left);
                        ms[i].header = true;
                    }
                }
                _ => {
                    let (r, c) = if ctx.rng.one_in(5) && !ms[i].notes.is_empty() {
                        let k: Vec<_> = ms[i].notes.keys().copied().collect();
                        *ctx.rng.pick(&k)
                    } else {
                        place(&mut ctx.rng)
                    };
                    let (note, w) = note(&mut ctx.rng);
                    ctx.log(format!("sheet {i}: note {} {w:?}", a1(r, c)));
                    if let Err(e) = sh.ws(i).insert_note(r, c, &note) {
                        ctx.fail("insert", format!("note refused: {e}"));
                        return;
                    }
                    ms[i].notes.insert((r, c), w);
                }
            }
        }
        let Some(b) = save_open(ctx, &mut sh) else { return };
        let mut ids = BTreeMap::new();
        for i in 0..n {
            let name = sh.names[i].clone();
            let Some(s) = b.sheet(&name) else {
                ctx.fail("sheet", format!("{name} is missing"));
                return;
            };
            let at = format!("save {save} {name}");
            check_comments(ctx, &b, s, &ms[i], &at);
            check_vml(ctx, &b, s, &ms[i], &mut ids, &at);
            if !ctx.fails.is_empty() {
                return;
            }
        }
    }
    let notes: usize = ms.iter().map(|m| m.notes.len()).sum();
    let authors: BTreeSet<_> = ms.iter().flat_map(|m| m.notes.values()).filter_map(|w| w.author.clone()).collect();
    ctx.add("notes", notes as u64);
    ctx.add("authors", authors.len() as u64);
    ctx.add("sheets of over 999 notes", wide);
    if notes > 1 {
        ctx.nontrivial = true;
    }
}
