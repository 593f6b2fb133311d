//! C37 VBA projects, code names and buttons.

use crate::book::{a1, Book, Sheet};
use crate::gen::{self, TextOpt};
use crate::kit;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::open_wb;
use crate::xml::Elem;
use rust_xlsxwriter::{Button, Chart, ChartType, Note, ObjectMovement, Workbook, Worksheet};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
struct Want {
    caption: String,
    mac: String,
    alt: String,
    w: f64,
    h: f64,
    x: u32,
    y: u32,
}

#[derive(Clone, Default, Debug)]
struct SheetM {
    name: String,
    vba: Option<String>,
    chart: bool,
    buttons: BTreeMap<(u32, u16, u32, u32), Want>,
}

const PLAIN: TextOpt = TextOpt {
    ctrl: false,
    breaks: false,
    nonchar: false,
    esc: false,
};

/// A VBA name and whether it is allowed.
fn vba_name(r: &mut Rng, i: usize) -> (String, bool) {
    let long = |n: usize| "L".repeat(n);
    match r.below(10) {
        0 => (long(31), true),
        1 => (long(32), false),
        2 => (format!("1abc{i}"), false),
        3 => (format!("_abc{i}"), false),
        4 => (format!("a b{i}"), false),
        5 => (String::new(), false),
        6 => (format!("a{}{i}", r.pick(&["-", ".", "!", "&", "'", "\"", "<"])), false),
        7 => (format!("É_été{i}"), true),
        8 => (format!("Code_{i}_{}", r.u8(0, 9)), true),
        _ => (format!("N{}x{i}", gen::word(r)), true),
    }
}

fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[1usize, 10, 100, 5000, 70000]);
    (0..n).map(|_| r.u8(0, 255)).collect()
}

fn button(r: &mut Rng) -> (Button, Want) {
    let mut b = Button::new();
    let mut w = Want {
        caption: String::new(),
        mac: String::new(),
        alt: String::new(),
        w: 64.0,
        h: 20.0,
        x: 0,
        y: 0,
    };
    for _ in 0..r.u8(0, 6) {
        match r.below(7) {
            0 => {
                let c = gen::text(r, 20, PLAIN);
                b = b.set_caption(c.as_str());
                w.caption = c;
            }
            1 => {
                // Over-long captions are refused.
                let n = *r.pick(&[254usize, 255, 256]);
                let c = "ä".repeat(n);
                b = b.set_caption(c.as_str());
                if n <= 255 {
                    w.caption = c;
                }
            }
            2 => {
                let m = format!("{}_{}", gen::word(r), r.u8(0, 99));
                b = b.set_macro(m.as_str());
                w.mac = m;
            }
            3 => {
                let v = r.u32(0, 300);
                b = b.set_width(v);
                if v > 0 {
                    w.w = f64::from(v);
                }
            }
            4 => {
                let v = r.u32(0, 300);
                b = b.set_height(v);
                if v > 0 {
                    w.h = f64::from(v);
                }
            }
            5 => b = b.set_object_movement(ObjectMovement::MoveButDontSizeWithCells),
            _ => {
                let a = gen::text(r, 20, PLAIN);
                b = b.set_alt_text(a.as_str());
                w.alt = a;
            }
        }
    }
    (b, w)
}

fn points(e: &Elem, k: &str) -> Option<f64> {
    e.a("style")
        .split(';')
        .filter_map(|p| p.split_once(':'))
        .find(|(a, _)| a.trim() == k)
        .and_then(|(_, v)| v.trim().strip_suffix("pt"))
        .and_then(|v| v.parse().ok())
}

fn default_number(s: &str, prefix: &str, suffix: &str) -> Option<u32> {
    s.strip_prefix(prefix)?.strip_suffix(suffix)?.parse().ok()
}

fn buttons(ctx: &mut Ctx, b: &Book, s: &Sheet, m: &SheetM, at: &str) {
    let mut left: BTreeMap<(i64, i64, i64, i64), Want> = m
        .buttons
        .values()
        .zip(m.buttons.keys())
        .map(|(w, k)| ((i64::from(k.1), i64::from(w.x), i64::from(k.0), i64::from(w.y)), w.clone()))
        .collect();
    let part = s
        .xml
        .child("legacyDrawing")
        .and_then(|x| s.rel(x.a("r:id")))
        .map(|r| r.part.clone());
    let mut defaults = BTreeSet::new();
    let mut macros = BTreeSet::new();
    if let Some(part) = part {
        let x = match b.pkg.xml(&part) {
            Ok(x) => x,
            Err(e) => return ctx.fail("vml", format!("{at}: {e}")),
        };
        for e in x.children("v:shape") {
            let Some(c) = e.child("x:ClientData").filter(|c| c.a("ObjectType") == "Button") else {
                continue;
            };
            let a: Vec<i64> = c
                .child_text("x:Anchor")
                .unwrap_or_default()
                .split(',')
                .filter_map(|v| v.trim().parse().ok())
                .collect();
            if a.len() != 8 {
                ctx.fail("anchor", format!("{at}: {a:?}"));
                continue;
            }
            let Some(w) = left.remove(&(a[0], a[1], a[2], a[3])) else {
                ctx.fail("extra", format!("{at}: button at {a:?} again or never requested"));
                continue;
            };
            let me = format!("{at} button {}", a1(a[2] as u32, a[0] as u16));
            let caption: String = e.find_all("font").iter().map(|f| f.text()).collect();
            let mac = c.child_text("x:FmlaMacro").unwrap_or_default();
            let mut number = None;
            if w.caption.is_empty() {
                number = default_number(&caption, "Button ", "");
                ctx.check(number.is_some() && defaults.insert(number), "caption", || {
                    format!("{me}: caption {caption:?} is not a default of its own")
                });
            } else {
                ctx.eq(&caption, &w.caption, "caption", &me);
            }
            if w.mac.is_empty() {
                let k = default_number(&mac, "[0]!Button", "_Click");
                ctx.check(k.is_some() && macros.insert(k), "macro", || {
                    format!("{me}: macro {mac:?} is not a default of its own")
                });
                ctx.check(number.is_none() || number == k, "macro", || {
                    format!("{me}: macro {mac:?} does not belong to {caption:?}")
                });
            } else {
                ctx.eq(&mac, &format!("[0]!{}", w.mac), "macro", &me);
            }
            ctx.eq(&e.attr("alt").unwrap_or_default().to_string(), &w.alt, "alt text", &me);
            ctx.eq(&points(e, "width"), &Some(w.w * 0.75), "size", &me);
            ctx.eq(&points(e, "height"), &Some(w.h * 0.75), "size", &me);
        }
    }
    for k in left.keys() {
        ctx.fail("missing", format!("{at}: button at {k:?} is missing"));
    }
}

const MAIN: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml";
const MACRO: &str = "application/vnd.ms-excel.sheet.macroEnabled.main+xml";

pub fn case(ctx: &mut Ctx) {
    run(ctx);
    for k in ["vba", "sig"] {
        let _ = std::fs::remove_file(ctx.scratch.join(format!("c37_{}_{k}.bin", ctx.index)));
    }
}

fn run(ctx: &mut Ctx) {
    let mut wb = Workbook::new();
    kit::fixed_date(&mut wb);
    let mut sheets: Vec<SheetM> = vec![];
    let mut project: Option<Vec<u8>> = None;
    // A signature stays unless a new one is given.
    let mut signature: Option<Vec<u8>> = None;
    let mut stale = false;
    let mut code: Option<String> = None;
    let dir = ctx.scratch.clone();
    let (pa, pb) = (
        dir.join(format!("c37_{}_vba.bin", ctx.index)),
        dir.join(format!("c37_{}_sig.bin", ctx.index)),
    );
    let none = dir.join("no_such_file.bin");
    let saves = ctx.rng.u16(1, 3);
    let mut count = 0;
    for save in 0..saves {
        for step in 0..ctx.rng.u16(3, 14) {
            let k = if step == 0 && sheets.is_empty() { 0 } else { ctx.rng.below(10) };
            match k {
                0 | 1 => {
                    let name = format!("W{count}");
                    count += 1;
                    let mut m = SheetM {
                        name: name.clone(),
                        ..Default::default()
                    };
                    let kind = ctx.rng.below(5);
                    ctx.log(format!("add sheet {name} kind {kind}"));
                    let ok = match kind {
                        0 => wb.add_worksheet_with_constant_memory().set_name(&name).is_ok(),
                        1 => {
                            let mut ws = Worksheet::new();
                            let ok = ws.set_name(&name).is_ok();
                            wb.push_worksheet(ws);
                            ok
                        }
                        2 => {
                            m.chart = true;
                            let mut c = Chart::new(ChartType::Line);
                            c.add_series().set_values((name.as_str(), 0, 0, 3, 0));
                            let ws = wb.add_chartsheet();
                            ws.set_name(&name).is_ok() && ws.insert_chart(0, 0, &c).is_ok()
                        }
                        _ => wb.add_worksheet().set_name(&name).is_ok(),
                    };
                    if !ok {
                        ctx.fail("sheet", "a sheet was refused");
                        return;
                    }
                    sheets.push(m);
                }
                2 | 3 => {
                    let data = bytes(&mut ctx.rng);
                    let sign = ctx.rng.one_in(3).then(|| bytes(&mut ctx.rng));
                    let bad = ctx.rng.one_in(5);
                    let io = std::fs::write(&pa, &data).is_ok()
                        && sign.as_ref().is_none_or(|d| std::fs::write(&pb, d).is_ok());
                    if !io {
                        ctx.fail("scratch", "can't write scratch files");
                        return;
                    }
                    ctx.log(format!("project {} signature {:?} bad {bad}", data.len(), sign.as_ref().map(Vec::len)));
                    let res = match (&sign, bad) {
                        (None, false) => wb.add_vba_project(&pa).map(|_| ()),
                        (Some(_), false) => wb.add_vba_project_with_signature(&pa, &pb).map(|_| ()),
                        (None, true) => wb.add_vba_project(&none).map(|_| ()),
                        (Some(_), true) => {
                            if ctx.rng.bool() {
                                wb.add_vba_project_with_signature(&pa, &none).map(|_| ())
                            } else {
                                wb.add_vba_project_with_signature(&none, &pb).map(|_| ())
                            }
                        }
                    };
                    ctx.eq(&res.is_ok(), &!bad, "result", "adding a project");
                    if !bad {
                        project = Some(data);
                        match sign {
                            Some(s) => {
                                signature = Some(s);
                                stale = false;
                            }
                            None => stale = signature.is_some(),
                        }
                    }
                }
                4 => {
                    let (n, ok) = vba_name(&mut ctx.rng, 999);
                    ctx.log(format!("workbook code name {n:?}"));
                    let res = wb.set_vba_name(n.as_str());
                    let got = res.is_ok();
                    ctx.check(got == ok, "name", || format!("code name {n:?} accepted {got}"));
                    if got {
                        code = Some(n);
                    }
                }
                5 => {
                    let i = ctx.rng.usize(sheets.len());
                    let (n, ok) = vba_name(&mut ctx.rng, count * 20 + i);
                    ctx.log(format!("sheet {i} code name {n:?}"));
                    let Ok(ws) = wb.worksheet_from_index(i) else { return };
                    let got = ws.set_vba_name(n.as_str()).is_ok();
                    ctx.check(got == ok, "name", || format!("code name {n:?} accepted {got}"));
                    if got {
                        sheets[i].vba = Some(n);
                    }
                }
                6 => {
                    // Change the order of the sheets.
                    let i = ctx.rng.usize(sheets.len());
                    let j = ctx.rng.usize(sheets.len());
                    ctx.log(format!("swap {i} and {j}"));
                    wb.worksheets_mut().swap(i, j);
                    sheets.swap(i, j);
                }
                _ => {
                    let i = ctx.rng.usize(sheets.len());
                    if sheets[i].chart {
                        continue;
                    }
                    let (row, col) = if ctx.rng.one_in(6) {
                        (ctx.rng.u32(0, 1_000_000), ctx.rng.u16(0, 16_000))
                    } else {
                        (ctx.rng.u32(0, 12), ctx.rng.u16(0, 12))
                    };
                    let (b, mut w) = button(&mut ctx.rng);
                    let off = ctx.rng.one_in(3);
                    if off {
                        // Within the first cell.
                        w.x = ctx.rng.u32(0, 63);
                        w.y = ctx.rng.u32(0, 19);
                    }
                    ctx.log(format!("sheet {i} button {} {w:?}", a1(row, col)));
                    let Ok(ws) = wb.worksheet_from_index(i) else { return };
                    let res = if off {
                        ws.insert_button_with_offset(row, col, &b, w.x, w.y).map(|_| ())
                    } else {
                        ws.insert_button(row, col, &b).map(|_| ())
                    };
                    if res.is_err() {
                        ctx.fail("button", "a button was refused");
                        return;
                    }
                    if ctx.rng.one_in(4) {
                        let _ = ws.insert_note(row, col, &Note::new("note"));
                    }
                    sheets[i].buttons.insert((row, col, w.y, w.x), w);
                }
            }
        }
        let Some(b) = open_wb(ctx, &mut wb) else { return };
        let at = format!("save {save}");
        let names: Vec<&str> = sheets.iter().map(|s| s.name.as_str()).collect();
        ctx.eq(&b.sheets.iter().map(|s| s.name.as_str()).collect::<Vec<_>>(), &names, "sheets", &at);
        ctx.eq(
            &b.pkg.content_type("xl/workbook.xml").unwrap_or_default(),
            &if project.is_some() { MACRO } else { MAIN },
            "type",
            &at,
        );
        // The project.
        let rels = b.pkg.rels("xl/workbook.xml").unwrap_or_default();
        let found: Vec<_> = rels.iter().filter(|r| r.kind == "vbaProject").collect();
        ctx.eq(&found.len(), &usize::from(project.is_some()), "project", &format!("{at}: projects"));
        let wanted: BTreeSet<&[u8]> = project.iter().chain(signature.iter()).map(Vec::as_slice).collect();
        for n in b.pkg.parts.keys() {
            let vba = n.to_lowercase().contains("vba") && n.ends_with(".bin");
            ctx.check(!vba || b.pkg.data(n).is_ok_and(|d| wanted.contains(d)), "macro content", || {
                format!("{at}: {n} was never added")
            });
        }
        if let (Some(p), Some(r)) = (&project, found.first()) {
            ctx.check(b.pkg.data(&r.part).is_ok_and(|d| d == p.as_slice()), "bytes", || {
                format!("{at}: {} differs from the project", r.part)
            });
            ctx.eq(
                &b.pkg.content_type(&r.part).unwrap_or_default(),
                &"application/vnd.ms-office.vbaProject",
                "type",
                &at,
            );
            let srels = b.pkg.rels(&r.part).unwrap_or_default();
            let sig = srels.iter().find(|r| r.kind == "vbaProjectSignature");
            if !stale {
                ctx.eq(&sig.is_some(), &signature.is_some(), "signature", &at);
            }
            if let (Some(s), Some(r)) = (&signature, sig) {
                ctx.check(b.pkg.data(&r.part).is_ok_and(|d| d == s.as_slice()), "bytes", || {
                    format!("{at}: {} differs from the signature", r.part)
                });
                ctx.eq(
                    &b.pkg.content_type(&r.part).unwrap_or_default(),
                    &"application/vnd.ms-office.vbaProjectSignature",
                    "type",
                    &at,
                );
            }
        }
        // The code names.
        if let Ok(x) = b.pkg.xml("xl/workbook.xml") {
            let got = x.child("workbookPr").and_then(|e| e.attr("codeName")).map(str::to_string);
            let want = code.clone().or_else(|| project.is_some().then(|| "ThisWorkbook".to_string()));
            ctx.eq(&got, &want, "workbook code name", &at);
        }
        for (i, m) in sheets.iter().enumerate() {
            let Some(s) = b.sheet(&m.name) else { continue };
            let at = format!("{at} {}", m.name);
            let got = s.xml.child("sheetPr").and_then(|e| e.attr("codeName")).map(str::to_string);
            let want = m
                .vba
                .clone()
                .or_else(|| project.is_some().then(|| format!("Sheet{}", i + 1)));
            ctx.eq(&got, &want, "sheet code name", &at);
            buttons(ctx, &b, s, m, &at);
        }
        if !ctx.fails.is_empty() {
            return;
        }
    }
    ctx.add("sheets", sheets.len() as u64);
    ctx.add("buttons", sheets.iter().map(|m| m.buttons.len() as u64).sum());
    ctx.add("with project", u64::from(project.is_some()));
    ctx.add("with signature", u64::from(signature.is_some()));
    ctx.nontrivial = project.is_some() || sheets.iter().any(|m| !m.buttons.is_empty());
}
