//! C07 constant- and low-memory worksheets equal standard ones.

use crate::canon::{self, Canon};
use crate::gen;
use crate::kit::{self, Kind, Opt, Prog, Step};
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::Mode;
use rust_xlsxwriter::*;
use std::sync::Arc;

/// Rows written cell by cell, several cells to a row.
pub fn dense(r: &mut Rng, first: u32, out: &mut Vec<Step>) {
    let n = r.u32(0, 12);
    let formats: Vec<Format> = (0..3).map(|_| kit::format(r)).collect();
    let mut row = first;
    for _ in 0..n {
        row += r.u32(0, 2);
        for _ in 0..r.usize(6) {
            let col = r.u16(0, 9);
            let k = r.below(12);
            let f = formats[r.usize(3)].clone();
            let text = gen::text(r, 12, gen::ALL);
            let num = gen::number(r);
            let fmt = r.bool();
            let desc = format!("R{row}C{col} dense {k} {text:?} {num:e} fmt {fmt}");
            let fun: kit::WsFn = Arc::new(move |ws: &mut Worksheet| {
                let f = &f;
                let t = text.as_str();
                match (k, fmt) {
                    (0, false) => ws.write_string(row, col, t),
                    (0, true) => ws.write_string_with_format(row, col, t, f),
                    (1, false) => ws.write_number(row, col, num),
                    (1, true) => ws.write_number_with_format(row, col, num, f),
                    (2, false) => ws.write_boolean(row, col, num > 0.0),
                    (2, true) => ws.write_boolean_with_format(row, col, num > 0.0, f),
                    (3, _) => ws.write_blank(row, col, f),
                    (4, false) => ws.write_formula(row, col, Formula::new("=A1+1").set_result(t)),
                    (4, true) => ws.write_formula_with_format(row, col, "=SUM(A1:A2)", f),
                    (5, _) => ws.write_rich_string(row, col, &[(f, "é "), (&Format::new(), "x")]),
                    (6, _) => ws.set_row_format(row, f),
                    (7, false) => ws.set_row_height(row, 3.25 + num.abs() % 90.0),
                    (7, true) => ws.set_row_hidden(row),
                    (8, _) => ws.write_url(row, col, "https://example.com/a?b"),
                    (9, false) => ws.set_cell_format(row, col, f),
                    (9, true) => Ok(ws.clear_cell(row, col)),
                    (10, _) => ws.write_array_formula(row, col, row + 2, col + 1, "{=A1:B3}"),
                    (_, false) => ws.write_dynamic_formula(row, col, "=UNIQUE(A1:A3)"),
                    (_, true) => ws.write_string_only(row, col, t),
                }
                .map(|_| ())
            });
            out.push(Step {
                desc,
                feature: "dense",
                kind: Kind::Cell,
                row,
                f: fun,
                texts: vec![],
            });
        }
    }
}

trait Only {
    fn write_string_only(&mut self, r: u32, c: u16, s: &str) -> Result<&mut Worksheet, XlsxError>;
}

impl Only for Worksheet {
    fn write_string_only(&mut self, r: u32, c: u16, s: &str) -> Result<&mut Worksheet, XlsxError> {
        self.write(r, c, s)
    }
}

/// A write that makes this the current row.
fn marker(row: u32) -> Step {
    Step {
        desc: format!("R{row}C14 marker"),
        feature: "dense",
        kind: Kind::Cell,
        row,
        f: Arc::new(move |ws| ws.write_number(row, 14, 1).map(|_| ())),
        texts: vec![],
    }
}

/// A write to a row that was passed: it must change nothing.
fn past(r: &mut Rng, current: u32) -> Step {
    // (The current row was written just before.)
    let row = r.u32(0, current - 1);
    let col = r.u16(0, 12);
    let k = r.below(7);
    Step {
        desc: format!("PAST R{row}C{col} kind {k}"),
        feature: "past",
        kind: Kind::Cell,
        row,
        f: Arc::new(move |ws| {
            let f = Format::new().set_bold().set_num_format("0.0000000");
            // Refused quietly or with an error.
            let _ = match k {
                0 => ws.write_string(row, col, "past"),
                1 => ws.write_number_with_format(row, col, 424242, &f),
                2 => ws.write_blank(row, col, &f),
                3 => ws.write_boolean(row, col, true),
                4 => ws.write_url(row, col, "https://example.com/past"),
                5 => ws.set_cell_format(row, col, &f),
                _ => ws.write_formula(row, col, "=1+2"),
            };
            Ok(())
        }),
        texts: vec![],
    }
}

fn build(p: &Prog, modes: &[Mode], results: &mut Vec<String>) -> Workbook {
    let mut wb = Workbook::new();
    kit::fixed_date(&mut wb);
    for (s, m) in p.sheets.iter().zip(modes) {
        let mut own = None;
        let ws = match m {
            Mode::Std => wb.add_worksheet(),
            Mode::Low => wb.add_worksheet_with_low_memory(),
            Mode::Const => wb.add_worksheet_with_constant_memory(),
            Mode::Push => own.insert(Worksheet::new()),
            Mode::PushLow => own.insert(wb.new_worksheet_with_low_memory()),
            Mode::PushConst => own.insert(wb.new_worksheet_with_constant_memory()),
        };
        if let Err(e) = ws.set_name(&s.name) {
            results.push(e.to_string());
        }
        for st in &s.steps {
            if st.feature == "past" {
                if m.constant() {
                    let _ = (st.f)(ws);
                }
                continue;
            }
            results.push(format!("{}: {:?}", st.desc, (st.f)(ws)));
        }
        if let Some(w) = own {
            wb.push_worksheet(w);
        }
    }
    for w in &p.wb {
        results.push(format!("{:?}", (w.f)(&mut wb)));
    }
    wb
}

/// Where the string is stored is up to the mode.
fn normal(c: &mut Canon) {
    c.remove("xl/sharedStrings.xml");
    c.retain(|k, _| k != "xl/_rels/workbook.xml.rels" && k != "[Content_Types].xml");
    for (k, v) in c.iter_mut() {
        if k.starts_with("xl/charts/") {
            // There is no data to cache.
            v.retain(|l| {
                !["Cache", "c:pt ", "c:ptCount", "c:pt/", "../c:pt", "../c:v"]
                    .iter()
                    .chain(&[
                        "c:numFmt formatCode=\"General\" sourceLinked=\"1\"",
                        "dateAx/c:numFmt formatCode=\"dd/mm/yyyy\" sourceLinked=\"1\"",
                    ])
                    .any(|x| l.contains(x))
            });
            for l in v.iter_mut() {
                *l = l.replace("c:strRef", "c:ref").replace("c:numRef", "c:ref");
            }
        }
        if !k.starts_with("xl/worksheets/sheet") {
            continue;
        }
        // The height of rows that don't say anything else.
        let dflt = v
            .iter()
            .find(|l| l.starts_with("/worksheet/sheetFormatPr"))
            .and_then(|l| l.split_once("defaultRowHeight="))
            .map(|(_, h)| h.split(' ').next().unwrap_or("").to_string())
            .unwrap_or_default();
        let height = format!(" ht={dflt} customHeight=\"1\"");
        for l in v.iter_mut() {
            // Depends on features that may be added after the row.
            *l = l.replace(" x14ac:dyDescent=\"0.25\"", "");
        }
        let empty = |p: &String| {
            p.starts_with("/worksheet/sheetData/row r=")
                && p.replace(&height, "").matches('=').count() == 1
        };
        let mut out: Vec<String> = vec![];
        let mut inline = String::new();
        let flush = |inline: &mut String, out: &mut Vec<String>| {
            if !inline.is_empty() {
                out.push(format!("string /si{inline}"));
                inline.clear();
            }
        };
        for l in v.iter() {
            // Cells and rows.
            if let Some(r) = l.strip_prefix("/worksheet/sheetData/row/c/is") {
                if r.is_empty() {
                    continue;
                }
                inline.push_str("|/si");
                inline.push_str(r);
                continue;
            }
            flush(&mut inline, &mut out);
            if l == "/worksheet/sheetData/row/c/v" {
                continue;
            }
            if l.starts_with("/worksheet/sheetData/row/c ") {
                out.push(l.replace(" t=\"inlineStr\"", " t=\"s\""));
            } else if let Some(i) = l
                .starts_with("/worksheet/sheetData/row ")
                .then(|| l.find(" spans="))
                .flatten()
            {
                let e = l[i + 8..].find('"').map_or(l.len(), |e| i + 9 + e);
                out.push(format!("{}{}", &l[..i], &l[e..]));
            } else {
                out.push(l.clone());
            }
        }
        flush(&mut inline, &mut out);
        // Rows that say nothing.
        let mut keep: Vec<String> = vec![];
        for l in out {
            let empty_row = !l.starts_with("/worksheet/sheetData/row/")
                && !l.starts_with("string ")
                && keep.last().is_some_and(empty);
            if empty_row {
                keep.pop();
            }
            keep.push(l);
        }
        if keep.last().is_some_and(empty) {
            keep.pop();
        }
        *v = keep;
    }
}

pub fn case(ctx: &mut Ctx) {
    let o = Opt {
        size: 2 + ctx.rng.usize(12),
        sheets: 1 + ctx.rng.usize(4),
        chart_sheets: false,
        // Features that look back at rows that were written.
        skip: &["filter", "autofit", "embed", "format"],
        scratch: Some(ctx.scratch.clone()),
        ..Opt::default()
    };
    let mut p = kit::prog(&mut ctx.rng, &o);
    // Row order: early calls first, then cells by row with the others anywhere.
    for s in &mut p.sheets {
        let steps = std::mem::take(&mut s.steps);
        let mut early: Vec<Step> = vec![];
        let mut any: Vec<Step> = vec![];
        let mut cell: Vec<Step> = vec![];
        for st in steps {
            match st.kind {
                Kind::Early => early.push(st),
                // Defaults for rows have to be known before the rows.
                Kind::Any if st.desc.starts_with("view") => early.push(st),
                Kind::Any => any.push(st),
                Kind::Cell => cell.push(st),
            }
        }
        cell.sort_by_key(|s| s.row);
        let next = cell.iter().map(|s| s.row + 8).max().unwrap_or(0);
        if ctx.rng.pct(70) {
            dense(&mut ctx.rng, next, &mut cell);
        }
        let mut out = early;
        let mut current = 0;
        for st in cell {
            while !any.is_empty() && ctx.rng.one_in(3) {
                let k = ctx.rng.usize(any.len());
                out.push(any.remove(k));
            }
            let reads_back = st.feature == "table" || st.feature == "merge";
            current = st.row;
            out.push(st);
            if current > 0 && !reads_back && ctx.rng.one_in(10) {
                out.push(marker(current));
                out.push(past(&mut ctx.rng, current));
            }
        }
        out.extend(any);
        let _ = current;
        s.steps = out;
    }
    p.log(ctx);
    let n = p.sheets.len();
    let std_modes = vec![Mode::Std; n];
    let mut want_res = vec![];
    let mut wb = build(&p, &std_modes, &mut want_res);
    let b0 = match wb.save_to_buffer() {
        Ok(b) => b,
        Err(e) => {
            ctx.log(format!("standard save refused: {e}"));
            return;
        }
    };
    let mut want = match canon::of(&b0) {
        Ok(c) => c,
        Err(e) => {
            ctx.fail("decode standard", e);
            return;
        }
    };
    normal(&mut want);
    let mixed: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut plans = vec![mixed];
    if ctx.rng.bool() {
        plans.push(vec![Mode::Low; n]);
    } else {
        plans.push(vec![Mode::Const; n]);
    }
    for modes in plans {
        ctx.log(format!("modes {modes:?}"));
        let mut res = vec![];
        let mut wb = build(&p, &modes, &mut res);
        if res != want_res {
            let d: Vec<_> = res
                .iter()
                .zip(&want_res)
                .filter(|(a, b)| a != b)
                .take(3)
                .collect();
            ctx.fail("other results", format!("modes {modes:?}: {d:?}"));
        }
        ctx.nontrivial |= modes.iter().any(|m| m.constant());
        let saves = 1 + usize::from(ctx.rng.one_in(4));
        for k in 0..saves {
            match wb.save_to_buffer() {
                Ok(b) => {
                    ctx.artifact = Some(b.clone());
                    match canon::of(&b) {
                        Ok(mut c) => {
                            normal(&mut c);
                            ctx.add("lines", c.values().map(|v| v.len() as u64).sum());
                            ctx.observed += c.len() as u64;
                            for (part, g, w) in canon::diff(&c, &want) {
                                ctx.fail(
                                    &format!(
                                        "save {k} {} {} {}",
                                        canon::kind(&part),
                                        canon::head(&g),
                                        canon::head(&w)
                                    ),
                                    format!("modes {modes:?}: {part}: got {g}, standard {w}"),
                                );
                            }
                        }
                        Err(e) => ctx.fail("decode", format!("modes {modes:?}: {e}")),
                    }
                }
                Err(e) => ctx.fail("save", format!("modes {modes:?}: {e}")),
            }
        }
    }
}
