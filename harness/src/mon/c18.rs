//! C18 defined names, print ranges and filter ranges.

use crate::book::{col_letters, name_needs_quotes, split_sheet_ref};
use crate::gen;
use crate::run::Ctx;
use crate::sheetops::open_wb;
use rust_xlsxwriter::{Workbook, Worksheet, XlsxError};
use std::collections::BTreeMap;

const LAST_ROW: u32 = 1_048_575;
const LAST_COL: u16 = 16383;

#[derive(Default, Clone)]
struct S {
    name: String,
    area: Option<(u32, u16, u32, u16)>,
    rows: Option<(u32, u32)>,
    cols: Option<(u16, u16)>,
    filter: Option<(u32, u16, u32, u16)>,
    chart: bool,
}

pub fn quoted(n: &str) -> String {
    if name_needs_quotes(n) {
        format!("'{}'", n.replace('\'', "''"))
    } else {
        n.to_string()
    }
}

fn rows_text(a: u32, b: u32) -> String {
    format!("${}:${}", a + 1, b + 1)
}
fn cols_text(a: u16, b: u16) -> String {
    format!("${}:${}", col_letters(a), col_letters(b))
}
fn area_text(q: (u32, u16, u32, u16)) -> Vec<String> {
    let (r1, c1, r2, c2) = q;
    let a = format!("${}${}", col_letters(c1), r1 + 1);
    let b = format!("${}${}", col_letters(c2), r2 + 1);
    let mut v = vec![format!("{a}:{b}")];
    if a == b {
        v.push(a);
    }
    // Whole rows and columns may be written as such.
    if c1 == 0 && c2 == LAST_COL {
        v.push(rows_text(r1, r2));
    }
    if r1 == 0 && r2 == LAST_ROW {
        v.push(cols_text(c1, c2));
    }
    v
}

fn sheet_name(ctx: &mut Ctx, i: usize) -> String {
    let base = match ctx.rng.below(12) {
        0 => format!("Sheet{}", i + 1),
        1 => format!("it's {i}"),
        2 => format!("a!b{i}"),
        3 => format!("R{}C{}", i + 1, ctx.rng.range(1, 20)),
        4 => format!("AB{}", i + 1),
        5 => format!("{i}th"),
        6 => format!("É_{i}.x"),
        7 => format!("<&\">{i}"),
        8 => format!("''q{i}x"),
        9 => format!("A,B {i}"),
        _ => return gen::sheet_name(&mut ctx.rng, i),
    };
    if base.starts_with('\'') {
        format!("x{base}")
    } else {
        base
    }
}

fn settings(ctx: &mut Ctx, ws: &mut Worksheet, s: &mut S) {
    let r = &mut ctx.rng;
    let a = r.u32(0, 40);
    let b = a + r.u32(0, 40);
    let c = r.u16(0, 30);
    let d = c + r.u16(0, 30);
    let q = match r.below(8) {
        0 => (a, 0, b, LAST_COL),
        1 => (0, c, LAST_ROW, d),
        2 => (0, 0, b, d),
        3 => (a, c, a, c),
        4 => (LAST_ROW - a, LAST_COL - c, LAST_ROW, LAST_COL),
        _ => (a, c, b, d),
    };
    let what;
    let res = match r.below(9) {
        0..=2 => {
            if r.one_in(8) {
                what = "print area everything".to_string();
                s.area = None;
                ws.set_print_area(0, 0, LAST_ROW, LAST_COL).map(|_| ())
            } else {
                what = format!("print area {q:?}");
                s.area = Some(q);
                ws.set_print_area(q.0, q.1, q.2, q.3).map(|_| ())
            }
        }
        3 | 4 => {
            let (x, y) = *r.pick(&[(a, b), (0, 0), (0, LAST_ROW), (a, a), (LAST_ROW, LAST_ROW)]);
            what = format!("repeat rows {x} {y}");
            s.rows = Some((x, y));
            ws.set_repeat_rows(x, y).map(|_| ())
        }
        5 | 6 => {
            let (x, y) = *r.pick(&[(c, d), (0, 0), (0, LAST_COL), (c, c), (LAST_COL, LAST_COL)]);
            what = format!("repeat columns {x} {y}");
            s.cols = Some((x, y));
            ws.set_repeat_columns(x, y).map(|_| ())
        }
        _ => {
            // Filters over whole columns are slow to build; keep them small.
            let q = (a, c, b, d);
            what = format!("autofilter {q:?}");
            s.filter = Some(q);
            ws.autofilter(q.0, q.1, q.2, q.3).map(|_| ())
        }
    };
    ctx.log(format!("{:?} {what}", s.name));
    ctx.check(res.is_ok(), "rejected", || format!("{what}: {res:?}"));
    // Reversed and out of range requests change nothing.
    if ctx.rng.one_in(6) {
        let res = match ctx.rng.below(4) {
            0 => ws.set_print_area(5, 5, 4, 5),
            1 => ws.set_repeat_rows(9, 8),
            2 => ws.set_repeat_columns(3, LAST_COL + 1),
            _ => ws.autofilter(5, 5, 5, 4),
        };
        ctx.check(res.is_err(), "accepted", || {
            "reversed range accepted".into()
        });
    }
}

fn name(ctx: &mut Ctx, i: usize) -> String {
    let w = gen::word(&mut ctx.rng);
    match ctx.rng.below(9) {
        0 => format!("_{w}{i}_"),
        1 => format!("\\{w}.{i}_"),
        2 => format!("Été_{w}_{i}x"),
        3 => format!("Print_Area{i}x"),
        4 => format!("Z{w}?{i}x"),
        5 => format!("日本_{i}"),
        6 => format!("{}_{i}_", w.to_uppercase()),
        _ => format!("{w}_{i}_"),
    }
}

pub fn case(ctx: &mut Ctx) {
    let mut wb = Workbook::new();
    let n = 1 + ctx.rng.usize(5);
    let mut want: Vec<S> = vec![];
    let mut free = vec![];
    for i in 0..n {
        let mut s = S {
            name: sheet_name(ctx, i),
            ..S::default()
        };
        let push = ctx.rng.one_in(4);
        ctx.log(format!("sheet {:?}", s.name));
        if i > 0 && ctx.rng.one_in(8) {
            s.chart = true;
            let mut ch = rust_xlsxwriter::Chart::new_column();
            ch.add_series()
                .set_values((want[0].name.as_str(), 0, 0, 3, 0));
            let cs = wb.add_chartsheet();
            let ok = cs.set_name(&s.name).is_ok() && cs.insert_chart(0, 0, &ch).is_ok();
            ctx.check(ok, "rejected", || "chart sheet".into());
            want.push(s);
            continue;
        }
        let mut own = Worksheet::new();
        let ws = if push { &mut own } else { wb.add_worksheet() };
        if let Err(e) = ws.set_name(&s.name) {
            return ctx.fail("rejected", format!("{:?}: {e}", s.name));
        }
        for _ in 0..ctx.rng.usize(4) {
            settings(ctx, ws, &mut s);
        }
        if push {
            free.push(own);
            wb.push_worksheet(free.pop().unwrap_or_default());
        }
        want.push(s);
    }
    let mut users: Vec<(String, Option<String>, String)> = vec![];
    let mut unknown = false;
    for i in 0..ctx.rng.usize(8) {
        // Some names share their spelling across scopes.
        let nm = if !users.is_empty() && ctx.rng.one_in(5) {
            users[0].0.clone()
        } else {
            name(ctx, i)
        };
        let scope = if ctx.rng.bool() {
            Some(ctx.rng.pick(&want).name.clone())
        } else {
            None
        };
        if users
            .iter()
            .any(|u| u.0.to_lowercase() == nm.to_lowercase() && u.1 == scope)
        {
            continue;
        }
        let target = quoted(&ctx.rng.pick(&want).name.clone());
        let f = match ctx.rng.below(5) {
            0 => format!("={}", ctx.rng.range(-9, 99)),
            1 => format!("{target}!$A$1"),
            2 => format!("={target}!$B$2:$C$9,{target}!$E$1"),
            3 => "=\"<a&b>\"".into(),
            _ => format!("={target}!$G$1:$G$10"),
        };
        let full = match &scope {
            Some(s) => format!("{}!{nm}", quoted(s)),
            None => nm.clone(),
        };
        ctx.log(format!("name {full:?} = {f:?}"));
        if let Err(e) = wb.define_name(&full, &f) {
            ctx.fail("rejected", format!("{full:?}: {e}"));
        }
        users.push((nm, scope, f.strip_prefix('=').unwrap_or(&f).to_string()));
    }
    for _ in 0..ctx.rng.usize(3) {
        let w = gen::word(&mut ctx.rng);
        let bad = match ctx.rng.below(8) {
            0 => format!("1{w}"),
            1 => format!("{w} x"),
            2 => format!(
                "{w}{}",
                ctx.rng
                    .pick(&[",", "/", "*", "[", "]", ":", "\"", "'", " "])
            ),
            3 => format!(".{w}"),
            4 => String::new(),
            5 => format!("{}!", quoted(&want[0].name)),
            6 => format!("{}!{w}/{w}", quoted(&want[0].name)),
            _ => format!("{}!9{w}", quoted(&want[0].name)),
        };
        ctx.log(format!("bad name {bad:?}"));
        let res = wb.define_name(&bad, "=1").map(|_| ());
        ctx.check(
            matches!(res, Err(XlsxError::ParameterError(_))),
            "bad-name-accepted",
            || format!("{bad:?}: {res:?}"),
        );
    }
    if ctx.rng.one_in(20) {
        unknown = true;
        let _ = wb.define_name("'No such sheet'!x_y_z", "=1");
    }
    // Sheets may be reordered once they exist.
    if n > 1 && ctx.rng.one_in(3) {
        let (i, j) = (ctx.rng.usize(n), ctx.rng.usize(n));
        ctx.log(format!("swap {i} {j}"));
        wb.worksheets_mut().swap(i, j);
        want.swap(i, j);
    }
    let saves = 1 + u64::from(ctx.rng.one_in(4));
    for round in 0..saves {
        if unknown {
            let r = wb.save_to_buffer().map(|_| ());
            ctx.check(
                matches!(r, Err(XlsxError::ParameterError(_))),
                "unknown-sheet",
                || format!("{r:?}"),
            );
            return;
        }
        let Some(b) = open_wb(ctx, &mut wb) else {
            return;
        };
        let order: Vec<&str> = b.sheets.iter().map(|s| s.name.as_str()).collect();
        let exp: Vec<&str> = want.iter().map(|s| s.name.as_str()).collect();
        ctx.eq(&order, &exp, "sheet-order", "sheets");
        let mut left: Vec<_> = b.names.iter().collect();
        let mut take = |ctx: &mut Ctx,
                        nm: &str,
                        local: Option<usize>,
                        hidden: bool,
                        ok: &dyn Fn(&str) -> bool,
                        what: &str| {
            let found: Vec<usize> = left
                .iter()
                .enumerate()
                .filter(|(_, d)| d.name == nm && d.local == local)
                .map(|(i, _)| i)
                .collect();
            if found.len() != 1 {
                ctx.fail("name-count", format!("{what}: {} entries", found.len()));
                return;
            }
            let d = left.remove(found[0]);
            ctx.check(ok(&d.text) && d.hidden == hidden, "name-text", || {
                format!("{what}: {d:?}")
            });
        };
        for (nm, scope, text) in &users {
            let local = scope
                .as_ref()
                .map(|s| want.iter().position(|w| w.name == *s).unwrap_or(usize::MAX));
            take(
                ctx,
                nm,
                local,
                false,
                &|t| t == text,
                &format!("{scope:?} {nm} {text}"),
            );
        }
        for (i, s) in want.iter().enumerate() {
            let on = |t: &str, v: &[String]| match split_sheet_ref(t) {
                Some((n, r)) => n == s.name && v.contains(&r),
                None => false,
            };
            if let Some(q) = s.area {
                let v = area_text(q);
                take(
                    ctx,
                    "_xlnm.Print_Area",
                    Some(i),
                    false,
                    &|t| on(t, &v),
                    &format!("{} {q:?}", s.name),
                );
            }
            if let Some(q) = s.filter {
                let v = area_text(q);
                take(
                    ctx,
                    "_xlnm._FilterDatabase",
                    Some(i),
                    true,
                    &|t| on(t, &v),
                    &format!("{} {q:?}", s.name),
                );
            }
            if s.rows.is_some() || s.cols.is_some() {
                let mut parts = vec![];
                if let Some((x, y)) = s.cols {
                    parts.push(format!("{}!{}", quoted(&s.name), cols_text(x, y)));
                }
                if let Some((x, y)) = s.rows {
                    parts.push(format!("{}!{}", quoted(&s.name), rows_text(x, y)));
                }
                let full = parts.join(",");
                // Quoting more than needed means the same.
                let always = full.replace(
                    &format!("{}!", quoted(&s.name)),
                    &format!("'{}'!", s.name.replace('\'', "''")),
                );
                take(
                    ctx,
                    "_xlnm.Print_Titles",
                    Some(i),
                    false,
                    &|t| t == full || t == always,
                    &format!("{} titles {full}", s.name),
                );
            }
        }
        let extra: Vec<String> = left.iter().map(|d| format!("{d:?}")).collect();
        ctx.check(extra.is_empty(), "name-extra", || extra.join(", "));
        // Names must be unique in their scope.
        let mut seen = BTreeMap::new();
        for d in &b.names {
            if seen.insert((d.name.to_lowercase(), d.local), ()).is_some() {
                ctx.fail("name-duplicate", format!("{d:?}"));
            }
        }
        ctx.add("names", b.names.len() as u64);
        ctx.nontrivial = b.names.len() > 2;
        if round == 0 {
            ctx.add(
                "charts sheets",
                want.iter().filter(|s| s.chart).count() as u64,
            );
        }
    }
}
