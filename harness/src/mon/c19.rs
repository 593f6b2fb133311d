//! C19 tables and their cells.

use crate::book::{a1_range, Book, F, V};
use crate::gen::{self, dxf_norm, Fmt, TextOpt};
use crate::run::Ctx;
use crate::sheetops::{compare, open_result, Grid, Mode, Sheets};
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::{Formula, Table, TableColumn, TableFunction, TableStyle, XlsxError};
use std::collections::HashSet;

const STYLES: &[(TableStyle, &str)] = &[
    (TableStyle::None, "TableStyleNone"),
    (TableStyle::Light1, "TableStyleLight1"),
    (TableStyle::Light2, "TableStyleLight2"),
    (TableStyle::Light3, "TableStyleLight3"),
    (TableStyle::Light4, "TableStyleLight4"),
    (TableStyle::Light5, "TableStyleLight5"),
    (TableStyle::Light6, "TableStyleLight6"),
    (TableStyle::Light7, "TableStyleLight7"),
    (TableStyle::Light8, "TableStyleLight8"),
    (TableStyle::Light9, "TableStyleLight9"),
    (TableStyle::Light10, "TableStyleLight10"),
    (TableStyle::Light11, "TableStyleLight11"),
    (TableStyle::Light12, "TableStyleLight12"),
    (TableStyle::Light13, "TableStyleLight13"),
    (TableStyle::Light14, "TableStyleLight14"),
    (TableStyle::Light15, "TableStyleLight15"),
    (TableStyle::Light16, "TableStyleLight16"),
    (TableStyle::Light17, "TableStyleLight17"),
    (TableStyle::Light18, "TableStyleLight18"),
    (TableStyle::Light19, "TableStyleLight19"),
    (TableStyle::Light20, "TableStyleLight20"),
    (TableStyle::Light21, "TableStyleLight21"),
    (TableStyle::Medium1, "TableStyleMedium1"),
    (TableStyle::Medium2, "TableStyleMedium2"),
    (TableStyle::Medium3, "TableStyleMedium3"),
    (TableStyle::Medium4, "TableStyleMedium4"),
    (TableStyle::Medium5, "TableStyleMedium5"),
    (TableStyle::Medium6, "TableStyleMedium6"),
    (TableStyle::Medium7, "TableStyleMedium7"),
    (TableStyle::Medium8, "TableStyleMedium8"),
    (TableStyle::Medium9, "TableStyleMedium9"),
    (TableStyle::Medium10, "TableStyleMedium10"),
    (TableStyle::Medium11, "TableStyleMedium11"),
    (TableStyle::Medium12, "TableStyleMedium12"),
    (TableStyle::Medium13, "TableStyleMedium13"),
    (TableStyle::Medium14, "TableStyleMedium14"),
    (TableStyle::Medium15, "TableStyleMedium15"),
    (TableStyle::Medium16, "TableStyleMedium16"),
    (TableStyle::Medium17, "TableStyleMedium17"),
    (TableStyle::Medium18, "TableStyleMedium18"),
    (TableStyle::Medium19, "TableStyleMedium19"),
    (TableStyle::Medium20, "TableStyleMedium20"),
    (TableStyle::Medium21, "TableStyleMedium21"),
    (TableStyle::Medium22, "TableStyleMedium22"),
    (TableStyle::Medium23, "TableStyleMedium23"),
    (TableStyle::Medium24, "TableStyleMedium24"),
    (TableStyle::Medium25, "TableStyleMedium25"),
    (TableStyle::Medium26, "TableStyleMedium26"),
    (TableStyle::Medium27, "TableStyleMedium27"),
    (TableStyle::Medium28, "TableStyleMedium28"),
    (TableStyle::Dark1, "TableStyleDark1"),
    (TableStyle::Dark2, "TableStyleDark2"),
    (TableStyle::Dark3, "TableStyleDark3"),
    (TableStyle::Dark4, "TableStyleDark4"),
    (TableStyle::Dark5, "TableStyleDark5"),
    (TableStyle::Dark6, "TableStyleDark6"),
    (TableStyle::Dark7, "TableStyleDark7"),
    (TableStyle::Dark8, "TableStyleDark8"),
    (TableStyle::Dark9, "TableStyleDark9"),
    (TableStyle::Dark10, "TableStyleDark10"),
    (TableStyle::Dark11, "TableStyleDark11"),
];

struct MCol {
    name: String,
    label: String,
    func: &'static str,
    custom: Option<String>,
    formula: Option<String>,
    format: Option<usize>,
}

struct MTable {
    at: (u32, u16, u32, u16),
    name: String,
    header: bool,
    total: bool,
    filter: bool,
    first: bool,
    last: bool,
    rows: bool,
    cols: bool,
    style: &'static str,
    columns: Vec<MCol>,
}

/// Text usable as a column name.
fn header(ctx: &mut Ctx, seq: usize) -> String {
    let r = &mut ctx.rng;
    match r.below(6) {
        0 => {
            let o = TextOpt {
                ctrl: false,
                breaks: true,
                nonchar: false,
                esc: false,
            };
            // Nothing with a meaning of its own inside a formula.
            let t: String = gen::text(r, 8, o)
                .chars()
                .filter(|c| !matches!(c, '@' | '(' | '"' | '{' | '}' | '\r'))
                .collect();
            format!("{t}{seq}")
        }
        1 => format!("{}[{seq}]", gen::word(r)),
        2 => format!("it's #{seq}"),
        3 => format!("É{}ß {seq}", gen::word(r)),
        _ => format!("{} {seq}", gen::word(r)),
    }
}

fn special(name: &str) -> String {
    let mut s = String::new();
    for c in name.chars() {
        if matches!(c, '\'' | '#' | '[' | ']') {
            s.push('\'');
        }
        s.push(c);
    }
    s
}

fn add(
    ctx: &mut Ctx,
    sh: &mut Sheets,
    k: usize,
    g: &mut Grid,
    at: (u32, u16, u32, u16),
    fmts: &[Fmt],
    seq: &mut usize,
) -> Option<MTable> {
    let constant = sh.modes[k].constant();
    let (r1, c1, r2, c2) = at;
    let mut header_on = !ctx.rng.one_in(6);
    let mut total = ctx.rng.one_in(2);
    if r2 == r1 {
        header_on = false;
        total = false;
    } else if r2 == r1 + 1 && header_on {
        total = false;
    }
    let mut t = Table::new();
    let mut m = MTable {
        at,
        name: String::new(),
        header: header_on,
        total,
        filter: true,
        first: false,
        last: false,
        rows: true,
        cols: false,
        style: "TableStyleMedium9",
        columns: vec![],
    };
    // Options in any order, the last request counts.
    for _ in 0..ctx.rng.usize(5) {
        let b = ctx.rng.bool();
        match ctx.rng.below(6) {
            0 => {
                t = t.set_banded_rows(b);
                m.rows = b;
            }
            1 => {
                t = t.set_banded_columns(b);
                m.cols = b;
            }
            2 => {
                t = t.set_first_column(b);
                m.first = b;
            }
            3 => {
                t = t.set_last_column(b);
                m.last = b;
            }
            4 => {
                t = t.set_autofilter(b);
                m.filter = b;
            }
            _ => {
                let (s, n) = *ctx.rng.pick(STYLES);
                t = t.set_style(s);
                m.style = n;
            }
        }
    }
    t = t.set_header_row(header_on).set_total_row(total);
    if !header_on {
        m.filter = false;
    }
    if ctx.rng.one_in(3) {
        *seq += 1;
        let n = match ctx.rng.below(8) {
            0 => format!("Table{}", 1 + ctx.rng.below(4)),
            1 => "Dup".into(),
            _ => format!("My_{}_{seq}", gen::word(&mut ctx.rng)),
        };
        t = t.set_name(&n);
        m.name = n;
    }
    // Some header texts are there already.
    let mut there: Vec<Option<String>> = vec![None; usize::from(c2 - c1) + 1];
    for c in c1..=c2 {
        if ctx.rng.one_in(4) {
            *seq += 1;
            match ctx.rng.below(4) {
                0 if header_on => {
                    let _ = sh.ws(k).write_number(r1, c, 7.5);
                    g.put_num(r1, c, 7.5, None);
                    ctx.log(format!("S{k} number at {r1},{c}"));
                }
                _ => {
                    let h = header(ctx, *seq);
                    let _ = sh.ws(k).write_string(r1, c, &h);
                    g.put_str(r1, c, &h, None);
                    ctx.log(format!("S{k} text at {r1},{c} {h:?}"));
                    there[usize::from(c - c1)] = Some(h);
                }
            }
        }
        // Data below, for the column formats to find.
        if !constant {
            for r in r1 + 1..=r2 {
                if ctx.rng.one_in(4) {
                    let f = ctx.rng.usize(fmts.len());
                    let n = f64::from(ctx.rng.u16(0, 999));
                    let _ = sh.ws(k).write_number_with_format(r, c, n, &fmts[f].f);
                    g.put_num(r, c, n, Some(&fmts[f].m));
                }
            }
        }
    }
    let width = usize::from(c2 - c1) + 1;
    let given = match ctx.rng.below(5) {
        0 => 0,
        1 => ctx.rng.usize(width + 1),
        2 => width + 1,
        _ => width,
    };
    let mut cols = vec![];
    let mut hfmt: Vec<Option<usize>> = vec![];
    for i in 0..given {
        *seq += 1;
        let mut c = TableColumn::new();
        let mut x = MCol {
            name: String::new(),
            label: String::new(),
            func: "",
            custom: None,
            formula: None,
            format: None,
        };
        if ctx.rng.pct(70) {
            x.name = header(ctx, *seq);
            if ctx.rng.one_in(60) && i > 0 {
                // A duplicate, up to case.
                x.name = m.columns.get(i - 1).map_or(String::new(), |p: &MCol| {
                    if p.name.is_ascii() {
                        p.name.to_uppercase()
                    } else {
                        p.name.clone()
                    }
                });
            }
            c = c.set_header(&x.name);
        }
        if ctx.rng.one_in(4) {
            x.label = format!("T{}", gen::text(&mut ctx.rng, 6, gen::ALL));
            c = c.set_total_label(&x.label);
        }
        if ctx.rng.one_in(2) {
            let (f, n) = match ctx.rng.below(9) {
                0 => (TableFunction::Average, "average"),
                1 => (TableFunction::Count, "count"),
                2 => (TableFunction::CountNumbers, "countNums"),
                3 => (TableFunction::Max, "max"),
                4 => (TableFunction::Min, "min"),
                5 => (TableFunction::Sum, "sum"),
                6 => (TableFunction::StdDev, "stdDev"),
                7 => (TableFunction::Var, "var"),
                _ => {
                    let f = format!("SUM(A{})&\"<@>\"", *seq);
                    x.custom = Some(f.clone());
                    (TableFunction::Custom(Formula::new(f)), "custom")
                }
            };
            x.func = n;
            c = c.set_total_function(f);
        }
        if ctx.rng.one_in(3) {
            let (f, w) = match ctx.rng.below(4) {
                0 => (
                    format!("=SUM(T[@[Col {seq}]:[Q]])"),
                    format!("SUM(T[[#This Row],[Col {seq}]:[Q]])"),
                ),
                1 => (
                    format!("=T[@A]&\"a@b\"&{seq}"),
                    format!("T[[#This Row],A]&\"a@b\"&{seq}"),
                ),
                2 => (format!("SECH({seq})"), format!("_xlfn.SECH({seq})")),
                _ => (format!("={seq}*2"), format!("{seq}*2")),
            };
            c = c.set_formula(f.as_str());
            x.formula = Some(w);
        }
        if ctx.rng.one_in(3) {
            let f = ctx.rng.usize(fmts.len());
            c = c.set_format(&fmts[f].f);
            x.format = Some(f);
        }
        let mut hf = None;
        if ctx.rng.one_in(4) {
            let f = ctx.rng.usize(fmts.len());
            c = c.set_header_format(&fmts[f].f);
            hf = Some(f);
        }
        if i < width {
            hfmt.push(hf);
            m.columns.push(x);
        }
        cols.push(c);
    }
    if given > 0 {
        t = t.set_columns(&cols);
    }
    while m.columns.len() < width {
        hfmt.push(None);
        m.columns.push(MCol {
            name: String::new(),
            label: String::new(),
            func: "",
            custom: None,
            formula: None,
            format: None,
        });
    }
    for i in 0..width {
        if m.columns[i].name.is_empty() {
            m.columns[i].name = match &there[i] {
                Some(h) if header_on => h.clone(),
                _ => format!("Column{}", i + 1),
            };
        }
    }
    let mut seen = HashSet::new();
    let dup = m
        .columns
        .iter()
        .any(|c| !seen.insert(c.name.to_lowercase()));
    ctx.log(format!(
        "S{k} table {at:?} header {header_on} total {total} name {:?} columns {:?}",
        m.name,
        m.columns
            .iter()
            .map(|c| format!(
                "{:?} {:?} {} {:?} {:?} fmt{:?}",
                c.name, c.label, c.func, c.custom, c.formula, c.format
            ))
            .collect::<Vec<_>>()
    ));
    let got = sh.ws(k).add_table(r1, c1, r2, c2, &t).map(|_| ());
    match (&got, dup) {
        (Ok(()), false) => {}
        (Err(XlsxError::TableError(_)), true) => {
            ctx.count("duplicate columns refused");
            return None;
        }
        _ => {
            ctx.fail(
                "verdict",
                format!("add_table {at:?}: {got:?}, duplicate columns {dup}"),
            );
            return None;
        }
    }
    // What that does to the cells.
    let first = r1 + u32::from(header_on);
    let last = r2 - u32::from(total);
    for (i, x) in m.columns.iter().enumerate() {
        let c = c1 + i as u16;
        if header_on {
            g.put_str(r1, c, &x.name, hfmt[i].map(|f| &fmts[f].m));
        }
        let d = gen::FModel::new();
        let fm = Some(x.format.map_or(&d, |f| &fmts[f].m));
        let formula = |t: &str| {
            Some(F {
                text: t.to_string(),
                array_ref: None,
            })
        };
        if total {
            let col = special(&x.name);
            let code = match x.func {
                "average" => 101,
                "countNums" => 102,
                "count" => 103,
                "max" => 104,
                "min" => 105,
                "stdDev" => 107,
                "sum" => 109,
                "var" => 110,
                _ => 0,
            };
            if !x.label.is_empty() {
                g.put_str(r2, c, &x.label, fm);
            } else if let Some(f) = &x.custom {
                g.put(r2, c, V::num(0.0), formula(f), false, fm);
            } else if code > 0 {
                let f = format!("SUBTOTAL({code},[{col}])");
                g.put(r2, c, V::num(0.0), formula(&f), false, fm);
            }
        }
        if let Some(f) = &x.formula {
            for r in first..=last {
                g.put(r, c, V::num(0.0), formula(f), false, fm);
            }
        }
        if let Some(f) = x.format {
            for r in first..=last {
                if g.cells.contains_key(&(r, c)) {
                    g.set_fmt(r, c, &fmts[f].m);
                }
            }
            if total && !x.func.is_empty() && g.cells.contains_key(&(r2, c)) {
                g.set_fmt(r2, c, &fmts[f].m);
            }
        }
    }
    Some(m)
}

fn check_table(ctx: &mut Ctx, b: &Book, x: &Elem, m: &MTable, id: usize, fmts: &[Fmt]) {
    let (r1, c1, r2, c2) = m.at;
    let me = a1_range(r1, c1, r2, c2);
    ctx.eq(&x.a("ref").to_string(), &me, "table-ref", &me);
    let name = if m.name.is_empty() {
        format!("Table{id}")
    } else {
        m.name.clone()
    };
    ctx.eq(&x.a("name").to_string(), &name, "table-name", &me);
    ctx.eq(&x.a("displayName").to_string(), &name, "table-name", &me);
    ctx.eq(
        &x.int("headerRowCount").unwrap_or(1),
        &i64::from(m.header),
        "table-header",
        &me,
    );
    ctx.eq(
        &x.int("totalsRowCount").unwrap_or(0),
        &i64::from(m.total),
        "table-total",
        &me,
    );
    let f = x.child("autoFilter").map(|f| f.a("ref").to_string());
    let want = m
        .filter
        .then(|| a1_range(r1, c1, r2 - u32::from(m.total), c2));
    ctx.eq(&f, &want, "table-filter", &me);
    let s = x.child("tableStyleInfo");
    if let Some(s) = s {
        let n = s.attr("name").unwrap_or("TableStyleNone").to_string();
        ctx.eq(&n, &m.style.to_string(), "table-style", &me);
        for (a, w) in [
            ("showFirstColumn", m.first),
            ("showLastColumn", m.last),
            ("showRowStripes", m.rows),
            ("showColumnStripes", m.cols),
        ] {
            ctx.eq(&s.flag(a, false), &w, "table-flags", &format!("{me} {a}"));
        }
    } else {
        ctx.fail("table-style", format!("{me} has no style"));
    }
    let cols: Vec<&Elem> = x
        .child("tableColumns")
        .map(|c| c.elems().collect())
        .unwrap_or_default();
    ctx.eq(&cols.len(), &m.columns.len(), "table-columns", &me);
    for (i, (c, w)) in cols.iter().zip(&m.columns).enumerate() {
        let at = format!("{me} column {i}");
        ctx.eq(&c.int("id"), &Some(i as i64 + 1), "column-id", &at);
        ctx.eq(&xstring(c.a("name")), &w.name, "column-name", &at);
        ctx.eq(
            &c.attr("totalsRowLabel").map(xstring).unwrap_or_default(),
            &w.label,
            "column-label",
            &at,
        );
        let func = if w.label.is_empty() { w.func } else { "" };
        ctx.eq(
            &c.attr("totalsRowFunction").unwrap_or("").to_string(),
            &func.to_string(),
            "column-function",
            &at,
        );
        ctx.eq(
            &c.child_text("calculatedColumnFormula"),
            &w.formula,
            "column-formula",
            &at,
        );
        if w.label.is_empty() {
            ctx.eq(
                &c.child_text("totalsRowFormula"),
                &w.custom,
                "column-total",
                &at,
            );
        }
        let want = w.format.map(|f| fmts[f].m.dxf_facts());
        let got = match c.int("dataDxfId") {
            None => None,
            Some(d) => match b.styles.dxfs.get(d as usize) {
                Some(d) => Some(dxf_norm(d)),
                None => {
                    ctx.fail("column-dxf", format!("{at}: no dxf {d}"));
                    continue;
                }
            },
        };
        let got_d = got.clone().unwrap_or_default();
        let want_d = want.clone().map(|w| dxf_norm(&w)).unwrap_or_default();
        ctx.check(got_d == want_d, "column-dxf", || {
            format!("{at}: {}", gen::diff(&got_d, &want_d))
        });
    }
}

pub fn case(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.usize(3);
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let any_const = modes.iter().any(|m| m.constant());
    let fmts: Vec<Fmt> = (0..1 + ctx.rng.usize(4))
        .map(|i| {
            if i == 0 {
                Fmt::new()
            } else {
                Fmt::nondefault(&mut ctx.rng, 3)
            }
        })
        .collect();
    let mut sh = Sheets::new(&modes);
    ctx.log(format!("modes {modes:?}"));
    let mut grids = vec![Grid::default(); n];
    let mut tables: Vec<Vec<MTable>> = (0..n).map(|_| vec![]).collect();
    let mut next: Vec<u32> = vec![0; n];
    let mut seq = 0;
    let saves = if any_const {
        1
    } else {
        1 + ctx.rng.usize(2) + usize::from(ctx.thorough)
    };
    // Push order decides the order of the sheets in the workbook.
    let mut names = vec![];
    for save in 0..saves {
        for _ in 0..1 + ctx.rng.usize(3) {
            let k = ctx.rng.usize(n);
            let r1 = next[k] + ctx.rng.u32(0, 3);
            let rows = ctx.rng.u32(0, 5);
            let c1 = if ctx.rng.one_in(12) {
                16379
            } else {
                ctx.rng.u16(0, 4)
            };
            let at = (r1, c1, r1 + rows, c1 + ctx.rng.u16(0, 4));
            next[k] = at.2 + 1;
            if let Some(m) = add(ctx, &mut sh, k, &mut grids[k], at, &fmts, &mut seq) {
                // Data after the table, on cells it left alone.
                if m.header || sh.modes[k].constant() {
                    let last = at.2 - u32::from(m.total);
                    for r in at.0 + 1..=last {
                        if ctx.rng.one_in(3) {
                            let i = ctx.rng.usize(m.columns.len());
                            let c = at.1 + i as u16;
                            let f = ctx.rng.usize(fmts.len());
                            let _ = sh.ws(k).write_boolean_with_format(r, c, true, &fmts[f].f);
                            grids[k].put(r, c, V::Bool(true), None, false, Some(&fmts[f].m));
                        }
                    }
                }
                tables[k].push(m);
            }
        }
        // Expected verdict of the save: auto names count up in file order.
        let before = sh.wb.worksheets().len();
        sh.attach();
        if save == 0 {
            let _ = before;
            names = sh
                .wb
                .worksheets()
                .iter()
                .map(rust_xlsxwriter::Worksheet::name)
                .collect();
        }
        let order: Vec<usize> = names
            .iter()
            .filter_map(|n: &String| sh.names.iter().position(|m| m == n))
            .collect();
        let mut id = 0;
        let mut seen = HashSet::new();
        let mut clash = false;
        for &k in &order {
            for m in &tables[k] {
                id += 1;
                let name = if m.name.is_empty() {
                    format!("Table{id}")
                } else {
                    m.name.clone()
                };
                clash |= !seen.insert(name.to_lowercase());
            }
        }
        let r = sh.wb.save_to_buffer();
        if clash {
            ctx.check(
                matches!(r, Err(XlsxError::TableNameReused(_))),
                "save-verdict",
                || "two tables share a name but the save succeeded".into(),
            );
            ctx.count("clashing names refused");
            return;
        }
        let Some(b) = open_result(ctx, r) else { return };
        let mut id = 0;
        let mut ids = HashSet::new();
        for &k in &order {
            let name = sh.names[k].clone();
            let Some(s) = b.sheet(&name) else {
                ctx.fail("sheet", format!("{name} missing"));
                return;
            };
            let parts: Vec<&Elem> = s
                .xml
                .child("tableParts")
                .map(|p| p.children("tablePart").collect())
                .unwrap_or_default();
            ctx.eq(&parts.len(), &tables[k].len(), "table-count", &name);
            // Each table part by its range.
            let mut found = vec![];
            for p in parts {
                let Some(rel) = s.rel(p.a("r:id")) else {
                    ctx.fail("table-rel", format!("{name}: {}", p.show()));
                    continue;
                };
                match b.pkg.xml(&rel.part) {
                    Ok(x) => found.push(x),
                    Err(e) => ctx.fail("table-part", format!("{name}: {e}")),
                }
            }
            for m in &tables[k] {
                id += 1;
                let me = a1_range(m.at.0, m.at.1, m.at.2, m.at.3);
                let hit: Vec<&Elem> = found.iter().filter(|x| x.a("ref") == me).collect();
                if !ctx.check(hit.len() == 1, "table-lost", || {
                    format!("{name}: {} tables at {me}", hit.len())
                }) {
                    continue;
                }
                ctx.check(ids.insert(hit[0].a("id").to_string()), "table-id", || {
                    format!("{name} {me}: id {} repeated", hit[0].a("id"))
                });
                check_table(ctx, &b, hit[0], m, id, &fmts);
                ctx.count("tables");
                if m.total {
                    ctx.count("with totals");
                }
            }
            compare(ctx, &b, s, &grids[k], true, true);
        }
        ctx.nontrivial = id > 1;
    }
}
