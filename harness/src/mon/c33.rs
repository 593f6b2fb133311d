//! C33 cell-reference utilities and sheet-name quoting.

use crate::book::{self, parse_a1, parse_range, split_sheet_ref};
use crate::gen;
use crate::rng::Rng;
use crate::run::Ctx;
use rust_xlsxwriter::{utility, Workbook, Worksheet, XlsxError};

const ROWS: [u32; 8] = [0, 1, 8, 9, 98, 99, 1_048_574, 1_048_575];

/// Names built around Excel's quoting rules.
fn raw_name(r: &mut Rng) -> String {
    let letters = |r: &mut Rng, n: usize| -> String {
        (0..n)
            .map(|_| (if r.bool() { b'A' } else { b'a' } + r.u8(0, 25)) as char)
            .collect()
    };
    match r.below(16) {
        0 => {
            let n = 1 + r.usize(4);
            let l = letters(r, n);
            format!(
                "{l}{}",
                r.pick(&[
                    "0",
                    "1",
                    "00",
                    "01",
                    "12",
                    "1048576",
                    "1048577",
                    "99999999999999999999999",
                    "16384",
                    "16385"
                ])
            )
        }
        1 => {
            let s = *r.pick(&["XFD", "XFE", "xfd", "ZZ", "AAA", "WZZ", "XEZ", "XGA"]);
            format!("{s}{}", r.pick(&["", "1", "1048576", "1048577", "0", "x"]))
        }
        2 => {
            let s = *r.pick(&[
                "R", "C", "RC", "r", "c", "rC", "Rc", "CR", "R1C", "r2c3", "R0C",
            ]);
            let n = r.pick(&[
                "", "0", "1", "16384", "16385", "1048576", "1048577", "1C1", "5x", "1.", "_", "01",
            ]);
            let t = r.pick(&["", "z", "C2", "_a", ".", "é"]);
            format!("{s}{n}{t}")
        }
        3 => {
            let n = 1 + r.usize(3);
            let l = letters(r, n);
            let p = r.pick(&[".", "_", "-", "é", "中", "'", " ", "$", "٣", "😀"]);
            format!("{l}{p}{}", r.below(200))
        }
        4 => format!("{}{}", r.below(3000), gen::word(r)),
        5 => format!(".{}", gen::word(r)),
        6 => {
            let l = *r.pick(&[29usize, 30, 31, 32, 33]);
            let c = *r.pick(&['a', 'é', '中', 'Z', '.', '\'']);
            let mut s: String = std::iter::repeat(c).take(l).collect();
            if r.bool() {
                s.replace_range(0..c.len_utf8(), "q");
            }
            s
        }
        7 => {
            let mut s = gen::word(r);
            let c = *r.pick(&[
                '*', '?', ':', '[', ']', '\\', '/', '\'', '!', '"', '<', '&', '\n', '\t', '#', ',',
                ';', '(', '+',
            ]);
            let at = *r.pick(&[0usize, 1, 2, usize::MAX]);
            if at > s.len() {
                s.push(c);
            } else {
                s.insert(at, c);
            }
            s
        }
        8 => String::new(),
        9 => gen::sheet_name(r, 0),
        10 => r
            .pick(&[
                "A",
                "c",
                "R",
                "rc",
                "RC",
                "TRUE",
                "Sheet",
                "Print_Area",
                "'",
                "''",
                "'a",
                "a'",
                "it's",
                "a''b",
                "😀",
                "_",
                ".",
                " ",
                "ſ1",
                "K1",
                "µ1",
                "ǅ1",
            ])
            .to_string(),
        11..=12 => gen::text(r, 33, gen::PLAIN),
        _ => gen::word(r),
    }
}

fn valid(n: &str) -> bool {
    let l = n.chars().count();
    (1..=31).contains(&l)
        && !n.contains(['*', '?', ':', '[', ']', '\\', '/'])
        && !n.starts_with('\'')
        && !n.ends_with('\'')
}

pub fn case(ctx: &mut Ctx) {
    if ctx.index == 0 {
        exhaustive(ctx);
        ctx.nontrivial = true;
        return;
    }
    for _ in 0..8 {
        cells(ctx);
    }
    for _ in 0..6 {
        names(ctx);
    }
    if ctx.rng.one_in(3) {
        in_file(ctx);
    }
    ctx.nontrivial = true;
}

fn exhaustive(ctx: &mut Ctx) {
    ctx.log("all columns");
    let mut prev = String::new();
    for c in 0u16..16384 {
        let n = utility::column_number_to_name(c);
        ctx.eq(&n, &book::col_letters(c), "col-name", "column name");
        ctx.eq(
            &utility::column_name_to_number(&n),
            &c,
            "col-number",
            "column number",
        );
        ctx.check(prev.len() < n.len() || prev < n, "col-order", || {
            format!("{prev} {n}")
        });
        prev = n;
    }
    ctx.count("exhaustive-columns");
}

fn cells(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let row = |r: &mut Rng| {
        if r.bool() {
            *r.pick(&ROWS)
        } else {
            r.u32(0, 1_048_575)
        }
    };
    let col = |r: &mut Rng| {
        if r.bool() {
            *r.pick(&[0, 25, 26, 701, 702, 16383, 1u16])
        } else {
            r.u16(0, 16383)
        }
    };
    let (r1, c1, mut r2, mut c2) = (row(r), col(r), row(r), col(r));
    match r.below(5) {
        0 => (r2, c2) = (r1, c1),
        1 => r2 = r1,
        2 => c2 = c1,
        _ => {}
    }
    let (r1, r2) = (r1.min(r2), r1.max(r2));
    let (c1, c2) = (c1.min(c2), c1.max(c2));
    ctx.log(format!("{r1},{c1},{r2},{c2}"));
    let a = utility::row_col_to_cell(r1, c1);
    ctx.eq(&parse_a1(&a), &Some((r1, c1)), "cell", &a.clone());
    ctx.eq(&a.contains('$'), &false, "cell-abs", &a.clone());
    let b = utility::row_col_to_cell_absolute(r1, c1);
    ctx.eq(
        &b,
        &format!("${}${}", book::col_letters(c1), r1 + 1),
        "cell-absolute",
        "cell",
    );
    let single = (r1, c1) == (r2, c2);
    let g = utility::cell_range(r1, c1, r2, c2);
    ctx.eq(
        &parse_range(&g),
        &Some((r1, c1, r2, c2)),
        "range",
        &g.clone(),
    );
    ctx.eq(&g.contains(':'), &!single, "range-form", &g.clone());
    let g = utility::cell_range_absolute(r1, c1, r2, c2);
    ctx.eq(
        &parse_range(&g),
        &Some((r1, c1, r2, c2)),
        "range-abs",
        &g.clone(),
    );
    ctx.eq(
        &g.matches('$').count(),
        &if single { 2 } else { 4 },
        "range-abs-form",
        &g.clone(),
    );
    ctx.eq(&g.contains(':'), &!single, "range-abs-single", &g.clone());
    let n = loop {
        let n = raw_name(&mut ctx.rng);
        if valid(&n) {
            break n;
        }
    };
    for (s, abs) in [
        (utility::worksheet_range(&n, r1, c1, r2, c2), false),
        (utility::worksheet_range_absolute(&n, r1, c1, r2, c2), true),
    ] {
        let got = split_sheet_ref(&s);
        let want = if abs {
            utility::cell_range_absolute(r1, c1, r2, c2)
        } else {
            utility::cell_range(r1, c1, r2, c2)
        };
        ctx.eq(&got, &Some((n.clone(), want)), "sheet-range", &s.clone());
    }
}

fn names(ctx: &mut Ctx) {
    let n = raw_name(&mut ctx.rng);
    ctx.log(format!("name {n:?}"));
    let ok = valid(&n);
    ctx.count(if ok { "valid-names" } else { "invalid-names" });
    let res = utility::check_sheet_name(&n);
    ctx.eq(
        &res.is_ok(),
        &ok,
        "valid",
        &format!("check_sheet_name({n:?})"),
    );
    let mut ws = Worksheet::new();
    let before = ws.name();
    let set = ws.set_name(&n).map(|_| ());
    ctx.eq(&set.is_ok(), &ok, "set-name", &format!("set_name({n:?})"));
    let after = ws.name();
    ctx.eq(
        &after,
        &if ok { n.clone() } else { before },
        "name",
        "name()",
    );
    if let Err(e) = res {
        let kind = match e {
            XlsxError::SheetnameCannotBeBlank(_) => n.is_empty(),
            XlsxError::SheetnameLengthExceeded(_) => n.chars().count() > 31,
            XlsxError::SheetnameContainsInvalidCharacter(_) => {
                n.contains(['*', '?', ':', '[', ']', '\\', '/'])
            }
            XlsxError::SheetnameStartsOrEndsWithApostrophe(_) => {
                n.starts_with('\'') || n.ends_with('\'')
            }
            _ => false,
        };
        ctx.check(kind, "error-kind", || format!("{n:?}: {e}"));
        return;
    }
    let q = utility::quote_sheet_name(&n);
    let back = split_sheet_ref(&format!("{q}!A1")).map(|x| x.0);
    ctx.eq(
        &back.as_deref(),
        &Some(n.as_str()),
        "quoting",
        &format!("quote_sheet_name({n:?}) = {q:?}"),
    );
    if q.starts_with('\'') {
        ctx.count("quoted");
        let again = utility::quote_sheet_name(&q);
        ctx.eq(&again, &q, "requote", "quoting an already quoted name");
    }
}

/// References the library writes itself, for hostile sheet names.
fn in_file(ctx: &mut Ctx) {
    let mut names: Vec<String> = vec![];
    for _ in 0..4 {
        let n = raw_name(&mut ctx.rng);
        if valid(&n)
            && !names.iter().any(|m| m.to_lowercase() == n.to_lowercase())
            && n.chars().all(|c| c >= ' ')
        {
            names.push(n);
        }
    }
    if names.is_empty() {
        return;
    }
    ctx.log(format!("file {names:?}"));
    let mut wb = Workbook::new();
    for n in &names {
        let ws = wb.add_worksheet();
        if ws.set_name(n).is_err() || ws.set_print_area(0, 0, 4, 5).is_err() {
            ctx.fail("setup", "rejected");
        }
        let _ = ws.set_repeat_rows(1, 2);
        let _ = ws.autofilter(2, 1, 9, 3);
    }
    let Some(b) = crate::sheetops::open_wb(ctx, &mut wb) else {
        return;
    };
    for (i, n) in names.iter().enumerate() {
        for (nm, want) in [
            ("_xlnm.Print_Area", "$A$1:$F$5"),
            ("_xlnm.Print_Titles", "$2:$3"),
            ("_xlnm._FilterDatabase", "$B$3:$D$10"),
        ] {
            let d: Vec<_> = b
                .names
                .iter()
                .filter(|d| d.name == nm && d.local == Some(i))
                .collect();
            let got: Vec<_> = d.iter().map(|d| split_sheet_ref(&d.text)).collect();
            ctx.eq(
                &got,
                &vec![Some((n.clone(), want.to_string()))],
                "file-ref",
                &format!("{nm} of {n:?}"),
            );
        }
    }
}
