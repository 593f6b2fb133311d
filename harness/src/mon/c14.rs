//! C14 merged ranges and tables.

use crate::book::{a1_range, parse_range};
use crate::gen::{self, Fmt};
use crate::run::Ctx;
use crate::sheetops::{self, compare, save_open, Grid, Mode, Op, Sheets, Val};
use rust_xlsxwriter::{Table, TableColumn, XlsxError};

type Rg = (u32, u16, u32, u16);

fn hits(a: Rg, b: Rg) -> bool {
    a.0 <= b.2 && b.0 <= a.2 && a.1 <= b.3 && b.1 <= a.3
}

fn range(ctx: &mut Ctx, old: &[Rg], dim: u32, at: (u32, u16)) -> Rg {
    let r = &mut ctx.rng;
    if r.one_in(3) && !old.is_empty() {
        // Touching, nested or crossing an earlier one.
        let o = *r.pick(old);
        let j = |r: &mut crate::rng::Rng, x: u32| (i64::from(x) + r.range(-2, 2)).max(0) as u32;
        let a = j(r, o.0);
        let b = j(r, o.2).max(a);
        let c = j(r, u32::from(o.1)).min(16383) as u16;
        let d = (j(r, u32::from(o.3)).min(16383) as u16).max(c);
        return (a.min(1_048_575), c, b.min(1_048_575), d);
    }
    let a = at.0 + r.u32(0, dim);
    let c = at.1 + r.u16(0, dim as u16);
    let (h, w) = match r.below(6) {
        0 => (0, r.u16(0, 6)),
        1 => (r.u32(0, 9), 0),
        2 => (r.u32(0, 1), r.u16(0, 1)),
        _ => (r.u32(0, 5), r.u16(0, 4)),
    };
    (
        (a).min(1_048_575),
        c,
        (a + h).min(1_048_575),
        (c + w).min(16383),
    )
}

pub fn case(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.usize(3);
    let modes: Vec<Mode> = (0..n).map(|_| Mode::random_access(&mut ctx.rng)).collect();
    let fmts: Vec<Fmt> = (0..1 + ctx.rng.usize(3))
        .map(|i| {
            if i == 0 {
                Fmt::new()
            } else {
                Fmt::nondefault(&mut ctx.rng, 3)
            }
        })
        .collect();
    let mut sh = Sheets::new(&modes);
    let mut grids = vec![Grid::default(); n];
    let mut merges: Vec<Vec<Rg>> = vec![vec![]; n];
    let mut tables: Vec<Vec<Rg>> = vec![vec![]; n];
    let far = ctx.rng.one_in(6);
    let at = if far {
        (1_048_560u32, 16370u16)
    } else {
        (0, 0)
    };
    let dim = if far { 10 } else { *ctx.rng.pick(&[6, 12, 30]) };
    let ops = 4 + ctx.rng.usize(if ctx.thorough { 40 } else { 22 });
    let mut seq = 0;
    let mut refused = 0u64;
    for _ in 0..ops {
        let k = ctx.rng.usize(n);
        match ctx.rng.below(12) {
            0..=5 => {
                let q = range(ctx, &merges[k].clone(), dim, at);
                let fi = ctx.rng.usize(fmts.len());
                let s = match ctx.rng.below(5) {
                    0 => String::new(),
                    _ => gen::text(&mut ctx.rng, 12, gen::ALL),
                };
                // Sometimes an impossible request.
                let (q, want): (Rg, Option<&str>) = match ctx.rng.below(25) {
                    0 => ((q.2 + 1, q.1, q.0, q.3), Some("order")),
                    1 if q.3 < 16383 => ((q.0, q.3 + 1, q.2, q.1), Some("order")),
                    2 => ((q.0, q.1, 1_048_576 + q.2, q.3), Some("limit")),
                    3 => ((q.0, q.1, q.2, 16384 + (q.3 & 0x3ff)), Some("limit")),
                    _ => (q, None),
                };
                let want = match want {
                    Some("order") if q.0 > 1_048_575 => "limit",
                    Some(w) => w,
                    None if (q.0, q.1) == (q.2, q.3) => "single",
                    None if merges[k].iter().any(|m| hits(*m, q)) => "overlap",
                    None => "ok",
                };
                ctx.log(format!("S{k} merge {q:?} {s:?} fmt{fi} -> {want}"));
                let got = sh
                    .ws(k)
                    .merge_range(q.0, q.1, q.2, q.3, &s, &fmts[fi].f)
                    .map(|_| ());
                let g = match &got {
                    Ok(()) => "ok",
                    Err(XlsxError::RowColumnOrderError) => "order",
                    Err(XlsxError::RowColumnLimitError) => "limit",
                    Err(XlsxError::MergeRangeSingleCell) => "single",
                    Err(XlsxError::MergeRangeOverlaps(new, old)) => {
                        let tail = |s: &str| s.rsplit(" / ").next().unwrap_or("").to_string();
                        let (new, old) = (tail(new), tail(old));
                        // The error names the two ranges that collide.
                        let me = a1_range(q.0, q.1, q.2, q.3);
                        ctx.check(new == me, "error-text", || {
                            format!("overlap error names {new}, the request was {me}")
                        });
                        let o = parse_range(&old);
                        let real = o.is_some_and(|o| merges[k].contains(&o) && hits(o, q));
                        ctx.check(real, "error-text", || {
                            format!("overlap error for {me} names {old}")
                        });
                        "overlap"
                    }
                    Err(_) => "other",
                };
                ctx.check(g == want, "merge-verdict", || {
                    format!("merge {q:?}: got {got:?}, expected {want}")
                });
                if g != "ok" {
                    refused += 1;
                }
                if g == "ok" {
                    merges[k].push(q);
                    let m = Some(&fmts[fi].m);
                    for r in q.0..=q.2 {
                        for c in q.1..=q.3 {
                            grids[k].put_blank(r, c, m);
                        }
                    }
                    grids[k].put_str(q.0, q.1, &s, m);
                }
            }
            6..=8 => {
                let q = range(ctx, &tables[k].clone(), dim, at);
                let header = ctx.rng.bool();
                let total = ctx.rng.one_in(3);
                let mut t = Table::new().set_header_row(header).set_total_row(total);
                let mut heads = vec![];
                let cols: Vec<TableColumn> = (q.1..=q.3)
                    .map(|_| {
                        seq += 1;
                        heads.push(format!("H{seq}"));
                        TableColumn::new().set_header(heads.last().unwrap())
                    })
                    .collect();
                t = t.set_columns(&cols);
                if !header || ctx.rng.bool() {
                    t = t.set_autofilter(false);
                }
                let need = u32::from(header) + u32::from(total);
                let want = if q.2 - q.0 < need {
                    "rows"
                } else if tables[k].iter().any(|m| hits(*m, q)) {
                    "overlap"
                } else {
                    "ok"
                };
                ctx.log(format!(
                    "S{k} table {q:?} header {header} total {total} -> {want}"
                ));
                let got = sh.ws(k).add_table(q.0, q.1, q.2, q.3, &t).map(|_| ());
                let g = match &got {
                    Ok(()) => "ok",
                    Err(XlsxError::TableError(_)) => "rows",
                    Err(XlsxError::TableRangeOverlaps(..)) => "overlap",
                    Err(_) => "other",
                };
                ctx.check(g == want, "table-verdict", || {
                    format!("table {q:?}: got {got:?}, expected {want}")
                });
                if g != "ok" {
                    refused += 1;
                }
                if g == "ok" {
                    tables[k].push(q);
                    if header {
                        for (i, h) in heads.iter().enumerate() {
                            grids[k].put_str(q.0, q.1 + i as u16, h, None);
                        }
                    }
                }
            }
            _ => {
                let q = range(ctx, &merges[k].clone(), dim, at);
                let v = match ctx.rng.below(4) {
                    0 => Val::Str("over".into()),
                    1 => Val::Num(5.0),
                    2 => Val::Formula("=A1".into(), None),
                    _ => Val::Bool(true),
                };
                let fmt = if ctx.rng.bool() {
                    Some(ctx.rng.usize(fmts.len()))
                } else {
                    None
                };
                let op = Op::Write {
                    r: q.0,
                    c: q.1,
                    v,
                    fmt,
                    how: 0,
                };
                ctx.log(format!("S{k} {op:?}"));
                grids[k].apply(&op, &fmts);
                if let Err(e) = sheetops::real(sh.ws(k), &op, &fmts) {
                    ctx.fail("write-rejected", e.to_string());
                }
            }
        }
        if ctx.rng.one_in(30) {
            let _ = sh.save();
            ctx.log("save");
        }
    }
    let Some(b) = save_open(ctx, &mut sh) else {
        return;
    };
    for k in 0..n {
        let Some(s) = b.sheets.iter().find(|s| s.name == format!("S{k}")) else {
            return ctx.fail("sheet-missing", "");
        };
        let mut got: Vec<Rg> = vec![];
        if let Some(m) = s.xml.child("mergeCells") {
            let cnt = m.int("count").unwrap_or(-1);
            for e in m.elems() {
                match parse_range(e.a("ref")) {
                    Some(q) => got.push(q),
                    None => ctx.fail("merge-ref", format!("bad merge {:?}", e.a("ref"))),
                }
            }
            ctx.eq(&cnt, &(got.len() as i64), "merge-count", "mergeCells count");
        }
        let mut want = merges[k].clone();
        want.sort_unstable();
        let mut g2 = got.clone();
        g2.sort_unstable();
        ctx.eq(&g2, &want, "merges", "merged ranges");
        // Online disjointness of what the file says, whatever the model says.
        for i in 0..got.len() {
            for j in 0..i {
                let x = hits(got[i], got[j]);
                ctx.check(!x, "merge-overlap", || format!("{:?} {:?}", got[i], got[j]));
            }
        }
        let mut tg: Vec<Rg> = vec![];
        for p in b.related(&s.rels, "table") {
            match b.pkg.xml(&p) {
                Ok(x) => match parse_range(x.a("ref")) {
                    Some(q) => tg.push(q),
                    None => ctx.fail("table-ref", format!("bad table {:?}", x.a("ref"))),
                },
                Err(e) => ctx.fail("table-part", e),
            }
        }
        for i in 0..tg.len() {
            for j in 0..i {
                let x = hits(tg[i], tg[j]);
                ctx.check(!x, "table-overlap", || format!("{:?} {:?}", tg[i], tg[j]));
            }
        }
        tg.sort_unstable();
        let mut want = tables[k].clone();
        want.sort_unstable();
        ctx.eq(&tg, &want, "tables", "table ranges");
        compare(ctx, &b, s, &grids[k], true, true);
        ctx.add("merges", merges[k].len() as u64);
        ctx.add("tables", tables[k].len() as u64);
    }
    ctx.add("refused", refused);
    ctx.nontrivial = refused > 0 && merges.iter().any(|m| m.len() > 1);
}
