//! C06 row and column formats.

use crate::gen::{self, diff, norm, FModel, Fmt};
use crate::run::Ctx;
use crate::sheetops::{effective_facts, save_open, Grid, Mode, Op, Sheets, Val};

pub fn case(ctx: &mut Ctx) {
    let mode = Mode::random_access(&mut ctx.rng);
    let fmts: Vec<Fmt> = (0..2 + ctx.rng.usize(4))
        .map(|_| Fmt::nondefault(&mut ctx.rng, 4))
        .collect();
    for (i, f) in fmts.iter().enumerate() {
        ctx.log(format!("fmt {i}: {}", f.desc));
    }
    let mut sh = Sheets::new(&[mode]);
    let mut g = Grid::default();
    let dim = 4u32;
    let nops = 4 + ctx.rng.usize(30);
    let ncross = &mut 0;
    for _ in 0..nops {
        let r = ctx.rng.u32(0, dim);
        let c = ctx.rng.u16(0, dim as u16);
        let fi = ctx.rng.usize(fmts.len());
        let k = ctx.rng.below(20);
        let ws = sh.ws(0);
        let what;
        let res = match k {
            0..=3 => {
                what = format!("row_format {r} fmt{fi}");
                g.row_fmt.insert(r, fmts[fi].m.clone());
                ws.set_row_format(r, &fmts[fi].f).map(|_| ())
            }
            4..=6 => {
                what = format!("column_format {c} fmt{fi}");
                g.col_fmt.insert(c, fmts[fi].m.clone());
                ws.set_column_format(c, &fmts[fi].f).map(|_| ())
            }
            7 => {
                let c2 = c + ctx.rng.u16(0, 2);
                what = format!("column_range_format {c}..{c2} fmt{fi}");
                for x in c..=c2 {
                    g.col_fmt.insert(x, fmts[fi].m.clone());
                }
                ws.set_column_range_format(c, c2, &fmts[fi].f).map(|_| ())
            }
            8 => {
                what = format!("row_height {r}");
                ws.set_row_height(r, ctx.rng.range(5, 60) as f64)
                    .map(|_| ())
            }
            9 => {
                what = format!("column_width {c}");
                ws.set_column_width(c, ctx.rng.range(3, 60) as f64)
                    .map(|_| ())
            }
            10 => {
                what = format!("hide {r} {c}");
                if ctx.rng.bool() {
                    ws.set_row_hidden(r).map(|_| ())
                } else {
                    ws.set_column_hidden(c).map(|_| ())
                }
            }
            11 => {
                what = format!("group {r} {c}");
                if ctx.rng.bool() {
                    ws.group_rows(r, r + 1).map(|_| ())
                } else {
                    ws.group_columns(c, c + 1).map(|_| ())
                }
            }
            12 => {
                what = "autofit".to_string();
                ws.autofit();
                Ok(())
            }
            13 => {
                what = format!("unhide {r}");
                ws.set_row_unhidden(r).map(|_| ())
            }
            14..=16 => {
                // A write without a format.
                let v = match ctx.rng.below(4) {
                    0 => Val::Num(1.0),
                    1 => Val::Str("s".into()),
                    2 => Val::Bool(true),
                    _ => Val::Formula("=1".into(), None),
                };
                let op = Op::Write {
                    r,
                    c,
                    v,
                    fmt: None,
                    how: 0,
                };
                what = format!("{op:?}");
                if g.row_fmt.contains_key(&r) && g.col_fmt.contains_key(&c) {
                    *ncross += 1;
                }
                g.apply(&op, &fmts);
                crate::sheetops::real(ws, &op, &fmts).map(|_| ())
            }
            _ => {
                let op = Op::Write {
                    r,
                    c,
                    v: Val::Num(2.0),
                    fmt: Some(fi),
                    how: 0,
                };
                what = format!("{op:?}");
                g.apply(&op, &fmts);
                crate::sheetops::real(ws, &op, &fmts).map(|_| ())
            }
        };
        ctx.log(what);
        if let Err(e) = res {
            ctx.fail("rejected", e.to_string());
        }
    }
    let Some(b) = save_open(ctx, &mut sh) else {
        return;
    };
    let Some(s) = b.sheet("S0") else {
        return ctx.fail("sheet-missing", "");
    };
    let _ = gen::word;
    for r in 0..=dim + 1 {
        for c in 0..=dim as u16 + 2 {
            let got = effective_facts(&b, s, r, c);
            // Where formats cross and nothing was written, consumers show the
            // row format.
            let exp = norm(&g.effective(r, c).facts());
            ctx.check(got == exp, "format", || {
                format!("{}: {}", crate::book::a1(r, c), diff(&got, &exp))
            });
        }
    }
    let d = norm(&FModel::new().facts());
    let far = effective_facts(&b, s, 100, 100);
    ctx.check(far == d, "far-cell", || {
        format!("CW101: {}", diff(&far, &d))
    });
    ctx.add("crossing-writes", *ncross);
    ctx.nontrivial = *ncross > 0;
}
