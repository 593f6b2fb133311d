//! C05 cell formats arrive intact.

use crate::gen::{diff, norm, FModel, Fmt, NOBORDER};
use crate::run::Ctx;
use crate::sheetops::{effective_facts, save_open, Mode, Sheets};
use std::collections::BTreeMap;

/// The border format outlines a range: each outer edge takes its style and
/// colour from the border format, everything else is the cell format's.
fn outlined(cell: &FModel, border: &FModel, l: bool, r: bool, t: bool, b: bool) -> FModel {
    let mut m = cell.clone();
    for (i, on) in [(0usize, l), (1, r), (2, t), (3, b)] {
        if on {
            m.border[i] = border.border[i];
            m.bcolor[i] = border.bcolor[i].clone();
        }
    }
    m
}

pub fn case(ctx: &mut Ctx) {
    let _ = NOBORDER;
    let big = ctx.rng.one_in(400);
    let nf = if big { 700 } else { 1 + ctx.rng.usize(25) };
    let steps = 1 + ctx.rng.usize(6);
    let mut fmts: Vec<Fmt> = vec![];
    for _ in 0..nf {
        // Near-duplicates: derive from an earlier format by one more setter.
        let f = if !fmts.is_empty() && ctx.rng.one_in(3) {
            let mut f = fmts[ctx.rng.usize(fmts.len())].clone();
            f.step(&mut ctx.rng);
            f
        } else if fmts.len() > 1 && ctx.rng.one_in(6) {
            let a = fmts[ctx.rng.usize(fmts.len())].clone();
            let b = fmts[ctx.rng.usize(fmts.len())].clone();
            Fmt {
                f: a.f.merge(&b.f),
                m: a.m.merge(&b.m),
                desc: format!("({})merge({})", a.desc, b.desc),
            }
        } else {
            Fmt::random(&mut ctx.rng, steps)
        };
        fmts.push(f);
    }
    for (i, f) in fmts.iter().enumerate() {
        ctx.log(format!("fmt {i}: {}", f.desc));
    }
    let modes: Vec<Mode> = (0..1 + ctx.rng.usize(4))
        .map(|_| Mode::any(&mut ctx.rng))
        .collect();
    ctx.log(format!("modes {modes:?}"));
    let mut sh = Sheets::new(&modes);
    // Expected format of every touched cell, and the next free row per sheet.
    let mut want: Vec<BTreeMap<(u32, u16), FModel>> =
        modes.iter().map(|_| BTreeMap::new()).collect();
    let mut row: Vec<u32> = vec![0; modes.len()];
    let n = if big { nf } else { 5 + ctx.rng.usize(60) };
    for k in 0..n {
        let i = ctx.rng.usize(modes.len());
        let fi = if big { k } else { ctx.rng.usize(nf) };
        let f = fmts[fi].clone();
        let r = row[i];
        let c = ctx.rng.u16(0, 6);
        let kind = ctx.rng.below(if modes[i].constant() { 6 } else { 10 });
        ctx.log(format!("S{i} R{r}C{c} fmt {fi} kind {kind}"));
        let ws = sh.ws(i);
        let res = match kind {
            0 | 1 => ws.write_number_with_format(r, c, 1.5, &f.f).map(|_| ()),
            2 => ws.write_string_with_format(r, c, "x", &f.f).map(|_| ()),
            3 => ws.write_blank(r, c, &f.f).map(|_| ()),
            4 => ws.write_formula_with_format(r, c, "=1+1", &f.f).map(|_| ()),
            5 => ws.write_boolean_with_format(r, c, true, &f.f).map(|_| ()),
            6 => {
                // Format first or value first.
                let a = ctx.rng.bool();
                let mut res = Ok(());
                if a {
                    res = res.and(ws.write_number(r, c, 1).map(|_| ()));
                }
                res.and(ws.set_cell_format(r, c, &f.f).map(|_| ()))
            }
            7 => {
                let (h, w) = (ctx.rng.u32(0, 2), ctx.rng.u16(0, 3));
                for rr in r..=r + h {
                    for cc in c..=c + w {
                        want[i].insert((rr, cc), f.m.clone());
                    }
                }
                row[i] = r + h;
                ws.set_range_format(r, c, r + h, c + w, &f.f).map(|_| ())
            }
            8 => {
                let (h, w) = (ctx.rng.u32(0, 3), ctx.rng.u16(0, 3));
                let b = fmts[ctx.rng.usize(nf)].clone();
                for rr in r..=r + h {
                    for cc in c..=c + w {
                        let m = outlined(&f.m, &b.m, cc == c, cc == c + w, rr == r, rr == r + h);
                        want[i].insert((rr, cc), m);
                    }
                }
                row[i] = r + h;
                ws.set_range_format_with_border(r, c, r + h, c + w, &f.f, &b.f)
                    .map(|_| ())
            }
            _ => {
                // Replace a format already there, or remove it.
                let res = ws.write_number_with_format(r, c, 2.0, &f.f).map(|_| ());
                let g = &fmts[ctx.rng.usize(nf)];
                let m = if ctx.rng.bool() {
                    ws.clear_cell_format(r, c);
                    FModel::new()
                } else {
                    if let Err(e) = ws.set_cell_format(r, c, &g.f) {
                        ctx.fail("rejected", e.to_string());
                    }
                    g.m.clone()
                };
                want[i].insert((r, c), m);
                res
            }
        };
        if let Err(e) = res {
            ctx.fail(
                "rejected",
                format!("in-range formatted write rejected: {e}"),
            );
        }
        if kind < 7 {
            want[i].insert((r, c), f.m.clone());
        }
        if ctx.rng.one_in(3) {
            row[i] += 1 + ctx.rng.u32(0, 2);
        }
        if kind >= 7 {
            row[i] += 1;
        }
    }
    let Some(b) = save_open(ctx, &mut sh) else {
        return;
    };
    verify(ctx, &b, &want);
    // A second save of the same workbook must denote the same formats.
    if !modes.iter().any(|m| m.constant()) && ctx.rng.one_in(4) {
        let Some(b) = save_open(ctx, &mut sh) else {
            return;
        };
        ctx.count("resaved");
        verify(ctx, &b, &want);
    }
    ctx.add("formats", nf as u64);
    ctx.nontrivial = nf > 2;
}

fn verify(ctx: &mut Ctx, b: &crate::book::Book, want: &[BTreeMap<(u32, u16), FModel>]) {
    for (i, w) in want.iter().enumerate() {
        let Some(s) = b.sheet(&format!("S{i}")) else {
            ctx.fail("sheet-missing", format!("S{i}"));
            continue;
        };
        for ((r, c), m) in w {
            let got = effective_facts(b, s, *r, *c);
            let exp = norm(&m.facts());
            ctx.check(got == exp, "format", || {
                format!("S{i}!{}: {}", crate::book::a1(*r, *c), diff(&got, &exp))
            });
        }
        ctx.add("cells", w.len() as u64);
    }
}
