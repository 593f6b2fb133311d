//! C01 cell values round-trip.

use crate::book::Book;
use crate::gen::{self, Fmt};
use crate::run::Ctx;
use crate::sheetops::{compare, real, Grid, OpGen};
use rust_xlsxwriter::Workbook;

pub fn case(ctx: &mut Ctx) {
    let mut wb = Workbook::new();
    let nsheets = if ctx.rng.one_in(3) {
        2 + ctx.rng.usize(2)
    } else {
        1
    };
    let fmts: Vec<Fmt> = (0..ctx.rng.usize(4))
        .map(|_| Fmt::random(&mut ctx.rng, 3))
        .collect();
    for (i, f) in fmts.iter().enumerate() {
        ctx.log(format!("fmt {i}: {}", f.desc));
    }
    let mut grids: Vec<Grid> = vec![];
    for i in 0..nsheets {
        wb.add_worksheet();
        grids.push(Grid::default());
        let _ = i;
    }
    let small = ctx.rng.bool();
    let far = ctx.rng.one_in(12);
    let og = OpGen {
        max_r: if small { 4 } else { 30 },
        max_c: if small { 4 } else { 30 },
        far,
        rowcol_formats: ctx.rng.one_in(4),
        text: gen::ALL,
    };
    let nops = 1 + ctx.rng.usize(if ctx.thorough { 120 } else { 50 });
    let mut overwrites = 0;
    for _ in 0..nops {
        let si = ctx.rng.usize(nsheets);
        let op = og.op(&mut ctx.rng, fmts.len());
        let s = format!("{si}: {op:?}");
        ctx.log(s.chars().take(300).collect::<String>());
        let before = grids[si].cells.len();
        let r = real(wb.worksheet_from_index(si).unwrap(), &op, &fmts).map(|_| ());
        match r {
            Ok(()) => grids[si].apply(&op, &fmts),
            Err(e) => ctx.fail("write-rejected", format!("{op:?} rejected: {e}")),
        }
        if grids[si].cells.len() <= before {
            overwrites += 1;
        }
        ctx.count("ops");
    }
    let buf = match wb.save_to_buffer() {
        Ok(b) => b,
        Err(e) => return ctx.fail("save", format!("save failed: {e}")),
    };
    ctx.artifact = Some(buf.clone());
    let b = match Book::open(&buf) {
        Ok(b) => b,
        Err(e) => return ctx.fail("decode", e),
    };
    if !ctx.check(b.sheets.len() == nsheets, "sheets", || "sheet count".into()) {
        return;
    }
    for (i, g) in grids.iter().enumerate() {
        compare(ctx, &b, &b.sheets[i], g, true, true);
    }
    ctx.nontrivial = overwrites > 0;
}
