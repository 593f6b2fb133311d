//! C10 whatever the arguments, no public call panics.

use crate::api::{m_workbook, m_worksheet};
use crate::hostile::G;
use crate::run::Ctx;
use rust_xlsxwriter::{utility, Workbook};

fn functions(g: &mut G) {
    let (r, c) = (g.row(), g.col());
    let s = g.string(1);
    g.call("functions");
    let _ = utility::row_col_to_cell(r, c);
    let _ = utility::row_col_to_cell_absolute(r, c);
    let _ = utility::column_number_to_name(c);
    let _ = utility::column_name_to_number(&s);
    let (r0, c0, r1, c1) = g.range4();
    let _ = utility::cell_range(r0, c0, r1, c1);
    let _ = utility::cell_range_absolute(r0, c0, r1, c1);
    let _ = utility::quote_sheet_name(&s);
    let _ = utility::check_sheet_name(&s);
}

/// A random program of such calls, and the files it saves. A clean program
/// only uses whole images.
pub fn program(ctx: &mut Ctx, clean: bool) -> Vec<Vec<u8>> {
    let dir = ctx.scratch.join(format!("c10_{}", ctx.index));
    let _ = std::fs::create_dir_all(&dir);
    let mut out = vec![];
    let mut g = G::new(ctx);
    g.clean = clean;
    g.modest = !g.one_in(20);
    let mut wb = Workbook::new();
    let n = 1 + g.below(4);
    for _ in 0..n {
        match g.below(6) {
            0 => wb.add_worksheet_with_constant_memory(),
            1 => wb.add_worksheet_with_low_memory(),
            2 if g.one_in(3) => wb.add_chartsheet(),
            _ => wb.add_worksheet(),
        };
    }
    let mut failed = 0u64;
    for round in 0..1 + g.below(3) {
        for _ in 0..g.below(40) {
            match g.below(20) {
                0 | 1 => m_workbook(&mut g, &mut wb),
                2 => functions(&mut g),
                _ => {
                    let k = g.below(wb.worksheets_mut().len());
                    if let Ok(ws) = wb.worksheet_from_index(k) {
                        g.call(&format!("-- sheet {k}"));
                        m_worksheet(&mut g, ws);
                        g.current += u32::from(g.one_in(5));
                    }
                }
            }
        }
        g.call(&format!("save {round}"));
        match wb.save_to_buffer() {
            Ok(b) => out.push(b),
            Err(e) => {
                failed += 1;
                g.call(&format!("  not saved: {e}"));
            }
        }
    }
    drop(wb);
    let (calls, refused) = (g.calls, g.refused);
    drop(g);
    ctx.add("hostile calls", calls);
    ctx.add("refused", refused);
    ctx.add("saves", out.len() as u64);
    ctx.add("refused_saves", failed);
    ctx.observed += calls;
    ctx.nontrivial = calls > 20;
    let _ = std::fs::remove_dir_all(&dir);
    out
}

pub fn case(ctx: &mut Ctx) {
    program(ctx, false);
}
