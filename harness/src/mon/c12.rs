//! C12 Excel's limits are enforced exactly at the boundary.

use crate::book::Book;
use crate::edge::{self, Want};
use crate::run::Ctx;
use crate::sheetops::Mode;
use rust_xlsxwriter::Workbook;

pub fn case(ctx: &mut Ctx) {
    let n = 4 + ctx.rng.usize(10);
    let mut wb = Workbook::new();
    let mut edges = vec![];
    for i in 0..n {
        let mode = *ctx
            .rng
            .pick(&[Mode::Std, Mode::Std, Mode::Low, Mode::Const]);
        let ws = match mode {
            Mode::Low => wb.add_worksheet_with_low_memory(),
            Mode::Const => wb.add_worksheet_with_constant_memory(),
            _ => wb.add_worksheet(),
        };
        // The names that the calls refer to.
        if ws.set_name(format!("Sheet{}", i + 1)).is_err() {
            ctx.fail("set_name", "refused");
        }
        let e = edge::any(&mut ctx.rng, "Sheet1", mode == Mode::Std);
        let res = (e.f)(ws);
        ctx.log(format!(
            "sheet {i} {mode:?}: {} wants {:?}, got {:?}",
            e.desc,
            e.want,
            res.as_ref().err().map(edge::variant)
        ));
        let skip = matches!(&e.want, Want::Err(v) if v.contains(&"?"));
        if !skip {
            ctx.count(&format!(
                "{}.{}",
                e.what,
                if e.want == Want::Ok { "in" } else { "out" }
            ));
            if let Err(m) = edge::verdict(&e.want, &res) {
                ctx.fail(
                    &format!("{} {}", e.what, m.split(" (").next().unwrap_or("")),
                    format!("{}: {m}", e.desc),
                );
            }
            ctx.observed += 1;
        }
        edges.push((e, res.is_ok(), skip));
    }
    ctx.nontrivial = true;
    match wb.save_to_buffer() {
        Ok(b) => {
            ctx.artifact = Some(b.clone());
            let book = match Book::open(&b) {
                Ok(b) => b,
                Err(e) => {
                    ctx.fail("decode", e);
                    return;
                }
            };
            for (i, (e, ok, skip)) in edges.iter().enumerate() {
                let Some(s) = book.sheet(&format!("Sheet{}", i + 1)) else {
                    ctx.fail("sheet missing", format!("Sheet{}", i + 1));
                    continue;
                };
                if *ok && !skip {
                    if let Some(see) = &e.see {
                        ctx.observed += 1;
                        ctx.count("read_back");
                        if let Err(m) = see(&book, s) {
                            ctx.fail(&format!("{} not saved", e.what), format!("{}: {m}", e.desc));
                        }
                    }
                } else if !ok {
                    ctx.check(
                        s.cells.is_empty(),
                        &format!("{} rejected but saved", e.what),
                        || e.desc.clone(),
                    );
                }
            }
        }
        // The edges of charts may refer to missing sheets.
        Err(e) => {
            ctx.count(&format!("save.{}", edge::variant(&e)));
            let known = edges.iter().any(|x| x.2 && x.1);
            ctx.check(known, "save", || e.to_string());
        }
    }
}
