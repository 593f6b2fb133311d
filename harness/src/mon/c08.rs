//! C08 saving is repeatable and independent of the destination.

use crate::canon;
use crate::kit::{self, Opt, Prog};
use crate::run::Ctx;
use rust_xlsxwriter::{Workbook, XlsxError};
use std::collections::BTreeMap;
use std::io::Cursor;

/// Where the calls of a program go, sheet by sheet, and where it is saved.
enum Act {
    Step(usize, usize),
    Wb(usize),
    Save(u8),
}

fn schedule(ctx: &mut Ctx, p: &Prog) -> Vec<Act> {
    let mut next: Vec<usize> = vec![0; p.sheets.len()];
    let mut wb = 0;
    let mut out = vec![];
    loop {
        let mut open: Vec<usize> = (0..next.len())
            .filter(|i| next[*i] < p.sheets[*i].steps.len())
            .collect();
        if wb < p.wb.len() {
            open.push(usize::MAX);
        }
        if open.is_empty() {
            break;
        }
        if ctx.rng.one_in(6) {
            out.push(Act::Save(ctx.rng.u8(0, 3)));
        }
        // Some steps in a row on the same sheet.
        let i = *ctx.rng.pick(&open);
        if i == usize::MAX {
            out.push(Act::Wb(wb));
            wb += 1;
            continue;
        }
        for _ in 0..1 + ctx.rng.usize(4) {
            if next[i] < p.sheets[i].steps.len() {
                out.push(Act::Step(i, next[i]));
                next[i] += 1;
            }
        }
    }
    out
}

fn save(ctx: &Ctx, wb: &mut Workbook, how: u8) -> Result<Vec<u8>, XlsxError> {
    match how {
        0 => wb.save_to_buffer(),
        1 => {
            let mut c = Cursor::new(vec![]);
            wb.save_to_writer(&mut c)?;
            Ok(c.into_inner())
        }
        _ => {
            let p = ctx.scratch.join(format!("c08_{}_{}.xlsx", ctx.index, how));
            // An old, longer file is replaced.
            let _ = std::fs::write(&p, vec![0x55; 200_000]);
            let r = wb.save(&p);
            let b = std::fs::read(&p).unwrap_or_default();
            let _ = std::fs::remove_file(&p);
            r.map(|_| b)
        }
    }
}

fn run(ctx: &mut Ctx, p: &Prog, acts: &[Act], saves: bool) -> (Workbook, Vec<String>, usize) {
    let mut wb = Workbook::new();
    let mut res = vec![];
    let mut n = 0;
    kit::fixed_date(&mut wb);
    for s in &p.sheets {
        let ws = if s.chart_sheet {
            wb.add_chartsheet()
        } else {
            wb.add_worksheet()
        };
        if let Err(e) = ws.set_name(&s.name) {
            res.push(e.to_string());
        }
    }
    for a in acts {
        match a {
            Act::Step(i, k) => {
                let st = &p.sheets[*i].steps[*k];
                if let Ok(ws) = wb.worksheet_from_index(*i) {
                    res.push(format!("{:?}", (st.f)(ws).map_err(|e| e.to_string())));
                }
            }
            Act::Wb(k) => res.push(format!(
                "{:?}",
                (p.wb[*k].f)(&mut wb).map_err(|e| e.to_string())
            )),
            Act::Save(h) if saves => {
                // It may fail, for example for a chart sheet without a chart.
                if save(ctx, &mut wb, *h).is_ok() {
                    n += 1;
                } else {
                    ctx.count("failed_saves");
                }
            }
            Act::Save(_) => {}
        }
    }
    (wb, res, n)
}

/// The first part that differs between two byte-identical candidates.
pub fn part_diff(a: &[u8], b: &[u8]) -> (String, String) {
    let (Ok(x), Ok(y)) = (crate::zipr::read(a), crate::zipr::read(b)) else {
        return ("zip".into(), "not readable".into());
    };
    let m: BTreeMap<&str, &[u8]> = y.iter().map(|e| (e.name.as_str(), &e.data[..])).collect();
    let names: Vec<&str> = x.iter().map(|e| e.name.as_str()).collect();
    let other: Vec<&str> = y.iter().map(|e| e.name.as_str()).collect();
    if names != other {
        return ("entries".into(), format!("{names:?} and {other:?}"));
    }
    for e in &x {
        let o = m.get(e.name.as_str()).copied().unwrap_or_default();
        if e.data != o {
            let i = e
                .data
                .iter()
                .zip(o)
                .position(|(p, q)| p != q)
                .unwrap_or(e.data.len().min(o.len()));
            let lo = i.saturating_sub(80);
            let cut = |d: &[u8]| String::from_utf8_lossy(&d[lo..d.len().min(i + 80)]).into_owned();
            return (
                canon::kind(&e.name),
                format!("{}: ..{}.. and ..{}..", e.name, cut(&e.data), cut(o)),
            );
        }
    }
    ("zip headers".into(), "the same parts".into())
}

pub fn case(ctx: &mut Ctx) {
    let o = Opt {
        size: 3 + ctx.rng.usize(14),
        sheets: 1 + ctx.rng.usize(4),
        scratch: Some(ctx.scratch.clone()),
        ..Opt::default()
    };
    let p = kit::prog(&mut ctx.rng, &o);
    p.log(ctx);
    let acts = schedule(ctx, &p);
    let saves = acts.iter().filter(|a| matches!(a, Act::Save(_))).count();
    ctx.log(format!("{} acts, {saves} saves", acts.len()));

    // Reference: all calls, then one save.
    let (mut wb, res, _) = run(ctx, &p, &acts, false);
    let b0 = match wb.save_to_buffer() {
        Ok(b) => b,
        Err(e) => {
            // Every way of saving fails alike.
            for h in 0..3 {
                let r = save(ctx, &mut wb, h);
                ctx.check(
                    r.as_ref().err().map(ToString::to_string) == Some(e.to_string()),
                    "failing save",
                    || format!("first {e}, then {:?}", r.map(|b| b.len())),
                );
            }
            return;
        }
    };
    ctx.artifact = Some(b0.clone());
    ctx.add("bytes", b0.len() as u64);
    // The same workbook again, anywhere.
    for h in [2u8, 1, 0, 3] {
        match save(ctx, &mut wb, h) {
            Ok(b) => {
                let same = b == b0;
                ctx.observed += 1;
                if !same {
                    let (k, m) = part_diff(&b, &b0);
                    ctx.fail(
                        &format!("save again {k}"),
                        format!("saving again (destination {h}) differs: {m}"),
                    );
                }
            }
            Err(e) => ctx.fail("save again fails", format!("destination {h}: {e}")),
        }
    }
    // The same calls again.
    let (mut wb2, res2, _) = run(ctx, &p, &acts, false);
    ctx.check(res == res2, "same calls, other results", || {
        format!("{res:?} and {res2:?}")
    });
    match wb2.save_to_buffer() {
        Ok(b) => {
            ctx.observed += 1;
            if b != b0 {
                let (k, m) = part_diff(&b, &b0);
                ctx.fail(&format!("built again {k}"), m);
            }
        }
        Err(e) => ctx.fail("built again fails", e.to_string()),
    }
    // With saves between the calls. Saving hides the rows that fail a filter,
    // which later calls that look at row sizes see.
    let seen = p.sheets.iter().any(|s| {
        s.steps.iter().any(|t| t.feature == "filter")
            && s.steps
                .iter()
                .any(|t| t.desc.contains(" fit ") || t.desc.starts_with("view 9"))
    });
    if saves > 0 && !seen {
        let (mut wb3, res3, n) = run(ctx, &p, &acts, true);
        ctx.add("interleaved_saves", n as u64);
        ctx.nontrivial = n > 0 && acts.len() > 10;
        if res3 != res {
            let d: Vec<_> = res.iter().zip(&res3).filter(|(a, b)| a != b).collect();
            ctx.fail("calls after a save", format!("results differ: {d:?}"));
        }
        match wb3.save_to_buffer() {
            Ok(b) => {
                ctx.artifact = Some(b.clone());
                match (canon::of(&b), canon::of(&b0)) {
                    (Ok(x), Ok(y)) => {
                        ctx.add("lines", y.values().map(|v| v.len() as u64).sum());
                        ctx.observed += y.len() as u64;
                        for (part, g, w) in canon::diff(&x, &y) {
                            ctx.fail(
                                &format!("after saves {} {}", canon::kind(&part), canon::head(&w)),
                                format!("{part}: got {g}, expected {w}"),
                            );
                        }
                    }
                    (Err(e), _) | (_, Err(e)) => ctx.fail("decode", e),
                }
            }
            Err(e) => ctx.fail("save after saves fails", e.to_string()),
        }
    }
}
