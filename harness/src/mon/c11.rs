//! C11 a rejected call leaves no trace.
//!
//! A program with hostile calls mixed in is run and the calls that return an
//! error are noted. The program without those calls must give the same
//! results and the same file.

use crate::canon;
use crate::edge;
use crate::kit::{self, Opt, WbFn, WsFn};
use crate::run::Ctx;
use crate::sheetops::Mode;
use rust_xlsxwriter::*;
use std::sync::Arc;

#[derive(Clone)]
enum What {
    Ws(usize, WsFn),
    Wb(WbFn),
}

#[derive(Clone)]
struct Call {
    desc: String,
    what: What,
    hostile: bool,
    key: String,
}

fn mk(i: usize, desc: String, key: &str, f: WsFn) -> Call {
    Call {
        desc: format!("sheet {i}: {desc}"),
        what: What::Ws(i, f),
        hostile: true,
        key: key.to_string(),
    }
}

/// Calls that depend on what has been done before.
fn state(ctx: &mut Ctx, i: usize, row: u32) -> Call {
    let r = &mut ctx.rng;
    let (c1, c2) = {
        let a = r.u16(0, 8);
        (a, a + r.u16(0, 5))
    };
    let r2 = row + r.u32(0, 8);
    let k = r.below(10);
    let title = r.bool();
    let name = *r.pick(&["Extra", "Extra", "Table1", "Table2", "t"]);
    let desc = format!("state {k} {row}, {c1}, {r2}, {c2} {title} {name}");
    let keys = [
        "merge_range",
        "add_table",
        "add_table totals",
        "group_rows",
        "group_columns",
        "ignore_error_range",
        "autofilter",
        "filter_column",
        "group_rows_collapsed",
        "group_columns_collapsed",
    ];
    let f: WsFn = Arc::new(move |w| {
        let bold = Format::new().set_bold().set_font_color(0x123456u32);
        match k {
            0 => w.merge_range(row, c1, r2, c2, "hostile merge", &bold),
            1 => w.add_table(
                row,
                c1,
                r2,
                c2,
                &Table::new().set_name(name).set_autofilter(title),
            ),
            2 => {
                let cols = vec![
                    TableColumn::new()
                        .set_header("Hostile 1")
                        .set_formula("SUM(1,2)"),
                    TableColumn::new()
                        .set_total_label("Hostile total")
                        .set_format(&bold),
                ];
                let t = Table::new()
                    .set_columns(&cols)
                    .set_total_row(true)
                    .set_header_row(title);
                w.add_table(row, c1, r2, c2, &t)
            }
            3 => w.group_rows(row, r2),
            4 => w.group_columns(c1, c2),
            5 => w.ignore_error_range(
                row % 4,
                c1 % 2,
                row % 4 + 1,
                c1 % 2 + 1,
                IgnoreError::TwoDigitTextYear,
            ),
            6 => w.autofilter(row, c1, r2, c2),
            7 => w.filter_column(
                c1,
                &if title {
                    FilterCondition::new()
                } else {
                    FilterCondition::new().add_list_filter("hostile")
                },
            ),
            8 => w.group_rows_collapsed(row, r2),
            _ => w.group_columns_collapsed(c1, c2),
        }
        .map(|_| ())
    });
    mk(i, desc, keys[k as usize], f)
}

/// Calls on the workbook that fail.
fn workbook(ctx: &mut Ctx, names: &[String]) -> Call {
    let bad_dir = ctx.scratch.join("missing").join("x.xlsx");
    let r = &mut ctx.rng;
    let n = names.len();
    let k = r.below(9);
    let (a, b) = (r.usize(n), r.usize(n));
    let (na, nb) = (names[a].clone(), names[b].clone());
    let bad_name = r
        .pick(&[
            "",
            "1abc",
            "a b",
            "a/b",
            "x:y",
            "q'",
            "Sheet1!",
            "'My Sheet'!",
            "a,b",
            "[a]",
            "\"x\"",
        ])
        .to_string();
    let (vba, vba_ok) = edge::vba_name(r);
    let vba = if vba_ok { "not ok".to_string() } else { vba };
    let what = r.below(4);
    let tables = r.usize(3);
    let keys = [
        "define_name",
        "define_name",
        "worksheet_from_index",
        "worksheet_from_name",
        "set_vba_name",
        "add_vba_project",
        "save to a missing folder",
        "save with a sheet name twice",
        "save with a bad sheet",
    ];
    let desc = format!("{} {bad_name:?} {vba:?} {a} {b} {what}", keys[k as usize]);
    let f: WbFn = Arc::new(move |wb| match k {
        0 | 1 => wb.define_name(&bad_name, "=A1").map(|_| ()),
        2 => wb.worksheet_from_index(1000).map(|_| ()),
        3 => wb.worksheet_from_name("No such sheet").map(|_| ()),
        4 => wb.set_vba_name(&vba).map(|_| ()),
        5 => wb.add_vba_project(&bad_dir).map(|_| ()),
        6 => wb.save(&bad_dir),
        7 => {
            if a == b {
                return Ok(());
            }
            wb.worksheet_from_index(a)?.set_name(&nb)?;
            let res = wb.save_to_buffer().map(|_| ());
            wb.worksheet_from_index(a)?.set_name(&na)?;
            res
        }
        _ => {
            // A sheet that can't be saved, and is taken away again.
            let mut ws = Worksheet::new();
            ws.set_name("Bad sheet")?;
            ws.write(0, 0, "only on the bad sheet")?;
            let bold = Format::new().set_font_color(0xABCDEFu32);
            match what {
                0 => {
                    let t = Table::new().set_name("Twice");
                    ws.add_table(2, 0, 6, 3, &t)?;
                    ws.add_table(12, 0, 16, 3, &t)?;
                }
                1 => {
                    let mut c = Chart::new(ChartType::Line);
                    c.add_series().set_values("='Nowhere at all'!$A$1:$A$4");
                    ws.insert_chart(3, 3, &c)?;
                    ws.write_with_format(3, 1, 1.5, &bold)?;
                }
                2 => {
                    for _ in 0..=tables {
                        ws.insert_note(4, 4, &Note::new("bad").set_author("Bad Author"))?;
                    }
                    ws.set_name(&na)?;
                }
                _ => ws = Worksheet::new_chartsheet(),
            }
            wb.push_worksheet(ws);
            let res = wb.save_to_buffer().map(|_| ());
            wb.worksheets_mut().pop();
            res
        }
    });
    Call {
        desc,
        what: What::Wb(f),
        hostile: true,
        key: keys[k as usize].to_string(),
    }
}

fn run(
    names: &[(String, bool)],
    modes: &[Mode],
    calls: &[&Call],
    ready: bool,
) -> (Workbook, Vec<Result<(), String>>) {
    let mut wb = Workbook::new();
    kit::fixed_date(&mut wb);
    for ((n, chart), m) in names.iter().zip(modes) {
        let ws = match (*chart, m) {
            (true, _) => wb.add_chartsheet(),
            (_, Mode::Low) => wb.add_worksheet_with_low_memory(),
            (_, Mode::Const) => wb.add_worksheet_with_constant_memory(),
            _ => wb.add_worksheet(),
        };
        let _ = ws.set_name(n);
        if *chart && ready {
            // So that saving in between is possible.
            let mut c = Chart::new(ChartType::Line);
            c.add_series().set_values((names[0].0.as_str(), 0, 0, 3, 0));
            let _ = ws.insert_chart(0, 0, &c);
        }
    }
    let mut res = vec![];
    for c in calls {
        let x = match &c.what {
            What::Ws(i, f) => match wb.worksheet_from_index(*i) {
                Ok(ws) => f(ws),
                Err(e) => Err(e),
            },
            What::Wb(f) => f(&mut wb),
        };
        res.push(x.map_err(|e| format!("{}: {e}", edge::variant(&e))));
    }
    (wb, res)
}

pub fn case(ctx: &mut Ctx) {
    let plain = ctx.rng.one_in(3);
    let o = Opt {
        size: if plain {
            1 + ctx.rng.usize(3)
        } else {
            2 + ctx.rng.usize(10)
        },
        sheets: 1 + ctx.rng.usize(3),
        skip: &["embed"],
        scratch: Some(ctx.scratch.clone()),
        ..Opt::default()
    };
    let p = kit::prog(&mut ctx.rng, &o);
    p.log(ctx);
    let names: Vec<(String, bool)> = p
        .sheets
        .iter()
        .map(|s| (s.name.clone(), s.chart_sheet))
        .collect();
    let plain_names: Vec<String> = names.iter().map(|n| n.0.clone()).collect();
    let modes: Vec<Mode> = names
        .iter()
        .map(|n| match ctx.rng.below(6) {
            0 if !n.1 => Mode::Low,
            1 if !n.1 => Mode::Const,
            _ => Mode::Std,
        })
        .collect();
    // Mix the calls of the sheets with hostile ones.
    let mut next = vec![0; p.sheets.len()];
    let mut low = vec![0u32; p.sheets.len()];
    let mut calls: Vec<Call> = vec![];
    let mut wb_next = 0;
    let rate = 1 + ctx.rng.below(3);
    let n_ws = p.sheets.iter().map(|s| s.steps.len()).sum::<usize>();
    for turn in 0.. {
        let open: Vec<usize> = (0..next.len())
            .filter(|i| next[*i] < p.sheets[*i].steps.len())
            .collect();
        if open.is_empty() && wb_next >= p.wb.len() && turn > 8 {
            break;
        }
        let extra = 1 + rate * 2;
        for _ in 0..ctx.rng.below(extra) {
            let i = ctx.rng.usize(p.sheets.len());
            let chart = names[i].1;
            let c = match ctx.rng.below(8) {
                0..=3 if !chart => {
                    let e = edge::any(&mut ctx.rng, &plain_names[0], modes[i] == Mode::Std);
                    if e.want == edge::Want::Ok
                        || matches!(&e.want, edge::Want::Err(v) if v[0] == "?")
                    {
                        continue;
                    }
                    mk(i, e.desc, &e.what, e.f)
                }
                4..=6 if !chart => {
                    let row = low[i] + ctx.rng.u32(0, 6);
                    state(ctx, i, row)
                }
                7 => workbook(ctx, &plain_names),
                _ => continue,
            };
            calls.push(c);
        }
        if !open.is_empty() {
            let i = *ctx.rng.pick(&open);
            let s = &p.sheets[i].steps[next[i]];
            next[i] += 1;
            low[i] = low[i].max(s.row.min(2000));
            calls.push(Call {
                desc: format!("sheet {i}: {}", s.desc),
                what: What::Ws(i, s.f.clone()),
                hostile: false,
                key: s.feature.to_string(),
            });
        } else if wb_next < p.wb.len() {
            calls.push(Call {
                desc: format!("workbook {}", p.wb[wb_next].desc),
                what: What::Wb(p.wb[wb_next].f.clone()),
                hostile: false,
                key: "workbook".to_string(),
            });
            wb_next += 1;
        }
    }
    let ready = ctx.rng.bool();
    let all: Vec<&Call> = calls.iter().collect();
    let (mut wb, res) = run(&names, &modes, &all, ready);
    let mut kept = vec![];
    let mut rejected = 0;
    for (c, x) in calls.iter().zip(&res) {
        let mut line = format!("{} -> {x:?}", c.desc);
        if line.len() > 300 {
            line = line.chars().take(300).collect();
        }
        ctx.log(format!("{}{line}", if c.hostile { "* " } else { "  " }));
        if let Err(e) = x {
            rejected += 1;
            ctx.count(&format!(
                "rejected.{}.{}",
                c.key,
                e.split(':').next().unwrap_or("")
            ));
        } else {
            kept.push(c);
        }
    }
    ctx.log(format!("modes {modes:?}, ready {ready}, {n_ws} steps"));
    ctx.add("rejected_calls", rejected);
    ctx.nontrivial = rejected > 0 && kept.len() > 2;
    let (mut wb2, res2) = run(&names, &modes, &kept, ready);
    for (c, x) in kept.iter().zip(&res2) {
        ctx.check(
            x.is_ok(),
            &format!("accepted only after rejected calls: {}", c.key),
            || format!("{}: {x:?}", c.desc),
        );
    }
    let (a, b) = (wb.save_to_buffer(), wb2.save_to_buffer());
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) => {
            ctx.check(a.to_string() == b.to_string(), "save error", || {
                format!("{a} and {b}")
            });
            return;
        }
        (Err(e), Ok(_)) => {
            ctx.fail("save fails after rejected calls", e.to_string());
            return;
        }
        (Ok(_), Err(e)) => {
            ctx.fail("save works only after rejected calls", e.to_string());
            return;
        }
    };
    ctx.artifact = Some(a.clone());
    match (canon::of(&a), canon::of(&b)) {
        (Ok(x), Ok(y)) => {
            ctx.add("lines", y.values().map(|v| v.len() as u64).sum());
            ctx.observed += y.len() as u64;
            for (part, g, w) in canon::diff(&x, &y) {
                ctx.fail(
                    &format!("{} {}", canon::kind(&part), canon::head(&w)),
                    format!("{part}: got {g}, without the rejected calls {w}"),
                );
            }
        }
        (Err(e), _) | (_, Err(e)) => ctx.fail("decode", e),
    }
}
