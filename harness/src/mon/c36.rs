//! C36 constant memory mode uses bounded memory and cleans up.

use crate::gen;
use crate::heap;
use crate::kit;
use crate::run::Ctx;
use rust_xlsxwriter::{ExcelDateTime, Format, Formula, Workbook, Worksheet};
use std::io::{Result as IoResult, Seek, SeekFrom, Write};
use std::path::Path;

/// What the heap may gain over any number of rows, in bytes.
const SLACK: i64 = 24 * 1024;

/// A destination that keeps nothing.
#[derive(Default)]
struct Sink {
    pos: u64,
    end: u64,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.pos += b.len() as u64;
        self.end = self.end.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}

impl Seek for Sink {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.pos = match to {
            SeekFrom::Start(n) => n,
            SeekFrom::End(n) => self.end.saturating_add_signed(n),
            SeekFrom::Current(n) => self.pos.saturating_add_signed(n),
        };
        Ok(self.pos)
    }
}

#[derive(Clone, Debug)]
struct Cell {
    col: u16,
    kind: u8,
    fmt: Option<usize>,
    text: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Const,
    Low,
    PushConst,
    PushLow,
}

struct Plan {
    mode: Mode,
    rows: Vec<Vec<Cell>>,
    gap: u32,
    row: u32,
    n: u64,
    cells: u64,
    /// Bytes of text that was new to the workbook.
    fresh: i64,
    fresh_texts: i64,
}

fn plan(ctx: &mut Ctx, mode: Mode, texts: usize, formats: usize) -> Plan {
    let k = 1 + ctx.rng.usize(5);
    let rows = (0..k)
        .map(|_| {
            let wide = ctx.rng.one_in(12);
            let n = if wide {
                40 + ctx.rng.usize(40)
            } else {
                1 + ctx.rng.usize(7)
            };
            (0..n)
                .map(|i| Cell {
                    col: i as u16 + if wide { 0 } else { ctx.rng.u16(0, 2) },
                    kind: ctx.rng.u8(0, 13),
                    fmt: if ctx.rng.one_in(3) {
                        Some(ctx.rng.usize(formats))
                    } else {
                        None
                    },
                    text: ctx.rng.usize(texts),
                })
                .collect()
        })
        .collect();
    Plan {
        mode,
        rows,
        gap: 1 + ctx.rng.u32(0, 2) * u32::from(ctx.rng.one_in(3)),
        row: 0,
        n: 0,
        cells: 0,
        fresh: 0,
        fresh_texts: 0,
    }
}

fn write(
    ws: &mut Worksheet,
    p: &mut Plan,
    texts: &[String],
    formats: &[Format],
) -> Result<(), rust_xlsxwriter::XlsxError> {
    let t = p.rows[(p.n % p.rows.len() as u64) as usize].clone();
    let r = p.row;
    let none = Format::default();
    let mut used = std::collections::BTreeSet::new();
    for c in &t {
        let text = texts[c.text].as_str();
        let num = p.n as f64 * 1.25 - 7.0;
        used.insert(c.col);
        match (c.kind, c.fmt.map(|f| &formats[f])) {
            (0 | 1, None) => ws.write_string(r, c.col, text)?,
            (0 | 1, Some(f)) => ws.write_string_with_format(r, c.col, text, f)?,
            (2, None) => ws.write_boolean(r, c.col, p.n % 3 == 0)?,
            (3, Some(f)) => ws.write_blank(r, c.col, f)?,
            (4, None) => ws.write_formula(r, c.col, Formula::new("=A1+B1").set_result("12"))?,
            (4, Some(f)) => ws.write_formula_with_format(r, c.col, "=SUM(A1:B2)", f)?,
            (5, Some(f)) => ws.write_rich_string(r, c.col, &[(&none, text), (f, "x")])?,
            (6, Some(f)) => {
                let d = ExcelDateTime::from_serial_datetime(40000.0 + p.n as f64 % 1000.0)?;
                ws.write_datetime_with_format(r, c.col, &d, f)?
            }
            (7, _) => ws.write_row(r, c.col, [num, 2.0, 3.5])?,
            (8, None) => {
                // New text in every row.
                let s = format!("unique {} {}", p.n, c.col);
                p.fresh += s.len() as i64;
                p.fresh_texts += 1;
                ws.write(r, c.col, s)?
            }
            (9, _) => ws.write_array_formula(r, c.col, r, c.col, "=A1:A2")?,
            (10, None) => ws.write_dynamic_formula(r, c.col, "=UNIQUE(A1:A9)")?,
            (11, _) => ws.insert_checkbox(r, c.col, p.n % 2 == 0)?,
            (12, None) => ws.write(r, c.col, Some(p.n as i32))?,
            (_, None) => ws.write_number(r, c.col, num)?,
            (_, Some(f)) => ws.write_number_with_format(r, c.col, num, f)?,
        };
        if c.kind == 7 {
            used.extend([c.col + 1, c.col + 2]);
        }
    }
    // Now and then something is taken back.
    if p.n % 17 == 3 {
        ws.clear_cell(r, t[0].col);
        used.remove(&t[0].col);
    }
    if p.n % 13 == 2 {
        ws.set_formula_result(r, t[0].col, "8");
    }
    p.cells += used.len() as u64;
    p.row += p.gap;
    p.n += 1;
    Ok(())
}

/// Open files of this process that live in a directory.
fn open_in(dir: &Path) -> usize {
    let Ok(d) = std::fs::read_dir("/proc/self/fd") else {
        return 0;
    };
    d.flatten()
        .filter_map(|e| std::fs::read_link(e.path()).ok())
        .filter(|p| p.starts_with(dir))
        .count()
}

fn entries(dir: &Path) -> usize {
    std::fs::read_dir(dir).map_or(0, Iterator::count)
}

/// A workbook in a process of its own whose default temporary directory can't
/// be used and that may open few files.
pub fn isolated(dir: &str) -> i32 {
    let mut wb = Workbook::new();
    let r = (|| -> Result<usize, rust_xlsxwriter::XlsxError> {
        wb.set_tempdir(dir)?;
        for i in 0..120 {
            wb.add_worksheet().write(i, 0, i)?;
        }
        let mut own = Worksheet::new();
        own.write(0, 0, "own")?;
        wb.push_worksheet(own);
        let ws = wb.add_worksheet_with_constant_memory();
        ws.write(0, 0, 1)?;
        ws.write(1, 0, 2)?;
        let ws = wb.add_worksheet_with_low_memory();
        ws.write(0, 0, "low")?;
        Ok(wb.save_to_buffer()?.len())
    })();
    match r {
        Ok(_) => 0,
        Err(e) => {
            println!("{e}");
            1
        }
    }
}

fn alone(ctx: &mut Ctx, dir: &Path) {
    let Ok(exe) = std::env::current_exe() else {
        return;
    };
    let out = std::process::Command::new("sh")
        .arg("-c")
        .arg("ulimit -n 64; exec \"$0\" isolated \"$1\" 2>&1")
        .arg(exe)
        .arg(dir)
        .env("TMPDIR", dir.join("missing"))
        .output();
    match out {
        Ok(o) => {
            ctx.check(o.status.success(), "other directory", || {
                format!(
                    "with an unusable default directory and few files: {}",
                    String::from_utf8_lossy(&o.stdout)
                )
            });
        }
        Err(e) => ctx.log(format!("can't start: {e}")),
    }
    ctx.count("isolated runs");
}

pub fn case(ctx: &mut Ctx) {
    let dir = ctx.scratch.join(format!("c36_{}", ctx.index));
    let _ = std::fs::create_dir_all(&dir);
    if ctx.index % 200 == 0 {
        alone(ctx, &dir);
    }
    body(ctx, &dir);
    // Nothing is left, and all files are closed.
    ctx.eq(&open_in(&dir), &0, "left open", "files open after the drop");
    ctx.eq(&entries(&dir), &0, "left over", "entries after the drop");
    let _ = std::fs::remove_dir_all(&dir);
}

fn body(ctx: &mut Ctx, dir: &Path) {
    let texts: Vec<String> = (0..8)
        .map(|_| gen::text(&mut ctx.rng, 40, gen::PLAIN))
        .map(|s| if s.is_empty() { "a".into() } else { s })
        .collect();
    let formats: Vec<Format> = (0..4)
        .map(|_| kit::format(&mut ctx.rng).set_num_format("0.000"))
        .collect();
    let n = 1 + ctx.rng.usize(3);
    let mut plans: Vec<Plan> = (0..n)
        .map(|_| {
            let m = *ctx
                .rng
                .pick(&[Mode::Const, Mode::Const, Mode::Low, Mode::PushConst, Mode::PushLow]);
            plan(ctx, m, texts.len(), formats.len())
        })
        .collect();
    for p in &plans {
        ctx.log(format!("{:?} gap {} rows {:?}", p.mode, p.gap, p.rows));
    }
    let mut wb = Workbook::new();
    kit::fixed_date(&mut wb);
    if ctx.rng.one_in(4) {
        ctx.check(wb.set_tempdir(dir.join("missing")).is_err(), "bad dir", || {
            "a missing directory is accepted".into()
        });
    }
    let r = wb.set_tempdir(dir).map(|_| ());
    ctx.check(r.is_ok(), "tempdir", || format!("{r:?}"));
    if ctx.rng.one_in(4) {
        let r = wb.set_tempdir(dir.join("missing")).map(|_| ());
        ctx.check(r.is_err(), "bad dir", || "accepted later".into());
    }
    let mut own = vec![];
    for (i, p) in plans.iter().enumerate() {
        let name = format!("S{i}");
        let r = match p.mode {
            Mode::Const => wb.add_worksheet_with_constant_memory().set_name(name).is_ok(),
            Mode::Low => wb.add_worksheet_with_low_memory().set_name(name).is_ok(),
            m => {
                let mut ws = if m == Mode::PushConst {
                    wb.new_worksheet_with_constant_memory()
                } else {
                    wb.new_worksheet_with_low_memory()
                };
                let r = ws.set_name(name).is_ok();
                if ctx.rng.bool() {
                    wb.push_worksheet(ws);
                } else {
                    own.push(ws);
                }
                r
            }
        };
        ctx.check(r, "name", || "refused".into());
    }
    let std = ctx.rng.one_in(4);
    if std {
        let _ = wb.add_worksheet().set_name("std");
    }
    ctx.eq(&open_in(dir), &n, "tempdir", "temporary files");
    // A sheet that is never added closes its file.
    if ctx.rng.one_in(4) {
        let mut ws = wb.new_worksheet_with_constant_memory();
        let _ = ws.write(0, 0, 1);
        let _ = ws.write(1, 0, 1);
        ctx.eq(&open_in(dir), &(n + 1), "tempdir", "files with a new sheet");
        drop(ws);
        ctx.eq(&open_in(dir), &n, "tempdir", "files without it");
    }

    let warm = 120;
    let extra = if ctx.thorough {
        *ctx.rng.pick(&[1500u64, 3000, 20_000])
    } else {
        *ctx.rng.pick(&[1500u64, 2000, 3000])
    };
    // Sheets are written in turn, or one after the other.
    let turns = ctx.rng.bool();
    let mid_save = own.is_empty() && ctx.rng.bool();
    ctx.log(format!(
        "{extra} rows, turns {turns}, saved between {mid_save}, own {}",
        own.len()
    ));
    let mut bad = None;
    let mut go = |wb: &mut Workbook, own: &mut Vec<Worksheet>, plans: &mut Vec<Plan>, k: u64| {
        let mut one = |i: usize, p: &mut Plan| {
            let name = format!("S{i}");
            let r = match own.iter_mut().find(|w| w.name() == name) {
                Some(w) => write(w, p, &texts, &formats),
                None => match wb.worksheet_from_name(&name) {
                    Ok(w) => write(w, p, &texts, &formats),
                    Err(e) => Err(e),
                },
            };
            if let Err(e) = r {
                bad.get_or_insert(format!("row {} of {name}: {e}", p.n));
            }
        };
        if turns {
            for _ in 0..k {
                for (i, p) in plans.iter_mut().enumerate() {
                    one(i, p);
                }
            }
        } else {
            for (i, p) in plans.iter_mut().enumerate() {
                for _ in 0..k {
                    one(i, p);
                }
            }
        }
    };
    // Every kind of row, then the peak over some more.
    go(&mut wb, &mut own, &mut plans, warm);
    let base = heap::live();
    heap::reset_peak();
    go(&mut wb, &mut own, &mut plans, warm);
    let row_peak = heap::peak() - base;
    let mut save_peak = None;
    if mid_save {
        let base = heap::live();
        heap::reset_peak();
        if let Err(e) = wb.save_to_writer(Sink::default()) {
            return ctx.fail("save", e.to_string());
        }
        save_peak = Some(heap::peak() - base);
        go(&mut wb, &mut own, &mut plans, warm);
    }
    // Low memory sheets keep their distinct texts.
    let kept = |plans: &[Plan]| -> i64 {
        plans
            .iter()
            .filter(|p| matches!(p.mode, Mode::Low | Mode::PushLow))
            .map(|p| 2 * p.fresh + 250 * p.fresh_texts)
            .sum()
    };
    let (live, text) = (heap::live(), kept(&plans));
    heap::reset_peak();
    go(&mut wb, &mut own, &mut plans, extra);
    if let Some(b) = bad {
        return ctx.fail("rejected", b);
    }
    let allow = SLACK + kept(&plans) - text;
    let grown = heap::live() - live;
    ctx.check(grown <= allow, "growth", || {
        format!("{extra} rows on {n} sheets keep {grown} bytes, allowed {allow}")
    });
    let peak = heap::peak() - live;
    ctx.check(peak <= row_peak + 2 * allow, "peak", || {
        format!("{extra} rows on {n} sheets need {peak} bytes, {warm} need {row_peak}")
    });
    ctx.add("rows", extra * n as u64);
    ctx.add("kept bytes", grown.max(0) as u64);
    ctx.eq(&open_in(dir), &n, "tempdir", "temporary files in use");

    // Saving streams the rows.
    for w in own {
        wb.push_worksheet(w);
    }
    match ctx.rng.below(4) {
        0 => {
            ctx.log("dropped without a save");
        }
        1 => {
            // What was written is there.
            match wb.save_to_buffer() {
                Ok(b) => match crate::book::Book::open(&b) {
                    Ok(book) => {
                        for (i, p) in plans.iter().enumerate() {
                            let cells = book
                                .sheet(&format!("S{i}"))
                                .map_or(0, |s| s.cells.len() as u64);
                            ctx.eq(&cells, &p.cells, "cells", &format!("cells of S{i}"));
                            let rows = book.sheet(&format!("S{i}")).map_or(0, |s| s.rows.len());
                            ctx.check(rows as u64 <= p.n, "rows", || format!("{rows}"));
                        }
                    }
                    Err(e) => ctx.fail("decode", e),
                },
                Err(e) => ctx.fail("save", e.to_string()),
            }
        }
        _ => {
            let base = heap::live();
            heap::reset_peak();
            let mut s = Sink::default();
            if let Err(e) = wb.save_to_writer(&mut s) {
                return ctx.fail("save", e.to_string());
            }
            let p = heap::peak() - base;
            let more = 4 * (kept(&plans) - text);
            let limit = save_peak.map_or(1 << 21, |s| s + SLACK) + more;
            ctx.check(p <= limit, "save peak", || {
                format!(
                    "saving {} bytes needs {p} bytes of heap, allowed {limit} ({save_peak:?} before)",
                    s.end
                )
            });
            let kept_after = heap::live() - base;
            ctx.add("bytes saved", s.end);
            ctx.check(kept_after <= limit, "after save", || {
                format!("{kept_after} bytes kept after the save")
            });
            ctx.eq(&open_in(dir), &n, "tempdir", "temporary files after the save");
        }
    }
    ctx.nontrivial = true;
}
