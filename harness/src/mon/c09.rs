//! C09 saving in parallel gives the same file under every schedule.

use crate::canon;
use crate::heap::{self, Seen};
use crate::kit::{self, Opt, Prog, Step};
use crate::mon::c07::dense;
use crate::mon::c08::part_diff;
use crate::rng::{fnv, Rng};
use crate::run::Ctx;
use crate::sheetops::Mode;
use rust_xlsxwriter::{Workbook, Worksheet};
use std::collections::HashSet;
use std::sync::{Arc, Barrier};

fn note(ctx: &mut Ctx, s: &Seen) {
    ctx.add("points", s.points);
    ctx.add("switches", s.switches);
    ctx.add("threads", s.threads);
    ctx.count("schedules");
    if s.threads > 2 && s.switches > s.threads {
        ctx.nontrivial = true;
    }
}

fn options(r: &mut Rng, ctx_dir: &std::path::Path, sheets: usize) -> Opt {
    Opt {
        size: 2 + r.usize(8),
        sheets,
        scratch: Some(ctx_dir.to_path_buf()),
        ..Opt::default()
    }
}

/// The program with some rows of cells on each sheet, partly the same ones.
fn more(r: &mut Rng, p: &mut Prog) {
    let mut shared: Vec<Step> = vec![];
    dense(r, 40, &mut shared);
    dense(r, 60, &mut shared);
    for s in &mut p.sheets {
        if s.chart_sheet {
            continue;
        }
        s.steps.extend(shared.iter().cloned());
        if r.bool() {
            dense(r, 100, &mut s.steps);
        }
    }
}

fn build(p: &Prog) -> (Workbook, Vec<String>) {
    let mut wb = Workbook::new();
    let mut res = vec![];
    kit::fixed_date(&mut wb);
    for s in &p.sheets {
        let ws = if s.chart_sheet {
            wb.add_chartsheet()
        } else {
            wb.add_worksheet()
        };
        fill(ws, &s.name, &s.steps, &mut res);
    }
    for w in &p.wb {
        res.push(format!("{:?}", (w.f)(&mut wb).map_err(|e| e.to_string())));
    }
    (wb, res)
}

fn fill(ws: &mut Worksheet, name: &str, steps: &[Step], res: &mut Vec<String>) {
    if let Err(e) = ws.set_name(name) {
        res.push(e.to_string());
    }
    for st in steps {
        res.push(format!(
            "{}: {:?}",
            st.desc,
            (st.f)(ws).map_err(|e| e.to_string())
        ));
    }
}

/// One workbook saved again and again under different schedules.
fn schedules(ctx: &mut Ctx) {
    let n = 3 + ctx.rng.usize(10);
    let dir = ctx.scratch.clone();
    let o = options(&mut ctx.rng, &dir, n);
    let mut p = kit::prog(&mut ctx.rng, &o);
    more(&mut ctx.rng, &mut p);
    p.log(ctx);
    let (mut wb, _) = build(&p);
    let want = match wb.save_to_buffer() {
        Ok(b) => b,
        Err(e) => {
            ctx.log(format!("not saved: {e}"));
            return;
        }
    };
    ctx.artifact = Some(want.clone());
    let mut distinct = HashSet::new();
    let rounds = if ctx.thorough { 16 } else { 7 };
    for k in 0..rounds {
        let seed = ctx.rng.u64();
        let mode = k % 4;
        let again = ctx.rng.one_in(3);
        // A workbook that was never saved also assigns its strings now.
        let (r, seen) = if again {
            let (mut other, _) = build(&p);
            heap::disturb(mode, seed, || other.save_to_buffer())
        } else {
            heap::disturb(mode, seed, || wb.save_to_buffer())
        };
        note(ctx, &seen);
        distinct.insert(seen.hash);
        ctx.observed += 1;
        match r {
            Ok(b) if b == want => {}
            Ok(b) => {
                let (k, m) = part_diff(&b, &want);
                ctx.fail(
                    &format!("schedule changes {k}"),
                    format!("mode {mode} seed {seed} fresh {again}: {m}"),
                );
            }
            Err(e) => ctx.fail("schedule fails", format!("mode {mode}: {e}")),
        }
    }
    ctx.add("distinct_interleavings", distinct.len() as u64);
}

/// Every shared string is stored once and the counts agree.
fn tables(ctx: &mut Ctx, bytes: &[u8]) {
    let Ok(b) = crate::book::Book::open(bytes) else {
        return;
    };
    let mut used: HashSet<usize> = HashSet::new();
    let mut count = 0;
    for s in &b.sheets {
        let Some(data) = s.xml.child("sheetData") else {
            continue;
        };
        for c in data.find_all("c") {
            if c.a("t") == "s" {
                count += 1;
                if let Ok(i) = c.child_text("v").unwrap_or_default().parse() {
                    used.insert(i);
                }
            }
        }
    }
    let Some(x) = &b.sst_xml else {
        ctx.check(count == 0, "no string table", || format!("{count} cells"));
        return;
    };
    let items: Vec<String> = x.elems().map(|e| e.show()).collect();
    let unique: HashSet<&String> = items.iter().collect();
    ctx.check(unique.len() == items.len(), "string stored twice", || {
        let mut seen = HashSet::new();
        format!("{:?}", items.iter().find(|i| !seen.insert(*i)))
    });
    ctx.check(
        x.a("uniqueCount").parse() == Ok(items.len()),
        "uniqueCount",
        || format!("{} for {} strings", x.a("uniqueCount"), items.len()),
    );
    ctx.check(
        used.iter().all(|i| *i < items.len()),
        "string index",
        || format!("{used:?} of {}", items.len()),
    );
    ctx.check(
        x.a("count").parse::<usize>().is_ok_and(|c| c >= count),
        "count",
        || format!("{} for {count} cells", x.a("count")),
    );
}

/// Worksheets that are built in several threads.
fn threads(ctx: &mut Ctx) {
    let n = 3 + ctx.rng.usize(7);
    let kinds: &[Mode] = match ctx.rng.below(4) {
        0 => &[Mode::Push],
        1 => &[Mode::PushConst],
        2 => &[Mode::PushLow],
        _ => &[Mode::Push, Mode::PushConst, Mode::PushLow],
    };
    let dir = ctx.scratch.clone();
    let mut o = options(&mut ctx.rng, &dir, n);
    o.chart_sheets = false;
    let mut p = kit::prog(&mut ctx.rng, &o);
    let modes: Vec<Mode> = p.sheets.iter().map(|_| *ctx.rng.pick(kinds)).collect();
    let all_std = modes.iter().all(|m| *m == Mode::Push);
    for (s, m) in p.sheets.iter_mut().zip(&modes) {
        if *m != Mode::Push {
            s.steps.clear();
        }
    }
    if !all_std {
        // (The workbook settings may refer to any feature of a sheet.)
        p.wb.clear();
    }
    more(&mut ctx.rng, &mut p);
    // Many formats and strings that are first used at the same time.
    let base = ctx.rng.u64() % 1000;
    let burst = if ctx.rng.bool() { ctx.rng.u32(5, 60) } else { 0 };
    for s in &mut p.sheets {
        for i in 0..burst {
            let desc = format!("burst {i}");
            let row = 200 + i;
            s.steps.push(Step {
                desc,
                feature: "dense",
                kind: kit::Kind::Cell,
                row,
                f: Arc::new(move |ws: &mut Worksheet| {
                    let f = rust_xlsxwriter::Format::new()
                        .set_num_format(format!("0.0\"{}\"", base + u64::from(i)))
                        .set_font_size(8 + i % 50);
                    ws.write_string_with_format(row, 0, format!("s {base} {i}"), &f)?;
                    ws.write_with_format(row, 1, f64::from(i), &f).map(|_| ())
                }),
                texts: vec![],
            });
        }
    }
    p.log(ctx);
    ctx.log(format!("modes {modes:?} burst {burst}"));
    let sheet = |wb: &mut Workbook, m: Mode| match m {
        Mode::PushLow => wb.new_worksheet_with_low_memory(),
        Mode::PushConst => wb.new_worksheet_with_constant_memory(),
        _ => Worksheet::new(),
    };
    // One after the other.
    let mut wb = Workbook::new();
    kit::fixed_date(&mut wb);
    let mut results: Vec<Vec<String>> = vec![];
    for (s, m) in p.sheets.iter().zip(&modes) {
        let mut ws = sheet(&mut wb, *m);
        let mut res = vec![];
        fill(&mut ws, &s.name, &s.steps, &mut res);
        results.push(res);
        wb.push_worksheet(ws);
    }
    for w in &p.wb {
        let _ = (w.f)(&mut wb);
    }
    let want = match wb.save_to_buffer() {
        Ok(b) => b,
        Err(e) => {
            ctx.log(format!("not saved: {e}"));
            return;
        }
    };
    let want_canon = match canon::of(&want) {
        Ok(c) => c,
        Err(e) => {
            ctx.fail("decode", e);
            return;
        }
    };
    let mut distinct = HashSet::new();
    let rounds = if ctx.thorough { 10 } else { 4 };
    for k in 0..rounds {
        let seed = ctx.rng.u64();
        let mode = k % 4;
        let mut wb = Workbook::new();
        kit::fixed_date(&mut wb);
        let own: Vec<Worksheet> = modes.iter().map(|m| sheet(&mut wb, *m)).collect();
        let start = Barrier::new(own.len());
        let (done, seen) = heap::disturb(mode, seed, || {
            std::thread::scope(|scope| {
                let hs: Vec<_> = own
                    .into_iter()
                    .zip(&p.sheets)
                    .map(|(mut ws, s)| {
                        let start = &start;
                        scope.spawn(move || {
                            let mut res = vec![];
                            start.wait();
                            fill(&mut ws, &s.name, &s.steps, &mut res);
                            (ws, res)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
            })
        });
        note(ctx, &seen);
        distinct.insert(seen.hash);
        let mut failed = false;
        for (i, d) in done.into_iter().enumerate() {
            match d {
                Ok((ws, res)) => {
                    ctx.check(res == results[i], "results in a thread", || {
                        format!("sheet {i}: {res:?} and {:?}", results[i])
                    });
                    wb.push_worksheet(ws);
                }
                Err(_) => {
                    failed = true;
                    ctx.fail("panic in a thread", format!("sheet {i}"));
                }
            }
        }
        if failed {
            return;
        }
        for w in &p.wb {
            let _ = (w.f)(&mut wb);
        }
        let (r, seen) = heap::disturb(mode, seed, || wb.save_to_buffer());
        note(ctx, &seen);
        let b = match r {
            Ok(b) => b,
            Err(e) => {
                ctx.fail("save fails", e.to_string());
                return;
            }
        };
        ctx.artifact = Some(b.clone());
        ctx.observed += 1;
        if all_std {
            if b != want {
                let (k, m) = part_diff(&b, &want);
                ctx.fail(&format!("threads change {k}"), format!("mode {mode}: {m}"));
            }
            continue;
        }
        tables(ctx, &b);
        match canon::of(&b) {
            Ok(c) => {
                for (part, g, w) in canon::diff(&c, &want_canon) {
                    ctx.fail(
                        &format!("threads {} {}", canon::kind(&part), canon::head(&w)),
                        format!("mode {mode} {part}: got {g}, expected {w}"),
                    );
                }
            }
            Err(e) => ctx.fail("decode", e),
        }
    }
    ctx.add("distinct_interleavings", distinct.len() as u64);
}

/// The workbooks of a seed, which don't depend on anything else.
fn job(seed: u64, dir: &std::path::Path) -> Result<Vec<u8>, String> {
    let mut r = Rng::new("C09job", seed, 0);
    let n = 1 + r.usize(4);
    let o = options(&mut r, dir, n);
    let mut p = kit::prog(&mut r, &o);
    more(&mut r, &mut p);
    let (mut wb, _) = build(&p);
    let b = wb.save_to_buffer().map_err(|e| e.to_string())?;
    Ok(b)
}

fn jobs(seeds: &[u64], dir: &std::path::Path) -> Vec<Result<Vec<u8>, String>> {
    let start = Barrier::new(seeds.len());
    std::thread::scope(|scope| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|s| {
                let (start, dir) = (&start, dir.join(format!("c09_{s}")));
                scope.spawn(move || {
                    let _ = std::fs::create_dir_all(&dir);
                    start.wait();
                    let r = job(*s, &dir);
                    let _ = std::fs::remove_dir_all(&dir);
                    r
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("panic".into())))
            .collect()
    })
}

/// Several workbooks at the same time.
fn workbooks(ctx: &mut Ctx) {
    let n = 2 + ctx.rng.usize(5);
    let mut seeds: Vec<u64> = (0..n).map(|_| ctx.rng.u64() >> 20).collect();
    seeds.sort_unstable();
    seeds.dedup();
    ctx.log(format!("workbooks {seeds:?}"));
    let dir = ctx.scratch.clone();
    let want: Vec<_> = seeds
        .iter()
        .map(|s| {
            let d = dir.join(format!("c09_{s}"));
            let _ = std::fs::create_dir_all(&d);
            let r = job(*s, &d);
            let _ = std::fs::remove_dir_all(&d);
            r
        })
        .collect();
    let mut distinct = HashSet::new();
    for k in 0..if ctx.thorough { 8 } else { 4 } {
        let seed = ctx.rng.u64();
        let (got, seen) = heap::disturb(k % 4, seed, || jobs(&seeds, &dir));
        note(ctx, &seen);
        distinct.insert(seen.hash);
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ctx.observed += 1;
            match (g, w) {
                (Ok(a), Ok(b)) if a == b => {}
                (Ok(a), Ok(b)) => {
                    let (kind, m) = part_diff(a, b);
                    ctx.fail(
                        &format!("other workbooks change {kind}"),
                        format!("workbook {i} mode {k}: {m}"),
                    );
                }
                (a, b) => {
                    ctx.check(
                        a.as_ref().err() == b.as_ref().err(),
                        "other workbooks change the result",
                        || format!("{:?} and {:?}", a.as_ref().err(), b.as_ref().err()),
                    );
                }
            }
        }
    }
    ctx.add("distinct_interleavings", distinct.len() as u64);
    // The same as the first thing a process does.
    if ctx.rng.one_in(3) {
        let arg: Vec<String> = seeds.iter().map(ToString::to_string).collect();
        let out = std::env::current_exe().and_then(|e| {
            std::process::Command::new(e)
                .arg("concurrent")
                .arg(&dir)
                .args(&arg)
                .stderr(std::process::Stdio::null())
                .output()
        });
        let Ok(out) = out else {
            return;
        };
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let want: Vec<String> = want.iter().map(digest).collect();
        ctx.count("processes");
        ctx.check(
            text.lines().eq(want.iter().map(String::as_str)),
            "first use in parallel",
            || format!("a new process got {text:?}, expected {want:?}"),
        );
    }
}

fn digest(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => format!("{:016x}", fnv(b)),
        Err(e) => format!("error {e:?}"),
    }
}

/// `xlmon concurrent DIR SEED...`
pub fn concurrent(a: &[String]) -> i32 {
    let Some((dir, seeds)) = a.split_first() else {
        return 2;
    };
    let seeds: Vec<u64> = seeds.iter().filter_map(|s| s.parse().ok()).collect();
    for r in jobs(&seeds, std::path::Path::new(dir)) {
        println!("{}", digest(&r));
    }
    0
}

pub fn case(ctx: &mut Ctx) {
    if ctx.index == 0 {
        // What ThreadSanitizer saw before (see check.sh).
        for (k, v) in [
            ("tsan_cases", "XLMON_TSAN_CASES"),
            ("tsan_reports", "XLMON_TSAN_REPORTS"),
        ] {
            if let Some(n) = std::env::var(v).ok().and_then(|n| n.parse().ok()) {
                ctx.add(k, n);
            }
        }
    }
    match ctx.rng.below(10) {
        0..=3 => schedules(ctx),
        4..=7 => threads(ctx),
        _ => workbooks(ctx),
    }
}
