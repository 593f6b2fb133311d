//! Case runner: seeds, threads, verdicts, evidence, known findings, replay.

use crate::rng::{fnv, Rng};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

/// Everything one case has access to.
pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub index: u64,
    pub thorough: bool,
    pub rng: Rng,
    /// Readable description of what the case did (also its identity).
    pub log: Vec<String>,
    /// Counters of what the monitors observed.
    pub stats: BTreeMap<String, u64>,
    pub fails: Vec<Fail>,
    /// Number of oracle comparisons made in this case.
    pub observed: u64,
    /// Set when the case exercised what the rule calls non-trivial.
    pub nontrivial: bool,
    pub verbose: bool,
    /// Bytes of the last saved file, kept for replay.
    pub artifact: Option<Vec<u8>>,
    pub scratch: PathBuf,
}

impl Ctx {
    pub fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.verbose {
            eprintln!("  {s}");
        }
        if self.log.len() < 20000 {
            self.log.push(s);
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn fail(&mut self, sig: &str, msg: impl Into<String>) {
        let msg = msg.into();
        if self.verbose {
            eprintln!("  FAIL[{sig}] {msg}");
        }
        // A case may fail many times for one reason; keep the first of each sig.
        if self.fails.len() < 200 && !self.fails.iter().any(|f| f.sig == sig) {
            self.fails.push(Fail {
                sig: sig.into(),
                msg,
            });
        }
    }
    /// One oracle comparison.
    pub fn check(&mut self, ok: bool, sig: &str, msg: impl FnOnce() -> String) -> bool {
        self.observed += 1;
        if !ok {
            self.fail(sig, msg());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(
        &mut self,
        got: &T,
        want: &T,
        sig: &str,
        what: &str,
    ) -> bool {
        self.observed += 1;
        if got != want {
            self.fail(sig, format!("{what}: got {got:?}, expected {want:?}"));
            return false;
        }
        true
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx),
    pub rule: &'static str,
    pub level: &'static str,
    /// Maximum worker threads.
    pub threads: usize,
}

struct Known {
    prop: String,
    sig: String,
    what: String,
}

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("XLMON_VERIF") {
        return PathBuf::from(d);
    }
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
        .canonicalize()
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn load_known() -> Vec<Known> {
    let mut v = vec![];
    let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else {
        return v;
    };
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else {
            continue;
        };
        let mut it = r.splitn(3, ' ');
        let p = it.next().unwrap_or("").to_string();
        let s = it.next().unwrap_or("");
        let what = it.next().unwrap_or("").to_string();
        if let Some(sig) = s.strip_prefix("sig=") {
            v.push(Known {
                prop: p,
                sig: sig.into(),
                what,
            });
        }
    }
    v
}

pub static LAST_PANIC: Mutex<Vec<(std::thread::ThreadId, String)>> = Mutex::new(Vec::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("XLMON_BT").is_some() {
            eprintln!(
                "{msg} @ {loc}\n{}",
                std::backtrace::Backtrace::force_capture()
            );
        }
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() > 10000 {
            g.clear();
        }
        g.push((std::thread::current().id(), format!("{msg} @ {loc}")));
    }));
}

pub fn take_panics() -> Vec<String> {
    let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
    let me = std::thread::current().id();
    let mine: Vec<String> = g
        .iter()
        .filter(|(t, _)| *t == me)
        .map(|(_, m)| m.clone())
        .collect();
    g.retain(|(t, _)| *t != me);
    mine
}

fn make_ctx(p: &Prop, seed: u64, index: u64, thorough: bool, verbose: bool) -> Ctx {
    let scratch = std::env::temp_dir().join(format!("xlmon-{}", std::process::id()));
    Ctx {
        prop: p.id,
        seed,
        index,
        thorough,
        rng: Rng::new(p.id, seed, index),
        log: vec![],
        stats: BTreeMap::new(),
        fails: vec![],
        observed: 0,
        nontrivial: false,
        verbose,
        artifact: None,
        scratch,
    }
}

/// Remove digits and quoted text so a panic message is a stable signature.
pub fn panic_sig(m: &str) -> String {
    let (msg, loc) = m.rsplit_once(" @ ").unwrap_or((m, ""));
    let file = loc.rsplit('/').next().unwrap_or("");
    let file = file.split(':').next().unwrap_or("");
    let mut s = String::from("panic:");
    s.push_str(file);
    s.push(':');
    let mut last_dash = false;
    for c in msg.chars().take(60) {
        if c.is_ascii_alphabetic() {
            s.push(c.to_ascii_lowercase());
            last_dash = false;
        } else if !last_dash {
            s.push('-');
            last_dash = true;
        }
    }
    s
}

fn run_case(p: &Prop, seed: u64, index: u64, thorough: bool, verbose: bool) -> Ctx {
    let mut ctx = make_ctx(p, seed, index, thorough, verbose);
    let _ = take_panics();
    let r = catch_unwind(AssertUnwindSafe(|| (p.f)(&mut ctx)));
    if r.is_err() {
        let ps = take_panics();
        let m = ps
            .first()
            .cloned()
            .unwrap_or_else(|| "panic in a worker thread".into());
        if m.contains("harness bug") || m.contains("/verif/harness/") || m.contains(" @ src/") {
            eprintln!("HARNESS ERROR in {} case {index}: {m}", p.id);
            for l in ctx.log.iter().rev().take(20).rev() {
                eprintln!("  {l}");
            }
            std::process::exit(3);
        }
        let sig = panic_sig(&m);
        ctx.fail(&sig, format!("the library panicked: {m}"));
    }
    ctx
}

pub struct Agg {
    pub evaluations: u64,
    pub observed: u64,
    pub stats: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(u64, Vec<String>)>,
    pub viols: Vec<(u64, Fail, Vec<String>, Option<Vec<u8>>)>,
    pub known: BTreeSet<String>,
    pub known_hits: u64,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32));
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

pub fn replay(p: &Prop, seed: u64, index: u64, thorough: bool) -> i32 {
    let scratch = std::env::temp_dir().join(format!("xlmon-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let ctx = run_case(p, seed, index, thorough, true);
    let _ = std::fs::remove_dir_all(&scratch);
    for f in &ctx.fails {
        println!("FAIL property={} sig={} {}", p.id, f.sig, f.msg);
    }
    if let Some(a) = &ctx.artifact {
        let f = std::env::temp_dir().join(format!("xlmon_{}_{}_{}.xlsx", p.id, seed, index));
        let _ = std::fs::write(&f, a);
        println!("artifact: {}", f.display());
    }
    for (k, v) in &ctx.stats {
        println!("  {k}: {v}");
    }
    i32::from(!ctx.fails.is_empty())
}

pub fn run(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let n = std::env::var("XLMON_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = Duration::from_secs(if thorough { 1500 } else { 240 });
    let scratch = std::env::temp_dir().join(format!("xlmon-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);

    let known = load_known();
    let known: Vec<&Known> = known.iter().filter(|k| k.prop == p.id).collect();
    let agg = Mutex::new(Agg {
        evaluations: 0,
        observed: 0,
        stats: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        viols: vec![],
        known: BTreeSet::new(),
        known_hits: 0,
    });
    let next = AtomicU64::new(0);
    let capped = AtomicBool::new(false);
    let stop = AtomicBool::new(false);
    let threads = std::thread::available_parallelism()
        .map_or(4, std::num::NonZero::get)
        .min(p.threads)
        .max(1);
    // Watchdog: a case that hangs is inconclusive, not a violation.
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicBool::new(false);
    // For C10 a call that doesn't end, or needs all memory, is a violation.
    let bounded = p.id == "C10";
    if bounded {
        crate::heap::limit(3 << 30);
    }
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (agg, next, capped, stop, beats, known, current) =
                (&agg, &next, &capped, &stop, &beats, &known, &current);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > cap {
                            capped.store(true, Ordering::SeqCst);
                            break;
                        }
                        current[t].store(i, Ordering::SeqCst);
                        beats[t].store(t0.elapsed().as_secs() + 1, Ordering::SeqCst);
                        crate::heap::worker(t);
                        let ctx = run_case(p, seed, i, thorough, false);
                        beats[t].store(0, Ordering::SeqCst);
                        let mut a = agg.lock().unwrap();
                        a.evaluations += 1;
                        a.observed += ctx.observed;
                        for (k, v) in &ctx.stats {
                            *a.stats.entry(k.clone()).or_insert(0) += v;
                        }
                        if ctx.nontrivial || ctx.observed > 0 {
                            let mut h = 0u64;
                            for l in &ctx.log {
                                h = h.rotate_left(5) ^ fnv(l.as_bytes());
                            }
                            if ctx.nontrivial {
                                a.distinct.insert(h);
                            }
                        }
                        if a.samples.len() < 3 && ctx.nontrivial {
                            let l = ctx.log.iter().take(25).map(|s| clip(s, 240)).collect();
                            a.samples.push((i, l));
                        }
                        for f in ctx.fails {
                            if known.iter().any(|k| k.sig == f.sig) {
                                a.known.insert(f.sig.clone());
                                a.known_hits += 1;
                            } else if a.viols.len() < 20
                                && !a.viols.iter().any(|(_, v, _, _)| v.sig == f.sig)
                            {
                                a.viols.push((i, f, ctx.log.clone(), ctx.artifact.clone()));
                            }
                        }
                        if a.viols.len() >= 10 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    })
                    .unwrap(),
            );
        }
        let (beats, finished, current) = (&beats, &finished, &current);
        sc.spawn(move || {
            while !finished.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for (t, b) in beats.iter().enumerate() {
                    let s = b.load(Ordering::SeqCst);
                    let memory = crate::heap::over() == Some(t);
                    if bounded && s > 0 && (memory || t0.elapsed().as_secs() > s + 120) {
                        let i = current[t].load(Ordering::SeqCst);
                        let what = if memory { "memory use" } else { "no return" };
                        let dir = verif_dir().join("replay");
                        let _ = std::fs::create_dir_all(&dir);
                        let tier = if thorough { "thorough" } else { "quick" };
                        let path = dir.join(format!("{}_{seed}_{i}_hang.txt", p.id));
                        let _ = std::fs::write(
                            &path,
                            format!("{what}\nreplay: /verif/check.sh replay {} {seed} {i} {tier}\n", p.id),
                        );
                        println!(
                            "VIOLATION property={} replay={} sig={what}",
                            p.id,
                            path.display()
                        );
                        std::process::exit(1);
                    }
                    if s > 0 && t0.elapsed().as_secs() > s + 400 {
                        eprintln!("INCONCLUSIVE: a case ran for more than 400 s");
                        std::process::exit(4);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        finished.store(true, Ordering::SeqCst);
    });
    let _ = std::fs::remove_dir_all(&scratch);
    let mut a = agg.into_inner().unwrap();
    a.viols.sort_by_key(|v| v.0);
    a.samples.sort_by_key(|v| v.0);

    for k in &known {
        if a.known.contains(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    let mut nviol = 0;
    if !a.viols.is_empty() {
        let dir = verif_dir().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        for (i, f, log, art) in &a.viols {
            nviol += 1;
            let base = dir.join(format!("{}_{}_{}_{}", p.id, seed, i, nviol));
            let path = base.with_extension("txt");
            let mut t = format!(
                "property {}\nsignature {}\nseed {} index {} tier {}\nreplay: /verif/check.sh replay {} {} {} {}\n\n{}\n\ncase log:\n",
                p.id, f.sig, seed, i, if thorough {"thorough"} else {"quick"},
                p.id, seed, i, if thorough {"thorough"} else {"quick"}, f.msg
            );
            for l in log {
                t.push_str(&clip(l, 2000));
                t.push('\n');
            }
            let _ = std::fs::write(&path, t);
            if let Some(art) = art {
                let _ = std::fs::write(base.with_extension("xlsx"), art);
            }
            println!(
                "VIOLATION property={} replay={} sig={} {}",
                p.id,
                path.display(),
                f.sig,
                clip(&f.msg.replace('\n', " "), 600)
            );
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    // Evidence.
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!("  \"property\": {},\n", jstr(p.id)));
    j.push_str(&format!(
        "  \"tier\": {},\n",
        jstr(if thorough { "thorough" } else { "quick" })
    ));
    j.push_str(&format!("  \"seed\": {seed},\n"));
    j.push_str(&format!("  \"level\": {},\n", jstr(p.level)));
    j.push_str("  \"coverage\": {\n");
    j.push_str(&format!("    \"evaluations\": {},\n", a.evaluations));
    j.push_str(&format!(
        "    \"distinct_nontrivial\": {},\n",
        a.distinct.len()
    ));
    j.push_str(&format!("    \"rule\": {},\n", jstr(p.rule)));
    j.push_str(&format!("    \"oracle_comparisons\": {},\n", a.observed));
    j.push_str(&format!("    \"known_finding_hits\": {},\n", a.known_hits));
    j.push_str(&format!(
        "    \"time_capped\": {},\n",
        capped.load(Ordering::SeqCst)
    ));
    j.push_str("    \"observed\": {");
    let v: Vec<String> = a
        .stats
        .iter()
        .map(|(k, v)| format!("{}: {v}", jstr(k)))
        .collect();
    j.push_str(&v.join(", "));
    j.push_str("},\n    \"samples\": [\n");
    let v: Vec<String> = a
        .samples
        .iter()
        .map(|(i, l)| {
            let l: Vec<String> = l.iter().map(|s| jstr(s)).collect();
            format!("      {{\"case\": {i}, \"log\": [{}]}}", l.join(", "))
        })
        .collect();
    j.push_str(&v.join(",\n"));
    j.push_str("\n    ]\n  },\n");
    j.push_str(&format!("  \"wall_s\": {wall:.2},\n"));
    j.push_str(&format!("  \"violations\": {nviol}\n}}\n"));
    let ed = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    if let Err(e) = std::fs::write(ed.join(format!("{}.json", p.id)), j) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} comparisons, {} violations, {:.1}s",
        p.id,
        if thorough { "thorough" } else { "quick" },
        a.evaluations,
        a.distinct.len(),
        a.observed,
        nviol,
        wall
    );
    if nviol > 0 {
        return 1;
    }
    if a.evaluations == 0 || a.distinct.is_empty() || a.observed == 0 {
        eprintln!("INCONCLUSIVE: nothing was observed");
        return 5;
    }
    0
}
