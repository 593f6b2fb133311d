//! C27 I/O failures are reported and never mistaken for success.

use crate::canon;
use crate::kit::{self, Opt, Prog, Step};
use crate::mon::c07::dense;
use crate::mon::c08::part_diff;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::Mode;
use rust_xlsxwriter::{Workbook, XlsxError};
use std::io::{BufWriter, Error, ErrorKind, Read, Result as IoResult, Seek, SeekFrom, Write};

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::StorageFull,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::InvalidInput,
];

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    None,
    /// The operation with this number fails, and all after it when sticky.
    At(u64, ErrorKind, bool),
    /// A write reports that nothing could be written.
    Zero(u64),
    /// The destination holds this many bytes.
    Full(u64),
    /// Every write is short.
    Short(usize),
    /// Every so many writes are interrupted.
    Interrupted(u64),
    /// Every flush, or every seek, fails.
    Flush,
    Seek,
}

/// A destination in memory that fails as planned.
struct Dest {
    buf: Vec<u8>,
    pos: usize,
    ops: u64,
    writes: u64,
    fault: Fault,
    /// Hard errors returned to the writer.
    hits: u64,
    soft: u64,
    /// Only what was flushed arrives.
    lazy: bool,
    arrived: Vec<u8>,
}

impl Dest {
    fn new(fault: Fault) -> Dest {
        Dest {
            buf: vec![],
            pos: 0,
            ops: 0,
            writes: 0,
            fault,
            hits: 0,
            soft: 0,
            lazy: false,
            arrived: vec![],
        }
    }
    fn op(&mut self, seek: bool) -> IoResult<()> {
        let n = self.ops;
        self.ops += 1;
        if let Fault::At(k, kind, sticky) = self.fault {
            if seek && n == k {
                // A destination that loses its position stays broken: the
                // destructor of the zip writer asserts that it is kept.
                self.fault = Fault::At(k, kind, true);
            }
            if n == k || sticky && n > k {
                self.hits += 1;
                return Err(Error::new(kind, "injected"));
            }
        }
        Ok(())
    }
}

impl Write for Dest {
    fn write(&mut self, data: &[u8]) -> IoResult<usize> {
        self.op(false)?;
        self.writes += 1;
        let mut n = data.len();
        match self.fault {
            Fault::Zero(k) if self.ops > k && n > 0 => {
                self.hits += 1;
                return Ok(0);
            }
            Fault::Full(size) => {
                let room = usize::try_from(size).unwrap_or(usize::MAX);
                if self.pos >= room && n > 0 {
                    self.hits += 1;
                    return Err(Error::new(ErrorKind::StorageFull, "injected: no space"));
                }
                n = n.min(room - self.pos.min(room));
            }
            Fault::Short(k) => n = n.min(k),
            Fault::Interrupted(k) if self.writes % k == 0 => {
                self.soft += 1;
                return Err(Error::new(ErrorKind::Interrupted, "injected"));
            }
            _ => {}
        }
        let end = self.pos + n;
        if self.buf.len() < end {
            self.buf.resize(end, 0);
        }
        self.buf[self.pos..end].copy_from_slice(&data[..n]);
        self.pos = end;
        Ok(n)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.op(false)?;
        if self.fault == Fault::Flush {
            self.hits += 1;
            return Err(Error::other("injected flush"));
        }
        if self.lazy {
            self.arrived.clone_from(&self.buf);
        }
        Ok(())
    }
}

impl Seek for Dest {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.op(true)?;
        if self.fault == Fault::Seek {
            self.hits += 1;
            return Err(Error::other("injected seek"));
        }
        let at = match to {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.buf.len() as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if at < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "before start"));
        }
        self.pos = at as usize;
        Ok(at as u64)
    }
}

struct Rows {
    mode: Mode,
    first: Vec<Step>,
    then: Vec<Step>,
}

fn rows(r: &mut Rng) -> Rows {
    let mode = Mode::any(r);
    let mut first = vec![];
    let mut at = 0;
    for _ in 0..1 + r.usize(6) {
        dense(r, at, &mut first);
        at = first.iter().map(|s| s.row).max().unwrap_or(0) + 1;
    }
    let mut then = vec![];
    dense(r, at + 4, &mut then);
    Rows { mode, first, then }
}

/// The first half of the calls.
fn begin(p: &Prog, extra: &[Rows]) -> Workbook {
    let mut wb = Workbook::new();
    kit::fixed_date(&mut wb);
    for s in &p.sheets {
        let ws = if s.chart_sheet {
            wb.add_chartsheet()
        } else {
            wb.add_worksheet()
        };
        let _ = ws.set_name(&s.name);
        let half = s.steps.len().div_ceil(2);
        for st in &s.steps[..half] {
            let _ = (st.f)(ws);
        }
    }
    for (i, e) in extra.iter().enumerate() {
        let ws = match e.mode {
            Mode::Std | Mode::Push => wb.add_worksheet(),
            Mode::Low | Mode::PushLow => wb.add_worksheet_with_low_memory(),
            Mode::Const | Mode::PushConst => wb.add_worksheet_with_constant_memory(),
        };
        let _ = ws.set_name(format!("extra rows {i}"));
        for st in &e.first {
            let _ = (st.f)(ws);
        }
    }
    for w in &p.wb {
        let _ = (w.f)(&mut wb);
    }
    wb
}

fn proceed(wb: &mut Workbook, p: &Prog, extra: &[Rows]) {
    for (i, s) in p.sheets.iter().enumerate() {
        let half = s.steps.len().div_ceil(2);
        if let Ok(ws) = wb.worksheet_from_index(i) {
            for st in &s.steps[half..] {
                let _ = (st.f)(ws);
            }
        }
    }
    for (i, e) in extra.iter().enumerate() {
        if let Ok(ws) = wb.worksheet_from_index(p.sheets.len() + i) {
            for st in &e.then {
                let _ = (st.f)(ws);
            }
        }
    }
}

fn plan(r: &mut Rng, ops: u64, bytes: u64) -> Fault {
    match r.below(14) {
        0 => Fault::Zero(r.below(ops.max(1))),
        1 => Fault::Full(r.below(bytes)),
        2 => Fault::Full(*r.pick(&[0, 1, bytes - 1, bytes, bytes + 1000])),
        3 => Fault::Short(*r.pick(&[1, 7, 1000])),
        4 => Fault::Interrupted(1 + r.below(5) + 1),
        5 => Fault::Flush,
        6 => Fault::Seek,
        7 => {
            let n = *r.pick(&[0, 1, 2, ops - 1, ops - 2, ops, ops + 5]);
            Fault::At(n, *r.pick(KINDS), r.bool())
        }
        _ => Fault::At(r.below(ops.max(1)), *r.pick(KINDS), r.bool()),
    }
}

/// Save to a failing destination and judge what is reported.
fn attempt(ctx: &mut Ctx, wb: &mut Workbook, fault: Fault, want: &[u8]) {
    let mut d = Dest::new(fault.clone());
    // The destination may keep what is written until it is flushed.
    let buffer = match ctx.rng.below(6) {
        0 => 1 << 20,
        1 => 100,
        2 => {
            d.lazy = true;
            0
        }
        _ => 0,
    };
    let r = if buffer > 0 {
        ctx.log(format!("  buffer {buffer}"));
        wb.save_to_writer(BufWriter::with_capacity(buffer, &mut d))
    } else {
        wb.save_to_writer(&mut d)
    };
    let lazy = d.lazy;
    let data = if lazy { &d.arrived } else { &d.buf };
    ctx.count(match (&r, d.hits > 0) {
        (Ok(()), false) => "saves without a fault",
        (Ok(()), true) => "faults after the end",
        (Err(_), _) => "failed saves",
    });
    ctx.observed += 1;
    match r {
        Ok(()) => {
            if data != want {
                let (k, m) = part_diff(data, want);
                ctx.fail(
                    &format!("success {k}"),
                    format!(
                        "{fault:?} lazy {lazy} ({} errors): the save reports success, but: {m}",
                        d.hits
                    ),
                );
            }
        }
        Err(e) => {
            let named = matches!(e, XlsxError::IoError(_) | XlsxError::ZipError(_));
            ctx.check(named && !e.to_string().is_empty(), "error kind", || {
                format!("{fault:?}: {e:?}")
            });
            ctx.check(d.hits > 0 || d.soft > 0, "needless error", || {
                format!("{fault:?}: {e}")
            });
        }
    }
}

/// Destinations in the file system that can't be written.
fn paths(ctx: &mut Ctx, wb: &mut Workbook, want: &[u8]) {
    let dir = ctx.scratch.join(format!("c27_{}", ctx.index));
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join("file");
    let _ = std::fs::write(&file, b"x");
    let mut bad = vec![
        dir.join("missing/x.xlsx"),
        dir.clone(),
        file.join("x.xlsx"),
        dir.join("a".repeat(300)),
        dir.join("nul\0.xlsx"),
        std::path::PathBuf::new(),
    ];
    use std::os::unix::fs::FileTypeExt;
    let full = std::path::PathBuf::from("/dev/full");
    if std::fs::metadata(&full).is_ok_and(|m| m.file_type().is_char_device()) {
        bad.push(full);
    }
    for p in bad {
        let r = wb.save(&p);
        ctx.check(
            matches!(r, Err(XlsxError::IoError(_) | XlsxError::ZipError(_))),
            "bad path",
            || format!("{}: {r:?}", p.display()),
        );
        ctx.count("bad paths");
    }
    let p = dir.join("good.xlsx");
    let r = wb.save(&p);
    let mut b = vec![];
    if let Ok(mut f) = std::fs::File::open(&p) {
        let _ = f.read_to_end(&mut b);
    }
    ctx.check(r.is_ok() && b == want, "good path", || {
        format!("{r:?}, {} bytes, expected {}", b.len(), want.len())
    });
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn case(ctx: &mut Ctx) {
    let all = ctx.rng.one_in(12);
    let o = Opt {
        size: if all { 2 } else { 1 + ctx.rng.usize(6) },
        sheets: if all { 1 } else { 1 + ctx.rng.usize(3) },
        scratch: Some(ctx.scratch.clone()),
        ..Opt::default()
    };
    let p = kit::prog(&mut ctx.rng, &o);
    // Saving changes what these see, see C08.
    if p.sheets.iter().any(|s| {
        s.steps.iter().any(|t| t.feature == "filter")
            && s.steps
                .iter()
                .any(|t| t.desc.contains(" fit ") || t.desc.starts_with("view 9"))
    }) {
        return;
    }
    let n = ctx.rng.usize(4);
    let extra: Vec<Rows> = (0..n).map(|_| rows(&mut ctx.rng)).collect();
    p.log(ctx);
    for e in &extra {
        ctx.log(format!("rows {:?}", e.mode));
        for s in e.first.iter().chain(&e.then) {
            ctx.log(format!("   {}", s.desc));
        }
    }

    // The twin that never sees a fault.
    let mut twin = begin(&p, &extra);
    let mut d = Dest::new(Fault::None);
    if twin.save_to_writer(&mut d).is_err() {
        return;
    }
    let (first, ops) = (d.buf, d.ops);
    ctx.artifact = Some(first.clone());
    proceed(&mut twin, &p, &extra);
    let Ok(last) = twin.save_to_buffer() else {
        return;
    };
    ctx.add("operations", ops);

    let mut wb = begin(&p, &extra);
    let bytes = first.len() as u64;
    if all && ops < 2000 {
        // Every operation fails in turn.
        ctx.count("exhaustive cases");
        for k in 0..ops {
            let kind = *ctx.rng.pick(KINDS);
            let sticky = ctx.rng.bool();
            attempt(ctx, &mut wb, Fault::At(k, kind, sticky), &first);
        }
    } else {
        for _ in 0..1 + ctx.rng.usize(8) {
            let f = plan(&mut ctx.rng, ops, bytes);
            ctx.log(format!("attempt {f:?}"));
            attempt(ctx, &mut wb, f, &first);
        }
    }
    if ctx.rng.one_in(3) {
        paths(ctx, &mut wb, &first);
    }
    // The workbook stays usable, with or without a good save between.
    if ctx.rng.bool() {
        match wb.save_to_buffer() {
            Ok(b) => {
                if b != first {
                    let (k, m) = part_diff(&b, &first);
                    ctx.fail(&format!("after faults {k}"), m);
                }
                ctx.observed += 1;
            }
            Err(e) => ctx.fail("save after faults", e.to_string()),
        }
    }
    proceed(&mut wb, &p, &extra);
    for _ in 0..ctx.rng.usize(3) {
        let f = plan(&mut ctx.rng, ops, bytes);
        ctx.log(format!("later attempt {f:?}"));
        let mut d = Dest::new(f.clone());
        let r = wb.save_to_writer(&mut d);
        ctx.check(r.is_ok() || d.hits + d.soft > 0, "needless error", || {
            format!("{f:?}: {r:?}")
        });
    }
    match wb.save_to_buffer() {
        Ok(b) => match (canon::of(&b), canon::of(&last)) {
            (Ok(x), Ok(y)) => {
                ctx.observed += y.len() as u64;
                for (part, g, w) in canon::diff(&x, &y) {
                    ctx.fail(
                        &format!("later {} {}", canon::kind(&part), canon::head(&w)),
                        format!("{part}: got {g}, expected {w}"),
                    );
                }
            }
            (Err(e), _) | (_, Err(e)) => ctx.fail("decode", e),
        },
        Err(e) => ctx.fail("save after faults", e.to_string()),
    }
    ctx.nontrivial = ops > 20;
}
