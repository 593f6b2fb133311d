//! C35 autofit widens columns to their longest cell.

use crate::gen;
use crate::mon::c16::{px_width, stored};
use crate::run::Ctx;
use crate::sheetops::{open_result, Mode, Sheets};
use rust_xlsxwriter::{
    cell_autofit_width, ExcelDateTime, Format, Formula, Table, Url, Worksheet, XlsxError,
};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum What {
    Text(String),
    Rich(Vec<String>),
    Link(String, Option<String>),
    Num(f64),
    Bool(bool),
    Check(bool),
    Date(f64),
    Formula(String),
    Array(String),
    Blank,
}

#[derive(Clone, Debug)]
enum Step {
    Cell(u32, u16, What),
    Clear(u32, u16),
    Width(u16, f64),
    Pixels(u16, u16),
    Range(u16, u16, f64),
    FitWidth(u16, u16),
    Hide(u16),
    ColFormat(u16),
    Group(u16, u16),
    Filter(u32, u16, u32, u16),
    Table(u32, u16, u32, u16, bool, bool, bool),
    Fit,
    FitMax(u16),
}

/// One possible state of the width of a column.
#[derive(Clone, Debug, PartialEq)]
struct W {
    w: f64,
    fit: bool,
}

#[derive(Default)]
struct M {
    constant: bool,
    /// Rows below this are flushed in constant memory modes.
    row: u32,
    cells: BTreeMap<(u32, u16), u32>,
    /// Cells with a drop-down, from filter and tables.
    filter: BTreeSet<(u32, u16)>,
    tables: Vec<(u32, u16, u32, u16)>,
    drops: BTreeSet<(u32, u16)>,
    /// Possible widths of the columns with a setting of any kind.
    cols: BTreeMap<u16, Vec<W>>,
    /// Columns given a width explicitly.
    explicit: BTreeSet<u16>,
    hidden: BTreeSet<u16>,
    levels: BTreeMap<u16, u8>,
    formats: BTreeSet<u16>,
    fits: u32,
}

const DEF: f64 = 8.43;
const MAX: u32 = 1790;

fn text_px(s: &str) -> u32 {
    s.replace("\r\n", "\n")
        .split('\n')
        .map(|l| u32::from(cell_autofit_width(l)) - 7)
        .max()
        .unwrap_or(0)
}

impl What {
    /// The width of the content in pixels, without the padding.
    fn px(&self) -> u32 {
        match self {
            What::Text(s) => text_px(s),
            What::Rich(v) => text_px(&v.concat()),
            What::Link(u, t) => text_px(t.as_ref().unwrap_or(u)),
            // A digit's width for every character.
            What::Num(f) => 7 * format!("{f}").len() as u32,
            What::Bool(b) | What::Check(b) => text_px(if *b { "TRUE" } else { "FALSE" }),
            // The default date format.
            What::Date(_) => text_px("31/12/1999"),
            What::Formula(s) | What::Array(s) => {
                if s == "0" {
                    0
                } else {
                    text_px(s)
                }
            }
            What::Blank => 0,
        }
    }
}

impl M {
    fn set_all(&mut self, c: u16, w: f64) {
        self.cols.insert(
            c,
            vec![W {
                w: w.min(255.0),
                fit: false,
            }],
        );
        self.explicit.insert(c);
    }
    fn touch(&mut self, c: u16) {
        self.cols
            .entry(c)
            .or_insert_with(|| vec![W { w: DEF, fit: false }]);
    }
    fn auto(&mut self, c: u16, w: f64, keep_wider: bool) {
        let explicit = self.explicit.contains(&c);
        let new = W { w, fit: true };
        let Some(v) = self.cols.get_mut(&c) else {
            self.cols.insert(c, vec![new]);
            return;
        };
        let mut out = vec![];
        for o in v.iter() {
            if o.fit {
                out.push(if keep_wider && o.w > w {
                    o.clone()
                } else {
                    new.clone()
                });
            } else if w > o.w {
                out.push(new.clone());
            } else {
                out.push(o.clone());
                // Left open: a column that has a format, level or hidden flag
                // but no width of its own.
                if !explicit {
                    out.push(new.clone());
                }
            }
        }
        out.dedup();
        *v = out;
    }
    fn autofit(&mut self, max: u32) {
        let mut best: BTreeMap<u16, u32> = BTreeMap::new();
        for ((r, c), px) in &self.cells {
            if self.constant && *r != self.row {
                continue;
            }
            let mut px = *px;
            if px == 0 {
                continue;
            }
            if self.filter.contains(&(*r, *c)) || self.drops.contains(&(*r, *c)) {
                px += 16;
            }
            px = (px + 7).min(max.min(MAX));
            let b = best.entry(*c).or_default();
            *b = (*b).max(px);
        }
        for (c, px) in best {
            if px > 0 {
                self.auto(c, px_width(px as u16), self.constant);
            }
        }
        self.fits += 1;
    }
    fn write(&mut self, r: u32, c: u16, px: u32) {
        if self.constant {
            if r < self.row {
                return;
            }
            self.row = r;
        }
        self.cells.insert((r, c), px);
    }
    fn step(&mut self, s: &Step) {
        match s {
            Step::Cell(r, c, w) => self.write(*r, *c, w.px()),
            Step::Clear(r, c) => {
                if !self.constant || *r == self.row {
                    self.cells.remove(&(*r, *c));
                }
            }
            Step::Width(c, w) => {
                if *w == 0.0 {
                    self.touch(*c);
                    self.hidden.insert(*c);
                } else {
                    self.set_all(*c, *w);
                }
            }
            Step::Pixels(c, p) => {
                if *p == 0 {
                    self.touch(*c);
                    self.hidden.insert(*c);
                } else {
                    self.set_all(*c, px_width(*p));
                }
            }
            Step::Range(a, b, w) => {
                for c in *a..=*b {
                    self.set_all(c, *w);
                }
            }
            Step::FitWidth(c, p) => {
                // As from autofit, but never kept at an earlier width.
                self.auto(*c, px_width(*p), false);
            }
            Step::Hide(c) => {
                self.touch(*c);
                self.hidden.insert(*c);
            }
            Step::ColFormat(c) => {
                self.touch(*c);
                self.formats.insert(*c);
            }
            Step::Group(a, b) => {
                for c in *a..=*b {
                    self.touch(c);
                    *self.levels.entry(c).or_default() += 1;
                }
            }
            Step::Filter(r, c, _, c2) => {
                self.filter = (*c..=*c2).map(|c| (*r, c)).collect();
            }
            Step::Table(r, c, r2, c2, header, drop, _) => {
                self.tables.push((*r, *c, *r2, *c2));
                for x in *c..=*c2 {
                    if *header {
                        let px = text_px(&format!("Column{}", x - c + 1));
                        self.write(*r, x, px);
                        if *drop {
                            self.drops.insert((*r, x));
                        }
                    }
                }
            }
            Step::Fit => self.autofit(MAX),
            Step::FitMax(n) => self.autofit(u32::from(*n)),
        }
    }
    fn blocked(&self, r: u32, c: u16, r2: u32, c2: u16) -> bool {
        let hit = self
            .tables
            .iter()
            .any(|t| t.0 <= r2 && r <= t.2 && t.1 <= c2 && c <= t.3);
        hit || self
            .filter
            .iter()
            .any(|f| f.0 >= r && f.0 <= r2 && f.1 >= c && f.1 <= c2)
    }
}

fn real(ws: &mut Worksheet, s: &Step, fits: bool) -> Result<(), XlsxError> {
    match s {
        Step::Cell(r, c, w) => {
            let (r, c) = (*r, *c);
            match w {
                What::Text(s) => ws.write(r, c, s)?,
                What::Rich(v) => {
                    let b = Format::new().set_bold();
                    let d = Format::default();
                    let p: Vec<(&Format, &str)> = v
                        .iter()
                        .enumerate()
                        .map(|(i, s)| (if i % 2 == 0 { &d } else { &b }, s.as_str()))
                        .collect();
                    ws.write_rich_string(r, c, &p)?
                }
                What::Link(u, Some(t)) => ws.write_url_with_text(r, c, Url::new(u), t)?,
                What::Link(u, None) => ws.write_url(r, c, Url::new(u))?,
                What::Num(n) => ws.write(r, c, *n)?,
                What::Bool(b) => ws.write(r, c, *b)?,
                What::Check(b) => ws.insert_checkbox(r, c, *b)?,
                What::Date(n) => {
                    let d = ExcelDateTime::from_serial_datetime(*n)?;
                    ws.write_datetime_with_format(
                        r,
                        c,
                        &d,
                        &Format::new().set_num_format("yyyy-mm-dd"),
                    )?
                }
                What::Formula(s) => ws.write_formula(r, c, Formula::new("=A1").set_result(s))?,
                What::Array(s) => {
                    ws.write_array_formula(r, c, r, c, Formula::new("=A1").set_result(s))?
                }
                What::Blank => ws.write_blank(r, c, &Format::new().set_italic())?,
            }
        }
        Step::Clear(r, c) => ws.clear_cell(*r, *c),
        Step::Width(c, w) => ws.set_column_width(*c, *w)?,
        Step::Pixels(c, p) => ws.set_column_width_pixels(*c, *p)?,
        Step::Range(a, b, w) => ws.set_column_range_width(*a, *b, *w)?,
        Step::FitWidth(c, p) => {
            if fits {
                ws.set_column_autofit_width(*c, *p)?
            } else {
                ws
            }
        }
        Step::Hide(c) => ws.set_column_hidden(*c)?,
        Step::ColFormat(c) => ws.set_column_format(*c, &Format::new().set_bold())?,
        Step::Group(a, b) => ws.group_columns(*a, *b)?,
        Step::Filter(a, b, c, d) => ws.autofilter(*a, *b, *c, *d)?,
        Step::Table(a, b, c, d, h, f, rev) => {
            let t = if *rev {
                Table::new().set_autofilter(*f).set_header_row(*h)
            } else {
                Table::new().set_header_row(*h).set_autofilter(*f)
            };
            ws.add_table(*a, *b, *c, *d, &t)?
        }
        Step::Fit => {
            if fits {
                ws.autofit()
            } else {
                ws
            }
        }
        Step::FitMax(n) => {
            if fits {
                ws.autofit_to_max_width(*n)
            } else {
                ws
            }
        }
    };
    Ok(())
}

fn line(ctx: &mut Ctx) -> String {
    match ctx.rng.below(8) {
        0 => gen::text(&mut ctx.rng, 30, gen::ALL),
        1 => {
            let n = *ctx.rng.pick(&[150, 232, 233, 234, 300, 2000]);
            let c = *ctx.rng.pick(&['a', 'i', 'W', '.', '漢']);
            c.to_string().repeat(n)
        }
        2 => " ".repeat(ctx.rng.usize(5)),
        3 => {
            let n = ctx.rng.usize(20);
            (0..n)
                .map(|_| char::from(ctx.rng.u32(32, 126) as u8))
                .collect()
        }
        _ => gen::word(&mut ctx.rng).repeat(1 + ctx.rng.usize(3)),
    }
}

fn what(ctx: &mut Ctx) -> What {
    match ctx.rng.below(16) {
        0..=3 => {
            let mut s = line(ctx);
            while ctx.rng.one_in(4) {
                s.push_str(if ctx.rng.one_in(4) { "\r\n" } else { "\n" });
                s.push_str(&line(ctx));
            }
            if s.is_empty() {
                s = "x".into();
            }
            What::Text(s)
        }
        4 => {
            let n = 1 + ctx.rng.usize(3);
            What::Rich(
                (0..n)
                    .map(|_| format!("{}{}", gen::word(&mut ctx.rng), ctx.rng.pick(&["", "\n"])))
                    .collect(),
            )
        }
        5 => {
            let u = format!("https://{}.example.com", "w".repeat(1 + ctx.rng.usize(20)));
            let t = if ctx.rng.bool() {
                Some(gen::word(&mut ctx.rng))
            } else {
                None
            };
            What::Link(u, t)
        }
        6..=8 => What::Num(match ctx.rng.below(4) {
            0 => {
                let n = gen::number(&mut ctx.rng);
                if n.is_finite() {
                    n
                } else {
                    1.0
                }
            }
            1 => -f64::from(ctx.rng.u32(0, 100_000)),
            2 => f64::from(ctx.rng.u32(0, 100_000)) / 8.0,
            _ => f64::from(ctx.rng.u32(0, 1_000_000)),
        }),
        9 => What::Bool(ctx.rng.bool()),
        10 => What::Check(ctx.rng.bool()),
        11 => What::Date(f64::from(ctx.rng.u32(61, 60_000)) / 2.0),
        12 | 13 => {
            let s = match ctx.rng.below(4) {
                0 => "0".into(),
                1 => "#N/A".into(),
                2 => format!("{}", ctx.rng.u32(0, 10_000)),
                _ => gen::word(&mut ctx.rng),
            };
            if ctx.rng.one_in(3) {
                What::Array(s)
            } else {
                What::Formula(s)
            }
        }
        _ => What::Blank,
    }
}

fn step(ctx: &mut Ctx, m: &M, fit_only: bool) -> Option<Step> {
    let far = ctx.rng.one_in(30);
    let c = if far {
        16383 - ctx.rng.u16(0, 2)
    } else {
        ctx.rng.u16(0, 7)
    };
    let c2 = (c + ctx.rng.u16(0, 3)).min(16383);
    let r = if m.constant {
        m.row + u32::from(ctx.rng.one_in(3))
    } else if far && ctx.rng.one_in(60) {
        1_048_575 - ctx.rng.u32(0, 2)
    } else {
        ctx.rng.u32(0, 12)
    };
    let free = |r: u32, c: u16| !m.tables.iter().any(|t| t.0 == r && t.1 <= c && c <= t.3);
    Some(match ctx.rng.below(if fit_only { 24 } else { 40 }) {
        0..=13 => {
            if !free(r, c) {
                return None;
            }
            Step::Cell(r, c, what(ctx))
        }
        14 => {
            if !free(r, c) || m.constant && r != m.row {
                return None;
            }
            Step::Clear(r, c)
        }
        15..=18 => Step::Fit,
        19 | 20 => Step::FitMax(*ctx.rng.pick(&[0, 1, 5, 11, 12, 20, 60, 300, 1790, 2000])),
        21..=23 => {
            let r2 = r + 1 + ctx.rng.u32(0, 3);
            if r2 >= 1_048_576 || m.blocked(r, c, r2, c2) {
                return None;
            }
            // The header cells must not hold any text of their own.
            if (c..=c2).any(|x| m.cells.contains_key(&(r, x))) {
                return None;
            }
            let (h, f) = (!ctx.rng.one_in(4), ctx.rng.bool());
            Step::Table(r, c, r2, c2, h, f, ctx.rng.bool())
        }
        24..=26 => Step::Width(c, *ctx.rng.pick(&[DEF, 0.0, 0.5, 1.0, 3.0, 12.0, 40.0, 255.0, 300.0])),
        27 | 28 => Step::Pixels(c, *ctx.rng.pick(&[0, 1, 11, 12, 24, 64, 100, 500])),
        29 => Step::Range(c, c2, *ctx.rng.pick(&[2.0, 10.0, 30.0])),
        30 => Step::FitWidth(c, *ctx.rng.pick(&[5, 30, 70, 200])),
        31 | 32 => Step::Hide(c),
        33 | 34 => Step::ColFormat(c),
        35 => {
            if c2 >= 16383 || (c..=c2).any(|x| m.levels.get(&x).is_some_and(|l| *l >= 7)) {
                return None;
            }
            Step::Group(c, c2)
        }
        _ => {
            let r2 = r + ctx.rng.u32(0, 4);
            let t = m
                .tables
                .iter()
                .any(|t| t.0 <= r2 && r <= t.2 && t.1 <= c2 && c <= t.3);
            if t || r2 >= 1_048_576 {
                return None;
            }
            Step::Filter(r, c, r2, c2)
        }
    })
}

/// The published measure is the sum of the widths of the characters.
fn measure(ctx: &mut Ctx) {
    for _ in 0..4 {
        let s = line(ctx);
        let n = s.chars().count();
        let sum: u32 = s
            .chars()
            .map(|c| u32::from(cell_autofit_width(&c.to_string())) - 7)
            .sum();
        let got = u32::from(cell_autofit_width(&s));
        let want = if n > 233 { MAX } else { sum.min(MAX) } + 7;
        ctx.eq(&got, &want, "measure", "cell_autofit_width");
        ctx.count("texts measured");
    }
}

pub fn case(ctx: &mut Ctx) {
    measure(ctx);
    let n = 1 + ctx.rng.usize(2);
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let mut twin = Sheets::new(&modes);
    let mut models = vec![];
    for (k, mode) in modes.iter().enumerate() {
        let mut m = M {
            constant: mode.constant(),
            ..M::default()
        };
        let fit_only = ctx.rng.one_in(3);
        let steps = ctx.rng.usize(40);
        for _ in 0..steps {
            let Some(s) = step(ctx, &m, fit_only) else {
                continue;
            };
            ctx.log(format!("S{k} ({mode:?}) {s:?}"));
            let a = real(sh.ws(k), &s, true);
            let b = real(twin.ws(k), &s, false);
            if let Err(e) = a.and(b) {
                return ctx.fail("rejected", format!("{s:?}: {e}"));
            }
            m.step(&s);
        }
        models.push(m);
    }
    let r = sh.save();
    let Some(b) = open_result(ctx, r) else { return };
    let r = twin.save();
    let Some(t) = open_result(ctx, r) else { return };
    for (k, m) in models.iter().enumerate() {
        let name = format!("S{k}");
        let (Some(s), Some(ts)) = (b.sheet(&name), t.sheet(&name)) else {
            return ctx.fail("sheet-missing", name);
        };
        let none: Vec<W> = vec![W { w: DEF, fit: false }];
        let mut all: BTreeSet<u16> = m.cols.keys().copied().collect();
        for c in &s.cols {
            all.extend((c.min..=c.max).map(|x| (x - 1) as u16));
        }
        for c in all {
            let want = m.cols.get(&c).unwrap_or(&none);
            let e = s.col(c);
            let hidden = m.hidden.contains(&c);
            let fit = e.is_some_and(|e| e.best_fit);
            let shown = e.and_then(|e| e.width).unwrap_or(stored(DEF));
            let ok = want.iter().any(|w| {
                let wide = (shown - stored(w.w)).abs() < 1e-9
                    || hidden && w.w == DEF && shown == 0.0;
                wide && w.fit == fit
            });
            ctx.check(ok, "width", || {
                let p: Vec<String> = want
                    .iter()
                    .map(|w| format!("{} fit {}", stored(w.w), w.fit))
                    .collect();
                format!(
                    "{name} column {}: width {shown} fit {fit}, expected {p:?}",
                    c + 1
                )
            });
            let custom = e.is_some_and(|e| e.custom);
            ctx.check(custom || shown == stored(DEF), "custom", || {
                format!("column {} isn't custom", c + 1)
            });
            // Nothing else about the column changes.
            let o = ts.col(c);
            let f = |x: Option<&crate::book::Col>| {
                x.map_or((false, 0, false, String::new()), |x| {
                    (x.hidden, x.level, x.collapsed, String::new())
                })
            };
            ctx.eq(&f(e), &f(o), "column-state", "hidden, level, collapsed");
            let st = |b: &crate::book::Book, x: Option<&crate::book::Col>| {
                b.style(x.map_or(0, |x| x.s)).clone()
            };
            ctx.check(st(&b, e) == st(&t, o), "column-format", || {
                format!("column {}", c + 1)
            });
        }
        let data = |s: &crate::book::Sheet| {
            s.xml
                .child("sheetData")
                .map(|e| e.show())
                .unwrap_or_default()
        };
        ctx.check(data(s) == data(ts), "cells", || {
            format!("{name}: autofit changed the cells")
        });
        ctx.add("cells", m.cells.len() as u64);
        ctx.add("columns", m.cols.len() as u64);
        ctx.add("autofits", u64::from(m.fits));
        ctx.nontrivial |= m.fits > 0 && m.cols.len() > 2;
    }
}
