//! C16 row and column sizes, visibility and outlines.

use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use rust_xlsxwriter::{Worksheet, XlsxError};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Default)]
struct RowM {
    ht: Option<f64>,
    hidden: bool,
    level: u32,
    collapsed: bool,
}

#[derive(Clone, Debug, PartialEq, Default)]
struct ColM {
    /// Width in characters as the API takes it.
    width: Option<f64>,
    hidden: bool,
    level: u32,
    collapsed: bool,
    fit: bool,
}

#[derive(Default)]
struct M {
    rows: BTreeMap<u32, RowM>,
    cols: BTreeMap<u16, ColM>,
    default_ht: Option<f64>,
    zero: bool,
    above: bool,
    left: bool,
}

/// Excel's stored width for a user width, for Calibri 11.
pub fn stored(w: f64) -> f64 {
    let px = if w < 1.0 {
        (w * 12.0).round()
    } else {
        (w * 7.0).round() + 5.0
    };
    (px / 7.0 * 256.0).floor() / 256.0
}

/// The pixels that Excel shows for a stored width.
fn pixels(stored: f64) -> i64 {
    (((256.0 * stored + (128.0f64 / 7.0).trunc()) / 256.0) * 7.0).trunc() as i64
}

pub fn px_width(p: u16) -> f64 {
    if p < 12 {
        f64::from(p) / 12.0
    } else {
        (f64::from(p) - 5.0) / 7.0
    }
}

fn set_w(c: &mut ColM, w: f64) {
    c.width = Some(w.min(255.0));
    c.fit = false;
}

type Res = Result<(), XlsxError>;

/// One setting applied to the sheet and the model. Returns the outcome and the
/// outcome the model expects (true for accepted).
fn setting(ctx: &mut Ctx, ws: &mut Worksheet, m: &mut M, k: usize, px: &mut BTreeMap<u16, u16>) {
    let far = ctx.rng.one_in(12);
    let r = if far {
        1_048_575 - ctx.rng.u32(0, 3)
    } else {
        ctx.rng.u32(0, 14)
    };
    let c = if far {
        16383 - ctx.rng.u16(0, 3)
    } else {
        ctx.rng.u16(0, 12)
    };
    let r2 = (r + ctx.rng.u32(0, 5)).min(1_048_575);
    let c2 = (c + ctx.rng.u16(0, 5)).min(16383);
    let what;
    let mut want = true;
    let res: Res = match ctx.rng.below(20) {
        0 | 1 => {
            let h = *ctx
                .rng
                .pick(&[15.0, 0.0, 1.0, 20.25, 409.0, 12.75, 30.0, 0.75]);
            what = format!("row {r} height {h}");
            let x = m.rows.entry(r).or_default();
            if h == 0.0 {
                x.hidden = true;
            } else {
                x.ht = Some(h);
            }
            ws.set_row_height(r, h).map(|_| ())
        }
        2 => {
            let p = *ctx.rng.pick(&[0u16, 1, 20, 21, 33, 546, 40]);
            what = format!("row {r} pixels {p}");
            let x = m.rows.entry(r).or_default();
            if p == 0 {
                x.hidden = true;
            } else {
                x.ht = Some(f64::from(p) * 0.75);
            }
            ws.set_row_height_pixels(r, p).map(|_| ())
        }
        3 => {
            what = format!("row {r} hidden");
            m.rows.entry(r).or_default().hidden = true;
            ws.set_row_hidden(r).map(|_| ())
        }
        4 => {
            what = format!("row {r} unhidden");
            m.rows.entry(r).or_default().hidden = false;
            ws.set_row_unhidden(r).map(|_| ())
        }
        5..=7 => {
            let collapse = ctx.rng.one_in(3);
            what = format!("group rows {r}..{r2} collapsed {collapse}");
            let full = (r..=r2).any(|x| m.rows.get(&x).is_some_and(|y| y.level >= 7));
            if full || collapse && r2 >= 1_048_575 {
                want = false;
            } else {
                for x in r..=r2 {
                    let y = m.rows.entry(x).or_default();
                    y.level += 1;
                    y.hidden |= collapse;
                }
                if collapse {
                    m.rows.entry(r2 + 1).or_default().collapsed = true;
                }
            }
            if collapse {
                ws.group_rows_collapsed(r, r2).map(|_| ())
            } else {
                ws.group_rows(r, r2).map(|_| ())
            }
        }
        8 | 9 => {
            let w = *ctx.rng.pick(&[
                8.43, 0.0, 1.0, 0.5, 10.0, 12.57, 255.0, 300.0, 2.71, 0.1, 64.29, 9.0, 254.95, 255.05,
            ]);
            what = format!("col {c} width {w}");
            px.remove(&c);
            let x = m.cols.entry(c).or_default();
            if w == 0.0 {
                x.hidden = true;
            } else {
                set_w(x, w);
            }
            ws.set_column_width(c, w).map(|_| ())
        }
        10 => {
            let p = match ctx.rng.below(4) {
                0 => ctx.rng.u16(0, 13),
                1 => 64,
                _ => ctx.rng.u16(0, 1790),
            };
            what = format!("col {c} pixels {p}");
            let x = m.cols.entry(c).or_default();
            if p == 0 {
                x.hidden = true;
            } else {
                set_w(x, px_width(p));
                px.insert(c, p);
            }
            ws.set_column_width_pixels(c, p).map(|_| ())
        }
        11 => {
            let p = ctx.rng.u16(1, 400);
            what = format!("col {c} autofit {p}");
            let x = m.cols.entry(c).or_default();
            let w = px_width(p);
            let user = x.width.unwrap_or(8.43);
            // Automatic widths never make a user's column narrower.
            let touched = x.width.is_some() || x.hidden || x.level > 0 || x.collapsed;
            if x.fit || !touched || w > user {
                x.width = Some(w);
                x.fit = true;
                px.insert(c, p);
            }
            ws.set_column_autofit_width(c, p).map(|_| ())
        }
        12 => {
            what = format!("col {c} hidden");
            m.cols.entry(c).or_default().hidden = true;
            ws.set_column_hidden(c).map(|_| ())
        }
        13 => {
            let w = *ctx.rng.pick(&[5.0, 20.0, 0.0, 8.43]);
            what = format!("cols {c}..{c2} width {w}");
            for x in c..=c2 {
                px.remove(&x);
                let y = m.cols.entry(x).or_default();
                if w == 0.0 {
                    y.hidden = true;
                } else {
                    set_w(y, w);
                }
            }
            ws.set_column_range_width(c, c2, w).map(|_| ())
        }
        14 => {
            let p = *ctx.rng.pick(&[5u16, 75, 100]);
            what = format!("cols {c}..{c2} pixels {p}");
            for x in c..=c2 {
                set_w(m.cols.entry(x).or_default(), px_width(p));
                px.insert(x, p);
            }
            ws.set_column_range_width_pixels(c, c2, p).map(|_| ())
        }
        15 => {
            what = format!("cols {c}..{c2} hidden");
            for x in c..=c2 {
                m.cols.entry(x).or_default().hidden = true;
            }
            ws.set_column_range_hidden(c, c2).map(|_| ())
        }
        16..=18 => {
            let collapse = ctx.rng.one_in(3);
            what = format!("group cols {c}..{c2} collapsed {collapse}");
            let full = (c..=c2).any(|x| m.cols.get(&x).is_some_and(|y| y.level >= 7));
            if full || collapse && c2 >= 16383 {
                want = false;
            } else {
                for x in c..=c2 {
                    let y = m.cols.entry(x).or_default();
                    y.level += 1;
                    y.hidden |= collapse;
                }
                if collapse {
                    m.cols.entry(c2 + 1).or_default().collapsed = true;
                }
            }
            if collapse {
                ws.group_columns_collapsed(c, c2).map(|_| ())
            } else {
                ws.group_columns(c, c2).map(|_| ())
            }
        }
        _ => {
            let on = ctx.rng.bool();
            match ctx.rng.below(3) {
                0 => {
                    what = format!("hide unused {on}");
                    m.zero = on;
                    ws.hide_unused_rows(on);
                }
                1 => {
                    what = format!("symbols above {on}");
                    m.above = on;
                    ws.group_symbols_above(on);
                }
                _ => {
                    what = format!("symbols left {on}");
                    m.left = on;
                    ws.group_symbols_to_left(on);
                }
            }
            Ok(())
        }
    };
    ctx.log(format!("S{k} {what}"));
    ctx.check(res.is_ok() == want, "verdict", || {
        format!(
            "{what}: got {res:?}, expected {}",
            if want { "success" } else { "refusal" }
        )
    });
}

pub fn case(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.usize(2);
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let mut ms: Vec<M> = vec![];
    let mut pxs: Vec<BTreeMap<u16, u16>> = vec![];
    let mut data: Vec<BTreeMap<u32, ()>> = vec![];
    for k in 0..n {
        let mut m = M::default();
        let mut px = BTreeMap::new();
        let mut d = BTreeMap::new();
        if ctx.rng.one_in(4) {
            let h = *ctx.rng.pick(&[30.0, 12.75, 15.0, 0.0, -3.0]);
            ctx.log(format!("S{k} default height {h}"));
            if h > 0.0 {
                m.default_ht = Some(h);
            }
            sh.ws(k).set_default_row_height(h);
        } else if ctx.rng.one_in(10) {
            ctx.log(format!("S{k} default pixels 50"));
            m.default_ht = Some(37.5);
            sh.ws(k).set_default_row_height_pixels(50);
        }
        let ops = 3 + ctx.rng.usize(if ctx.thorough { 45 } else { 25 });
        let late = modes[k].constant();
        for _ in 0..ops {
            setting(ctx, sh.ws(k), &mut m, k, &mut px);
            if !late && ctx.rng.one_in(4) {
                let (r, c) = (ctx.rng.u32(0, 20), ctx.rng.u16(0, 6));
                ctx.log(format!("S{k} write {r},{c}"));
                d.insert(r, ());
                let _ = sh.ws(k).write(r, c, 1);
            }
            if !late && ctx.rng.one_in(60) && !modes.iter().any(|m| m.constant()) {
                ctx.log("save");
                let _ = sh.save();
            }
        }
        if late {
            // Rows are final once passed, so the data comes last and in order.
            let mut rows: Vec<u32> = (0..ctx.rng.usize(6)).map(|_| ctx.rng.u32(0, 20)).collect();
            rows.sort_unstable();
            for r in rows {
                ctx.log(format!("S{k} write {r},1"));
                d.insert(r, ());
                let _ = sh.ws(k).write(r, 1, 1);
            }
        }
        ms.push(m);
        pxs.push(px);
        data.push(d);
    }
    let Some(b) = save_open(ctx, &mut sh) else {
        return;
    };
    for (k, m) in ms.iter().enumerate() {
        let Some(s) = b.sheets.iter().find(|s| s.name == format!("S{k}")) else {
            return ctx.fail("sheet-missing", "");
        };
        let dh = m.default_ht.unwrap_or(15.0);
        let fp = s.xml.child("sheetFormatPr");
        let got = fp.and_then(|e| e.num("defaultRowHeight"));
        ctx.eq(&got, &Some(dh), "default-height", "defaultRowHeight");
        let custom = fp.is_some_and(|e| e.flag("customHeight", false));
        ctx.check(custom || dh == 15.0, "default-height", || {
            "not custom".into()
        });
        let zero = fp.is_some_and(|e| e.flag("zeroHeight", false));
        ctx.eq(&zero, &m.zero, "zero-height", "zeroHeight");
        let lr = fp.and_then(|e| e.int("outlineLevelRow")).unwrap_or(0);
        let want = i64::from(m.rows.values().map(|r| r.level).max().unwrap_or(0));
        ctx.eq(&lr, &want, "outline-rows", "outlineLevelRow");
        let lc = fp.and_then(|e| e.int("outlineLevelCol")).unwrap_or(0);
        let want = i64::from(m.cols.values().map(|r| r.level).max().unwrap_or(0));
        ctx.eq(&lc, &want, "outline-cols", "outlineLevelCol");
        let op = s.xml.path("sheetPr/outlinePr");
        let above = !op.is_none_or(|e| e.flag("summaryBelow", true));
        let left = !op.is_none_or(|e| e.flag("summaryRight", true));
        // Symbol positions only matter where there is an outline.
        if m.rows.values().any(|r| r.level > 0) || op.is_some() {
            ctx.eq(&above, &m.above, "symbols", "summary rows above");
        }
        if m.cols.values().any(|r| r.level > 0) || op.is_some() {
            ctx.eq(&left, &m.left, "symbols", "summary columns left");
        }
        // Rows.
        let none = RowM::default();
        let mut keys: Vec<u32> = m.rows.keys().chain(s.rows.keys()).copied().collect();
        keys.sort_unstable();
        keys.dedup();
        for r in keys {
            let w = m.rows.get(&r).unwrap_or(&none);
            let known = m.rows.contains_key(&r) || data[k].contains_key(&r);
            let e = s.rows.get(&r);
            let ht = e.and_then(|e| e.ht).unwrap_or(dh);
            ctx.eq(
                &ht,
                &w.ht.unwrap_or(dh),
                "row-height",
                &format!("row {}", r + 1),
            );
            let fixed = e.is_some_and(|e| e.custom_height);
            ctx.check(fixed || w.ht.is_none_or(|h| h == dh), "row-height", || {
                format!("row {} height isn't custom", r + 1)
            });
            // Unlisted rows are hidden when unused rows are.
            let hidden = e.is_some_and(|e| e.hidden);
            ctx.eq(&hidden, &w.hidden, "row-hidden", &format!("row {}", r + 1));
            if m.zero && (data[k].contains_key(&r) || *w != none) {
                ctx.check(e.is_some(), "row-unused", || {
                    format!("used row {} is hidden", r + 1)
                });
            }
            ctx.check(!m.zero || known, "row-unused", || {
                format!("unused row {} is listed", r + 1)
            });
            let lv = e.map_or(0, |e| e.level);
            ctx.eq(&lv, &w.level, "row-level", &format!("row {}", r + 1));
            let co = e.is_some_and(|e| e.collapsed);
            ctx.eq(
                &co,
                &w.collapsed,
                "row-collapsed",
                &format!("row {}", r + 1),
            );
        }
        // Columns.
        let mut last = 0;
        for c in &s.cols {
            ctx.check(
                c.min > last && c.min <= c.max && c.max <= 16384,
                "col-order",
                || format!("{c:?} after {last}"),
            );
            last = c.max;
            for x in c.min..=c.max {
                ctx.check(m.cols.contains_key(&((x - 1) as u16)), "col-extra", || {
                    format!("column {x} was never set: {c:?}")
                });
            }
        }
        for (c, w) in &m.cols {
            let name = format!("column {}", c + 1);
            let e = s.col(*c);
            let width = e.and_then(|e| e.width);
            let want = stored(w.width.unwrap_or(8.43));
            let shown = width.unwrap_or(want);
            let by_default = w.hidden && w.width.is_none_or(|x| x == 8.43);
            if !(by_default && shown == 0.0) {
                ctx.check((shown - want).abs() < 1e-9, "col-width", || {
                    format!("{name}: {shown}, expected {want}")
                });
                if let (Some(p), false) = (pxs[k].get(c), w.hidden) {
                    if w.width == Some(px_width(*p)) {
                        let g = pixels(shown);
                        ctx.eq(&g, &i64::from(*p), "col-pixels", &name);
                    }
                }
            }
            let custom = e.is_some_and(|e| e.custom);
            ctx.check(
                custom || w.width.is_none_or(|x| x == 8.43),
                "col-custom",
                || format!("{name} width isn't custom"),
            );
            ctx.eq(&e.is_some_and(|e| e.hidden), &w.hidden, "col-hidden", &name);
            ctx.eq(&e.map_or(0, |e| e.level), &w.level, "col-level", &name);
            ctx.eq(
                &e.is_some_and(|e| e.collapsed),
                &w.collapsed,
                "col-collapsed",
                &name,
            );
            ctx.eq(&e.is_some_and(|e| e.best_fit), &w.fit, "col-fit", &name);
        }
        ctx.add("rows set", m.rows.len() as u64);
        ctx.add("columns set", m.cols.len() as u64);
        ctx.nontrivial |= m.rows.len() > 2 && m.cols.len() > 2;
    }
}
