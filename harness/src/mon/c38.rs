//! C38 drawing objects cover the rectangle requested.

use crate::book::{a1, Book, Sheet};
use crate::kit;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::open_wb;
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::{
    Button, Chart, ChartType, FilterCondition, FilterCriteria, Image, Note, ObjectMovement, Shape, Workbook, Worksheet,
};
use std::collections::BTreeMap;

const EMU: f64 = 9525.0;

/// Sizes of the cells as the saved sheet defines them, in pixels.
struct Grid {
    cols: BTreeMap<u16, (f64, bool)>,
    rows: BTreeMap<u32, (f64, bool)>,
    default_row: f64,
    /// Cells hidden are drawn as if they were visible.
    all: bool,
}

impl Grid {
    fn of(s: &Sheet, all: bool) -> Grid {
        let mut cols = BTreeMap::new();
        for c in &s.cols {
            // Sizes other than the standard width.
            let mut w = c.width.map_or(64.0, |w| (w * 7.0).round());
            if c.hidden && w == 0.0 {
                w = 64.0;
            }
            for i in c.min..=c.max.min(16384) {
                cols.insert((i - 1) as u16, (w, c.hidden));
            }
        }
        let f = s.xml.child("sheetFormatPr");
        let d = f.and_then(|x| x.num("defaultRowHeight")).unwrap_or(15.0);
        let rows = s
            .rows
            .iter()
            .map(|(k, r)| (*k, ((r.ht.unwrap_or(d) * 4.0 / 3.0).round(), r.hidden)))
            .collect();
        Grid {
            cols,
            rows,
            default_row: (d * 4.0 / 3.0).round(),
            all,
        }
    }
    fn col(&self, c: u16) -> f64 {
        match self.cols.get(&c) {
            None => 64.0,
            Some((_, true)) if !self.all => 0.0,
            Some((w, _)) => *w,
        }
    }
    fn row(&self, r: u32) -> f64 {
        match self.rows.get(&r) {
            None => self.default_row,
            Some((_, true)) if !self.all => 0.0,
            Some((h, _)) => *h,
        }
    }
    fn x(&self, c: u16) -> f64 {
        (0..c).map(|i| self.col(i)).sum()
    }
    fn y(&self, r: u32) -> f64 {
        let mut y = f64::from(r) * self.default_row;
        for i in self.rows.range(..r).map(|x| *x.0) {
            y += self.row(i) - self.default_row;
        }
        y
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Move {
    One,
    Two,
    None,
    After,
}

#[derive(Clone, Debug)]
struct Want {
    kind: &'static str,
    row: u32,
    col: u16,
    x: f64,
    y: f64,
    w: f64,
    h: f64,
    mv: Move,
}

fn movement(r: &mut Rng, d: Move) -> (Option<ObjectMovement>, Move) {
    match r.below(8) {
        0 => (Some(ObjectMovement::MoveAndSizeWithCells), Move::Two),
        1 => (Some(ObjectMovement::MoveButDontSizeWithCells), Move::One),
        2 => (Some(ObjectMovement::DontMoveOrSizeWithCells), Move::None),
        3 => (Some(ObjectMovement::MoveAndSizeWithCellsAfter), Move::After),
        _ => (None, d),
    }
}

/// Bytes of an image, its size in dots and dots per inch.
fn picture(r: &mut Rng) -> (Vec<u8>, (f64, f64), (f64, f64)) {
    let (w, h) = if r.one_in(3) {
        (32, 32)
    } else {
        (r.u32(1, 500), r.u32(1, 400))
    };
    let size = (f64::from(w), f64::from(h));
    match r.below(5) {
        0 | 1 => {
            let d = *r.pick(&[
                None,
                Some((3780u32, 3780u32)),
                Some((2835, 5906)),
                Some((11811, 11811)),
                Some((7874, 3937)),
            ]);
            let dpi = d.map_or((96.0, 96.0), |(x, y)| {
                (f64::from(x) * 0.0254, f64::from(y) * 0.0254)
            });
            (kit::png(w, h, d, b"k"), size, dpi)
        }
        2 => {
            let (u, x, y) = *r.pick(&[
                (0u8, 1u16, 1u16),
                (0, 300, 300),
                (1, 96, 96),
                (1, 72, 150),
                (2, 59, 59),
                (1, 0, 0),
            ]);
            let dpi = |v: u16| match u {
                1 if v > 1 => f64::from(v),
                2 => f64::from(v) * 2.54,
                _ => 96.0,
            };
            (
                kit::jpg(w as u16, h as u16, u, x, y, b"k"),
                size,
                (dpi(x), dpi(y)),
            )
        }
        3 => (kit::gif(w as u16, h as u16, b"k"), size, (96.0, 96.0)),
        _ => {
            // The rows may be stored from the top, with a negative height.
            let hh = if r.one_in(3) { h.wrapping_neg() } else { h };
            (kit::bmp(w, hh, b"k"), size, (96.0, 96.0))
        }
    }
}

/// The sizes requested so far, for images that take the size of their cell.
#[derive(Clone, Default)]
struct Sizes {
    cols: BTreeMap<u16, u32>,
    hidden_cols: BTreeMap<u16, bool>,
    rows: BTreeMap<u32, u32>,
    hidden_rows: BTreeMap<u32, bool>,
    default_row: u32,
}

fn place(r: &mut Rng) -> (u32, u16, u32, u32) {
    let row = match r.below(10) {
        0 => 0,
        1 => 1,
        2 => r.u32(1000, 900_000),
        _ => r.u32(0, 30),
    };
    let col = match r.below(10) {
        0 => 0,
        1 => r.u16(700, 9000),
        _ => r.u16(0, 20),
    };
    let off = |r: &mut Rng| match r.below(5) {
        0 | 1 => 0,
        2 => r.u32(1, 19),
        3 => r.u32(19, 66),
        _ => r.u32(1, 2000),
    };
    let (x, y) = (off(r), off(r));
    (row, col, x, y)
}

fn sizes(ctx: &mut Ctx, ws: &mut Worksheet, z: &mut Sizes, rows: bool) -> bool {
    let r = &mut ctx.rng;
    let mut ok = true;
    for _ in 0..r.u16(0, 5) {
        let c = if r.one_in(8) { r.u16(700, 9000) } else { r.u16(0, 24) };
        match r.below(4) {
            0 => {
                let px = match r.below(4) {
                    0 => r.u16(1, 12),
                    _ => r.u16(13, 300),
                };
                ctx.log.push(format!("column {c} {px} px"));
                ok &= ws.set_column_width_pixels(c, px).is_ok();
                z.cols.insert(c, u32::from(px));
            }
            1 => {
                let w = f64::from(r.u16(1, 400)) / 8.0;
                ctx.log.push(format!("column {c} {w} chars"));
                ok &= ws.set_column_width(c, w).is_ok();
                let px = if w < 1.0 {
                    (w * 12.0).round()
                } else {
                    (w * 7.0).round() + 5.0
                };
                z.cols.insert(c, px as u32);
            }
            2 => {
                ctx.log.push(format!("column {c} hidden"));
                ok &= ws.set_column_hidden(c).is_ok();
                z.hidden_cols.insert(c, true);
            }
            _ => {
                let e = r.u16(c, c + 5);
                let px = r.u16(1, 120);
                ctx.log.push(format!("columns {c} to {e} {px} px"));
                ok &= ws.set_column_range_width_pixels(c, e, px).is_ok();
                for i in c..=e {
                    z.cols.insert(i, u32::from(px));
                }
            }
        }
    }
    if rows {
        for _ in 0..r.u16(0, 5) {
            let row = if r.one_in(8) { r.u32(1000, 900_000) } else { r.u32(0, 40) };
            if r.one_in(4) {
                ctx.log.push(format!("row {row} hidden"));
                ok &= ws.set_row_hidden(row).is_ok();
                z.hidden_rows.insert(row, true);
            } else {
                let px = r.u16(1, 200);
                ctx.log.push(format!("row {row} {px} px"));
                ok &= ws.set_row_height_pixels(row, px).is_ok();
                z.rows.insert(row, u32::from(px));
            }
        }
    }
    ok
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

/// Compare a rectangle given by cells and offsets in pixels.
fn rect(ctx: &mut Ctx, g: &Grid, from: (i64, f64, i64, f64), to: (i64, f64, i64, f64), w: &Want, tol: f64, at: &str) {
    let lim = |c: i64, r: i64| (0..=70000).contains(&c) && (0..1_100_000).contains(&r);
    if !lim(from.0, from.2) || !lim(to.0, to.2) {
        ctx.fail("cells", format!("{at}: from {from:?} to {to:?}"));
        return;
    }
    for (n, p) in [("from", from), ("to", to)] {
        let (cw, rh) = (g.col(p.0 as u16), g.row(p.2 as u32));
        ctx.check(p.1 >= 0.0 && p.3 >= 0.0 && p.1 < cw.max(0.1) + tol && p.3 < rh.max(0.1) + tol, "inside", || {
            format!("{at}: {n} {p:?} is outside its cell of {cw} x {rh}")
        });
    }
    let (x1, y1) = (g.x(from.0 as u16) + from.1, g.y(from.2 as u32) + from.3);
    let (x2, y2) = (g.x(to.0 as u16) + to.1, g.y(to.2 as u32) + to.3);
    let (ex, ey) = (g.x(w.col) + w.x, g.y(w.row) + w.y);
    ctx.check(near(x1, ex, tol) && near(y1, ey, tol), "start", || {
        format!("{at}: starts at ({x1}, {y1}) instead of ({ex}, {ey}): {w:?}")
    });
    ctx.check(near(x2 - x1, w.w, tol) && near(y2 - y1, w.h, tol), "size", || {
        format!("{at}: is {} x {} pixels instead of {} x {}: {w:?}", x2 - x1, y2 - y1, w.w, w.h)
    });
    ctx.count("rectangles compared");
}

/// Points of a VML style property.
fn style(e: &Elem, k: &str) -> Option<f64> {
    e.a("style").split(';').find_map(|p| {
        let (n, v) = p.trim().split_once(':')?;
        if n.trim() == k {
            v.trim().trim_end_matches("pt").parse().ok()
        } else {
            None
        }
    })
}

fn check(ctx: &mut Ctx, b: &Book, s: &Sheet, want: &BTreeMap<String, Want>, at: &str) {
    let seen_grid = Grid::of(s, false);
    let all_grid = Grid::of(s, true);
    let mut left: BTreeMap<String, Want> = want.clone();
    if let Some(d) = b.drawing(s) {
        for a in d.anchors() {
            let Some(nv) = a.elem.find_all("xdr:cNvPr").first().copied() else {
                ctx.fail("properties", format!("{at}: object without properties"));
                continue;
            };
            let id = nv.attr("descr").map(xstring).unwrap_or_default();
            let Some(w) = left.remove(&id) else {
                ctx.fail("extra", format!("{at}: object {id:?} again or never requested"));
                continue;
            };
            let me = format!("{at} {} {id:?}", w.kind);
            let kind = match a.elem.elems().map(Elem::local).find(|n| {
                matches!(*n, "pic" | "graphicFrame" | "sp")
            }) {
                Some("pic") => "image",
                Some("graphicFrame") => "chart",
                Some("sp") => "shape",
                _ => "?",
            };
            ctx.eq(&kind, &w.kind, "kind", &me);
            let edit = match w.mv {
                Move::One => "oneCell",
                Move::None => "absolute",
                Move::Two | Move::After => "twoCell",
            };
            ctx.eq(&a.edit.as_str(), &edit, "movement", &me);
            let g = if w.mv == Move::After { &all_grid } else { &seen_grid };
            rect(
                ctx,
                g,
                (i64::from(a.col), a.x as f64 / EMU, i64::from(a.row), a.y as f64 / EMU),
                (i64::from(a.to_col), a.to_x as f64 / EMU, i64::from(a.to_row), a.to_y as f64 / EMU),
                &w,
                1.6 / EMU,
                &me,
            );
            if kind == "image" || kind == "shape" {
                let n = |p: &str, k: &str| {
                    a.elem
                        .find_all("xdr:spPr")
                        .first()
                        .and_then(|x| x.path(p))
                        .and_then(|x| x.num(k))
                        .unwrap_or(-1.0)
                        / EMU
                };
                let got = (n("a:xfrm/a:ext", "cx"), n("a:xfrm/a:ext", "cy"));
                ctx.check(
                    near(got.0, w.w, 1.6 / EMU) && near(got.1, w.h, 1.6 / EMU),
                    "extent",
                    || format!("{me}: extent {got:?}: {w:?}"),
                );
                let got = (n("a:xfrm/a:off", "x"), n("a:xfrm/a:off", "y"));
                let e = (g.x(w.col) + w.x, g.y(w.row) + w.y);
                ctx.check(
                    near(got.0, e.0, 1.6 / EMU) && near(got.1, e.1, 1.6 / EMU),
                    "position",
                    || format!("{me}: position {got:?} instead of {e:?}: {w:?}"),
                );
            }
        }
    }
    if let Some(part) = s
        .xml
        .child("legacyDrawing")
        .and_then(|x| s.rel(x.a("r:id")))
        .map(|r| r.part.clone())
    {
        match b.pkg.xml(&part) {
            Err(e) => ctx.fail("vml", format!("{at}: {e}")),
            Ok(x) => {
                for e in x.children("v:shape") {
                    let id = e.attr("alt").map(xstring).unwrap_or_default();
                    let Some(w) = left.remove(&id) else {
                        ctx.fail("extra", format!("{at}: object {id:?} again or never requested"));
                        continue;
                    };
                    let me = format!("{at} {} {id:?}", w.kind);
                    let Some(c) = e.child("x:ClientData") else {
                        ctx.fail("vml", format!("{me}: no client data"));
                        continue;
                    };
                    let kind = if c.a("ObjectType") == "Note" { "note" } else { "button" };
                    ctx.eq(&kind, &w.kind, "kind", &me);
                    let n: Vec<f64> = c
                        .child_text("x:Anchor")
                        .unwrap_or_default()
                        .split(',')
                        .filter_map(|v| v.trim().parse().ok())
                        .collect();
                    if n.len() != 8 {
                        ctx.fail("vml", format!("{me}: anchor {n:?}"));
                        continue;
                    }
                    // Present when the object does not follow the cells.
                    let stay = c.child("x:MoveWithCells").is_some();
                    let keep = c.child("x:SizeWithCells").is_some();
                    let want_flags = match w.mv {
                        Move::One => (false, true),
                        Move::None => (true, true),
                        Move::Two | Move::After => (false, false),
                    };
                    ctx.eq(&(stay, keep), &want_flags, "movement", &me);
                    let g = if w.mv == Move::After { &all_grid } else { &seen_grid };
                    rect(
                        ctx,
                        g,
                        (n[0] as i64, n[1], n[2] as i64, n[3]),
                        (n[4] as i64, n[5], n[6] as i64, n[7]),
                        &w,
                        1e-6,
                        &me,
                    );
                    let e2 = (g.x(w.col) + w.x, g.y(w.row) + w.y);
                    for (k, v) in [("margin-left", e2.0), ("margin-top", e2.1), ("width", w.w), ("height", w.h)] {
                        let got = style(e, k);
                        ctx.check(got.is_some_and(|x| near(x, v * 0.75, 1e-6)), "style", || {
                            format!("{me}: {k} {got:?} instead of {}: {w:?}", v * 0.75)
                        });
                    }
                }
            }
        }
    }
    for (k, w) in left {
        ctx.fail("missing", format!("{at}: object {k:?} is missing: {w:?}"));
    }
}

pub fn case(ctx: &mut Ctx) {
    let mut wb = Workbook::new();
    kit::fixed_date(&mut wb);
    let n = ctx.rng.u16(1, 3) as usize;
    let mut zs: Vec<Sizes> = vec![];
    let mut wants: Vec<BTreeMap<String, Want>> = vec![BTreeMap::new(); n];
    let modes: Vec<u64> = (0..n).map(|_| ctx.rng.below(8)).collect();
    for i in 0..n {
        let ws = match modes[i] {
            0 => wb.add_worksheet_with_constant_memory(),
            1 => wb.add_worksheet_with_low_memory(),
            _ => wb.add_worksheet(),
        };
        let mut z = Sizes {
            default_row: 20,
            ..Default::default()
        };
        if ctx.rng.one_in(4) {
            let px = ctx.rng.u16(5, 60);
            ctx.log.push(format!("sheet {i} default row {px} px"));
            ws.set_default_row_height_pixels(px);
            z.default_row = u32::from(px);
        }
        if !sizes(ctx, ws, &mut z, true) {
            ctx.fail("sizes", "a size was refused");
            return;
        }
        // Text for columns fitted to it.
        if ctx.rng.one_in(6) && modes[i] > 1 {
            let _ = ws.write_string(3, 2, "a fairly long text in the cell");
            ws.autofit();
            z.cols.remove(&2);
        }
        // Rows hidden by a filter.
        if ctx.rng.one_in(4) && modes[i] > 1 {
            let limit = ctx.rng.u16(0, 12);
            ctx.log(format!("sheet {i} filter above {limit}"));
            for row in 0..12u16 {
                let _ = ws.write_number(u32::from(row) + 6, 3, row);
                z.hidden_rows.insert(u32::from(row) + 6, true);
            }
            let _ = ws.write_string(5, 3, "Head");
            let _ = ws.autofilter(5, 3, 17, 3);
            let _ = ws.filter_column(
                3,
                &FilterCondition::new().add_custom_filter(FilterCriteria::GreaterThan, f64::from(limit)),
            );
        }
        zs.push(z);
    }
    let mut id = 0;
    let saves = ctx.rng.u16(1, 2);
    for save in 0..saves {
        for _ in 0..ctx.rng.u16(u16::from(save == 0), 8) {
            let i = ctx.rng.usize(n);
            id += 1;
            let alt = format!("obj {id}");
            let (row, col, x, y) = place(&mut ctx.rng);
            let kind = ctx.rng.below(6);
            let Ok(ws) = wb.worksheet_from_index(i) else { return };
            let r = &mut ctx.rng;
            let mut w = Want {
                kind: "",
                row,
                col,
                x: f64::from(x),
                y: f64::from(y),
                w: 0.0,
                h: 0.0,
                mv: Move::One,
            };
            let size = |r: &mut Rng| match r.below(3) {
                0 => r.u32(5, 40),
                1 => r.u32(40, 300),
                _ => r.u32(300, 3000),
            };
            let res = match kind {
                0 | 1 => {
                    w.kind = "image";
                    let (bytes, dots, dpi) = picture(r);
                    let Ok(mut im) = Image::new_from_buffer(&bytes) else {
                        ctx.fail("image", "image refused");
                        return;
                    };
                    im = im.set_alt_text(&alt);
                    let (m, mv) = movement(r, Move::One);
                    if let Some(m) = m {
                        im = im.set_object_movement(m);
                    }
                    w.mv = mv;
                    let mut scale = (1.0, 1.0);
                    if r.one_in(3) {
                        scale = (
                            f64::from(r.u16(1, 30)) / 10.0,
                            f64::from(r.u16(1, 30)) / 7.0,
                        );
                        im = im.set_scale_width(scale.0).set_scale_height(scale.1);
                    }
                    if r.one_in(4) {
                        let (a, b) = (size(r), size(r));
                        let keep = r.pct(50);
                        im = im.set_scale_to_size(a, b, keep);
                        scale = (
                            f64::from(a) / dots.0 * dpi.0 / 96.0,
                            f64::from(b) / dots.1 * dpi.1 / 96.0,
                        );
                        if keep {
                            let m = scale.0.min(scale.1);
                            scale = (m, m);
                        }
                    }
                    let z = &zs[i];
                    let hidden = z.hidden_cols.contains_key(&col) || z.hidden_rows.contains_key(&row);
                    if r.one_in(4) && !hidden && col != 2 {
                        let keep = r.pct(50);
                        let cw = z.cols.get(&col).copied().unwrap_or(64);
                        let rh = z.rows.get(&row).copied().unwrap_or(z.default_row);
                        scale = (
                            f64::from(cw) / dots.0 * dpi.0 / 96.0,
                            f64::from(rh) / dots.1 * dpi.1 / 96.0,
                        );
                        if keep {
                            let m = scale.0.min(scale.1);
                            scale = (m, m);
                        }
                        w.x = 0.0;
                        w.y = 0.0;
                        w.w = dots.0 * scale.0 * 96.0 / dpi.0;
                        w.h = dots.1 * scale.1 * 96.0 / dpi.1;
                        ws.insert_image_fit_to_cell(row, col, &im, keep).map(|_| ())
                    } else {
                        w.w = dots.0 * scale.0 * 96.0 / dpi.0;
                        w.h = dots.1 * scale.1 * 96.0 / dpi.1;
                        ws.insert_image_with_offset(row, col, &im, x, y).map(|_| ())
                    }
                }
                2 => {
                    w.kind = "chart";
                    let mut c = Chart::new(ChartType::Line);
                    c.add_series().set_values("Sheet1!$A$1:$A$3");
                    c.set_alt_text(&alt);
                    let (m, mv) = movement(r, Move::Two);
                    w.mv = if m.is_some() { mv } else { Move::Two };
                    if let Some(m) = m {
                        c.set_object_movement(m);
                    }
                    let mut sz = (480.0, 288.0);
                    if r.pct(50) {
                        let (a, b) = (size(r), size(r));
                        c.set_width(a).set_height(b);
                        sz = (f64::from(a), f64::from(b));
                    }
                    if r.one_in(3) {
                        let (a, b) = (f64::from(r.u16(1, 30)) / 10.0, f64::from(r.u16(1, 30)) / 7.0);
                        c.set_scale_width(a).set_scale_height(b);
                        sz = (sz.0 * a, sz.1 * b);
                    }
                    (w.w, w.h) = sz;
                    ws.insert_chart_with_offset(row, col, &c, x, y).map(|_| ())
                }
                3 => {
                    w.kind = "shape";
                    let mut c = Shape::textbox().set_alt_text(&alt);
                    let (m, mv) = movement(r, Move::Two);
                    if let Some(m) = m {
                        c = c.set_object_movement(m);
                    }
                    w.mv = mv;
                    (w.w, w.h) = (192.0, 120.0);
                    if r.pct(60) {
                        let (a, b) = (size(r), size(r));
                        c = c.set_width(a).set_height(b);
                        (w.w, w.h) = (f64::from(a), f64::from(b));
                    }
                    ws.insert_shape_with_offset(row, col, &c, x, y).map(|_| ())
                }
                4 => {
                    w.kind = "button";
                    let mut c = Button::new().set_alt_text(&alt);
                    let (m, mv) = movement(r, Move::Two);
                    if let Some(m) = m {
                        c = c.set_object_movement(m);
                    }
                    w.mv = mv;
                    (w.w, w.h) = (64.0, 20.0);
                    if r.pct(60) {
                        let (a, b) = (size(r), size(r));
                        c = c.set_width(a).set_height(b);
                        (w.w, w.h) = (f64::from(a), f64::from(b));
                    }
                    ws.insert_button_with_offset(row, col, &c, x, y).map(|_| ())
                }
                _ => {
                    w.kind = "note";
                    if wants[i].values().any(|o| o.kind == "note" && o.row == row.max(1) - 1 && o.col == col + 1) {
                        continue;
                    }
                    let mut c = Note::new("n").set_alt_text(&alt);
                    let (m, mv) = movement(r, Move::None);
                    if let Some(m) = m {
                        c = c.set_object_movement(m);
                    }
                    w.mv = mv;
                    (w.w, w.h) = (128.0, 74.0);
                    if r.pct(60) {
                        let (a, b) = (size(r), size(r));
                        c = c.set_width(a).set_height(b);
                        (w.w, w.h) = (f64::from(a), f64::from(b));
                    }
                    // Next to the cell, a little higher, as in Excel.
                    w.col = col + 1;
                    w.row = row.max(1) - 1;
                    (w.x, w.y) = (15.0, if row == 0 { 2.0 } else { 10.0 });
                    ws.insert_note(row, col, &c).map(|_| ())
                }
            };
            ctx.log(format!("sheet {i} {alt}: {w:?}"));
            if let Err(e) = res {
                ctx.fail("refused", format!("{w:?}: {e}"));
                return;
            }
            // An object at the very same place takes the place of the former.
            wants[i].retain(|_, o| {
                !(o.kind == w.kind
                    && (o.row, o.col) == (w.row, w.col)
                    && (w.kind == "note" || (o.x, o.y) == (w.x, w.y)))
            });
            wants[i].insert(alt, w);
        }
        // Sizes set after the objects count as well.
        for i in 0..n {
            if ctx.rng.one_in(2) {
                let Ok(ws) = wb.worksheet_from_index(i) else { return };
                if !sizes(ctx, ws, &mut zs[i], modes[i] > 1) {
                    ctx.fail("sizes", "a size was refused");
                    return;
                }
            }
        }
        let Some(b) = open_wb(ctx, &mut wb) else { return };
        for (i, w) in wants.iter().enumerate() {
            let Some(s) = b.sheets.get(i) else {
                ctx.fail("sheet", format!("no sheet {i}"));
                return;
            };
            check(ctx, &b, s, w, &format!("save {save} sheet {i}"));
        }
    }
    ctx.nontrivial = wants.iter().map(BTreeMap::len).sum::<usize>() > 1;
    let _ = a1(0, 0);
}
