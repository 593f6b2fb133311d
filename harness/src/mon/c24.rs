//! C24 sparklines.

use crate::book::{a1, parse_a1, parse_sheet_range, Sheet};
use crate::gen;
use crate::mon::c20::same_text;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use crate::xml::Elem;
use rust_xlsxwriter::{
    ChartEmptyCells, ConditionalFormatDataBar, Sparkline, SparklineType, XlsxError,
};
use std::collections::{BTreeMap, BTreeSet};

type Cell = (u32, u16);
type Range = (String, (u32, u16, u32, u16));

#[derive(Clone, Debug, PartialEq)]
struct Want {
    attrs: BTreeMap<&'static str, String>,
    colors: BTreeMap<&'static str, String>,
    date: Option<Range>,
    cells: Vec<(Cell, Range)>,
}

const FLAGS: [(&str, &str); 8] = [
    ("markers", "0"),
    ("high", "0"),
    ("low", "0"),
    ("first", "0"),
    ("last", "0"),
    ("negative", "0"),
    ("displayXAxis", "0"),
    ("displayHidden", "0"),
];

fn theme(c: u8, s: u8) -> String {
    let t = gen::theme_tint(c, s);
    if t.is_empty() {
        format!("theme={c}")
    } else {
        format!("theme={c} tint={t}")
    }
}

/// The colors of Excel's built-in sparkline styles: low, high, last, first,
/// markers, negative, series.
fn style(n: u8) -> Option<[String; 7]> {
    let next = |b: u8| if b == 9 { 4 } else { b + 1 };
    let rgb = |v: [&str; 7]| Some(v.map(|c| format!("rgb=FF{c}")));
    let same = |c: &'static str, s: &'static str| rgb([c, c, c, c, c, c, s]);
    let all = |c: [(u8, u8); 7]| Some(c.map(|(a, b)| theme(a, b)));
    match n {
        1..=6 => {
            let b = 3 + n;
            all([(b, 0), (b, 0), (b, 3), (b, 3), (b, 5), (next(b), 0), (b, 5)])
        }
        7..=12 => {
            let b = n - 3;
            let c = next(b);
            all([(c, 4), (c, 4), (c, 4), (c, 4), (c, 4), (c, 0), (b, 4)])
        }
        13..=18 => {
            let b = n - 9;
            all([(b, 4), (b, 4), (b, 4), (b, 4), (b, 4), (next(b), 0), (b, 0)])
        }
        19..=24 => {
            let b = n - 15;
            all([(b, 5), (b, 5), (b, 4), (b, 4), (b, 1), (0, 5), (b, 3)])
        }
        25 => all([(1, 3), (1, 3), (1, 3), (1, 3), (1, 3), (1, 3), (1, 1)]),
        26 => all([(0, 3), (0, 3), (0, 3), (0, 3), (0, 3), (0, 3), (1, 2)]),
        27 => same("D00000", "323232"),
        28 => same("0070C0", "000000"),
        29 => same("D00000", "376092"),
        30 => same("000000", "0070C0"),
        31 => rgb(["FF5055", "56BE79", "359CEB", "5687C2", "D70077", "FFB620", "5F5F5F"]),
        32 => rgb(["FF5055", "56BE79", "359CEB", "777777", "D70077", "FFB620", "5687C2"]),
        33 => rgb(["FF5367", "60D276", "FFEB9C", "FFDC47", "8CADD6", "FFC7CE", "C6EFCE"]),
        34 => rgb(["FF0000", "00B050", "FFC000", "FFC000", "0070C0", "FF0000", "00B050"]),
        35 | 36 => {
            let s = if n == 35 { 3 } else { 1 };
            all([(7, 0), (6, 0), (5, 0), (4, 0), (8, 0), (9, 0), (s, 0)])
        }
        _ => None,
    }
}

const STYLED: [&str; 7] = [
    "colorLow",
    "colorHigh",
    "colorLast",
    "colorFirst",
    "colorMarkers",
    "colorNegative",
    "colorSeries",
];

fn limit(r: &mut Rng) -> f64 {
    match r.below(3) {
        0 => f64::from(r.u16(0, 100)),
        1 => -f64::from(r.u16(0, 1000)) / 4.0,
        _ => gen::number(r),
    }
}

/// The options set on a sparkline, and what is expected of them.
fn options(r: &mut Rng, mut s: Sparkline, w: &mut Want) -> Sparkline {
    for _ in 0..r.u8(0, 10) {
        let on = r.pct(70);
        let bit = u8::from(on).to_string();
        let (c, cf) = gen::color(r);
        // A color that isn't valid is ignored.
        match r.below(23) {
            0 => {
                let (t, n) = *r.pick(&[
                    (SparklineType::Line, "line"),
                    (SparklineType::Column, "column"),
                    (SparklineType::WinLose, "stacked"),
                ]);
                s = s.set_type(t);
                w.attrs.insert("type", n.into());
            }
            1 => {
                s = s.show_high_point(on);
                w.attrs.insert("high", bit);
            }
            2 => {
                s = s.show_low_point(on);
                w.attrs.insert("low", bit);
            }
            3 => {
                s = s.show_first_point(on);
                w.attrs.insert("first", bit);
            }
            4 => {
                s = s.show_last_point(on);
                w.attrs.insert("last", bit);
            }
            5 => {
                s = s.show_negative_points(on);
                w.attrs.insert("negative", bit);
            }
            6 => {
                s = s.show_markers(on);
                w.attrs.insert("markers", bit);
            }
            7 => {
                s = s.show_axis(on);
                w.attrs.insert("displayXAxis", bit);
            }
            8 => {
                s = s.show_hidden_data(on);
                w.attrs.insert("displayHidden", bit);
            }
            9 => {
                let (e, n) = *r.pick(&[
                    (ChartEmptyCells::Gaps, "gap"),
                    (ChartEmptyCells::Zero, "zero"),
                    (ChartEmptyCells::Connected, "span"),
                ]);
                s = s.show_empty_cells_as(e);
                w.attrs.insert("displayEmptyCellsAs", n.into());
            }
            10 => {
                s = s.set_right_to_left(on);
                w.attrs.insert("rightToLeft", bit);
            }
            11 => {
                s = s.set_sparkline_color(c);
                w.colors.insert("colorSeries", cf);
            }
            12 => {
                s = s.set_high_point_color(c);
                w.colors.insert("colorHigh", cf);
                w.attrs.insert("high", "1".into());
            }
            13 => {
                s = s.set_low_point_color(c);
                w.colors.insert("colorLow", cf);
                w.attrs.insert("low", "1".into());
            }
            14 => {
                s = s.set_first_point_color(c);
                w.colors.insert("colorFirst", cf);
                w.attrs.insert("first", "1".into());
            }
            15 => {
                s = s.set_last_point_color(c);
                w.colors.insert("colorLast", cf);
                w.attrs.insert("last", "1".into());
            }
            16 => {
                s = s.set_negative_points_color(c);
                w.colors.insert("colorNegative", cf);
                w.attrs.insert("negative", "1".into());
            }
            17 => {
                s = s.set_markers_color(c);
                w.colors.insert("colorMarkers", cf);
                w.attrs.insert("markers", "1".into());
            }
            18 => {
                let v = f64::from(r.u16(1, 60)) / 8.0;
                s = s.set_line_weight(v);
                w.attrs.insert("lineWeight", v.to_string());
            }
            19 => {
                let v = limit(r);
                s = s.set_custom_max(v);
                w.attrs.insert("maxAxisType", "custom".into());
                w.attrs.insert("manualMax", v.to_string());
            }
            20 => {
                let v = limit(r);
                s = s.set_custom_min(v);
                w.attrs.insert("minAxisType", "custom".into());
                w.attrs.insert("manualMin", v.to_string());
            }
            21 => {
                let (kind, value) = if on {
                    ("maxAxisType", "manualMax")
                } else {
                    ("minAxisType", "manualMin")
                };
                let set = r.pct(70);
                s = if on { s.set_group_max(set) } else { s.set_group_min(set) };
                if set {
                    w.attrs.insert(kind, "group".into());
                    w.attrs.remove(value);
                } else if w.attrs.get(kind).is_some_and(|v| v == "group") {
                    w.attrs.insert(kind, "individual".into());
                }
            }
            _ => {
                let n = r.u8(0, 38);
                s = s.set_style(n);
                if let Some(c) = style(n) {
                    for (k, v) in STYLED.iter().zip(c) {
                        w.colors.insert(k, v);
                    }
                }
            }
        }
    }
    s
}

fn found(ctx: &mut Ctx, s: &Sheet, at: &str) -> Vec<Want> {
    let mut out = vec![];
    let groups: Vec<&Elem> = s.xml.find_all("x14:sparklineGroup");
    let boxes = s.xml.find_all("x14:sparklineGroups").len();
    ctx.check(boxes <= 1, "groups", || format!("{at}: {boxes} lists of groups"));
    for g in groups {
        let mut w = Want {
            attrs: BTreeMap::new(),
            colors: BTreeMap::new(),
            date: None,
            cells: vec![],
        };
        for (k, d) in FLAGS.into_iter().chain([
            ("rightToLeft", "0"),
            ("type", "line"),
            ("displayEmptyCellsAs", "zero"),
            ("minAxisType", "individual"),
            ("maxAxisType", "individual"),
            ("lineWeight", "0.75"),
        ]) {
            w.attrs.insert(k, g.attr(k).unwrap_or(d).to_string());
        }
        for (k, t) in [("manualMin", "minAxisType"), ("manualMax", "maxAxisType")] {
            if let (Some(v), Some("custom")) = (g.attr(k), g.attr(t)) {
                w.attrs.insert(k, v.to_string());
            }
        }
        for k in STYLED.into_iter().chain(["colorAxis"]) {
            if let Some(e) = g.child(&format!("x14:{k}")) {
                let mut f = vec![];
                for a in ["auto", "indexed", "rgb", "theme", "tint"] {
                    if let Some(v) = e.attr(a) {
                        f.push(format!("{a}={v}"));
                    }
                }
                w.colors.insert(k, f.join(" "));
            }
        }
        let date = g.child_text("xm:f");
        let flag = g.flag("dateAxis", false);
        ctx.eq(&flag, &date.is_some(), "date axis", at);
        w.date = date.as_deref().and_then(parse_sheet_range).map(|(n, r, _)| (n, r));
        for c in g.path("x14:sparklines").iter().flat_map(|l| l.children("x14:sparkline")) {
            let f = c.child_text("xm:f").unwrap_or_default();
            let q = c.child_text("xm:sqref").unwrap_or_default();
            match (parse_a1(&q), parse_sheet_range(&f)) {
                (Some(cell), Some((n, r, _))) => w.cells.push((cell, (n, r))),
                _ => ctx.fail("ranges", format!("{at}: sparkline at {q:?} for {f:?}")),
            }
        }
        out.push(w);
    }
    out
}

fn same(a: &Want, b: &Want) -> bool {
    a.cells == b.cells
        && a.date == b.date
        && a.colors == b.colors
        && a.attrs.len() == b.attrs.len()
        && a.attrs.iter().zip(&b.attrs).all(|(x, y)| x.0 == y.0 && same_text(x.1, y.1))
}

pub fn case(ctx: &mut Ctx) {
    let n = ctx.rng.u16(1, 3) as usize;
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    for i in 0..n {
        if ctx.rng.one_in(2) {
            let name = gen::sheet_name(&mut ctx.rng, i);
            if sh.ws(i).set_name(&name).is_ok() {
                sh.names[i] = name;
            }
        }
    }
    let mut wants: Vec<Vec<Want>> = vec![vec![]; n];
    let mut used: Vec<BTreeSet<Cell>> = vec![BTreeSet::new(); n];
    let mut bars = vec![0; n];
    let saves = ctx.rng.u16(1, 2);
    let mut groups = 0;
    for save in 0..saves {
        for _ in 0..ctx.rng.u16(1, 8) {
            let i = ctx.rng.usize(n);
            if ctx.rng.one_in(5) {
                let (r1, c1) = (ctx.rng.u32(0, 30), ctx.rng.u16(0, 20));
                let (r2, c2) = (r1 + ctx.rng.u32(0, 5), c1 + ctx.rng.u16(0, 5));
                ctx.log(format!("sheet {i}: data bar"));
                if sh.ws(i).add_conditional_format(r1, c1, r2, c2, &ConditionalFormatDataBar::new()).is_ok() {
                    bars[i] += 1;
                }
                continue;
            }
            let r = &mut ctx.rng;
            let mut w = Want {
                attrs: BTreeMap::new(),
                colors: BTreeMap::new(),
                date: None,
                cells: vec![],
            };
            for (k, d) in FLAGS.into_iter().chain([
                ("rightToLeft", "0"),
                ("type", "line"),
                ("displayEmptyCellsAs", "gap"),
                ("minAxisType", "individual"),
                ("maxAxisType", "individual"),
                ("lineWeight", "0.75"),
            ]) {
                w.attrs.insert(k, d.to_string());
            }
            if let Some(c) = style(1) {
                for (k, v) in STYLED.iter().zip(c) {
                    w.colors.insert(k, v);
                }
            }
            w.colors.insert("colorAxis", "rgb=FF000000".into());
            let mut s = Sparkline::new();
            let j = r.usize(n);
            let src = sh.names[j].clone();
            let group = r.bool();
            let edge = r.one_in(6);
            // The data.
            let (h, wd) = match (group, r.bool()) {
                (false, true) => (1, r.u16(1, 12)),
                (false, false) => (r.u32(1, 12), 1),
                _ => (r.u32(2, 7), r.u16(2, 7)),
            };
            let (dr, dc) = if edge {
                (1_048_576 - h, 16_384 - wd)
            } else {
                (r.u32(0, 50), r.u16(0, 40))
            };
            let data = (dr, dc, dr + h - 1, dc + wd - 1);
            // As parts or as a formula.
            let by_cells = r.bool();
            s = if by_cells {
                s.set_range((src.as_str(), data.0, data.1, data.2, data.3))
            } else {
                let q = format!("'{}'", src.replace('\'', "''"));
                let t = format!("={q}!{}", crate::book::abs_range(data.0, data.1, data.2, data.3));
                s.set_range(t.as_str())
            };
            s = options(r, s, &mut w);
            if r.one_in(4) {
                let k = r.usize(n);
                let d = (r.u32(0, 30), r.u16(0, 10));
                let l = u16::from(r.u8(1, 9));
                let name = sh.names[k].clone();
                s = s.set_date_range((name.as_str(), d.0, d.1, d.0, d.1 + l));
                w.date = Some((name, (d.0, d.1, d.0, d.1 + l)));
            }
            let by_col = r.one_in(3);
            if by_col || r.one_in(5) {
                s = s.set_column_order(by_col);
            }
            let at = if r.one_in(8) {
                (1_048_575 - r.u32(0, 12), 16_383 - r.u16(0, 12))
            } else {
                (r.u32(0, 40), r.u16(0, 20))
            };
            let res: Result<(), XlsxError>;
            let mut valid = true;
            if group {
                let slices = if by_col { u32::from(wd) } else { h };
                let mut cells = slices;
                // Sometimes a group of the wrong size.
                if r.one_in(8) {
                    cells = r.u32(2, 8);
                }
                let down = r.bool();
                let last = if down {
                    (at.0 + cells - 1, at.1)
                } else {
                    (at.0, at.1 + cells as u16 - 1)
                };
                valid = cells == slices && last.0 < 1_048_576 && last.1 < 16_384;
                for k in 0..cells {
                    let cell = if down { (at.0 + k, at.1) } else { (at.0, at.1 + k as u16) };
                    let d = if by_col {
                        (data.0, data.1 + k as u16, data.2, data.1 + k as u16)
                    } else {
                        (data.0 + k, data.1, data.0 + k, data.3)
                    };
                    w.cells.push((cell, (src.clone(), d)));
                }
                if w.cells.iter().any(|c| used[i].contains(&c.0)) {
                    continue;
                }
                ctx.log(format!("sheet {i}: group {}:{} by column {by_col} {w:?}", a1(at.0, at.1), a1(last.0, last.1)));
                res = sh.ws(i).add_sparkline_group(at.0, at.1, last.0, last.1, &s).map(|_| ());
            } else {
                w.cells.push((at, (src.clone(), data)));
                if used[i].contains(&at) {
                    continue;
                }
                ctx.log(format!("sheet {i}: sparkline {} {w:?}", a1(at.0, at.1)));
                res = sh.ws(i).add_sparkline(at.0, at.1, &s).map(|_| ());
            }
            if res.is_ok() != valid {
                ctx.fail("accepted", format!("sparkline {w:?} gave {res:?}, valid {valid}"));
                return;
            }
            if res.is_ok() {
                groups += u64::from(group);
                used[i].extend(w.cells.iter().map(|c| c.0));
                wants[i].push(w);
            }
        }
        let Some(b) = save_open(ctx, &mut sh) else { return };
        for i in 0..n {
            let name = sh.names[i].clone();
            let Some(s) = b.sheet(&name) else {
                ctx.fail("sheet", format!("{name} is missing"));
                return;
            };
            let at = format!("save {save} {name}");
            let mut got = found(ctx, s, &at);
            got.sort_by_key(|w| w.cells.first().map(|c| c.0));
            let mut want = wants[i].clone();
            want.sort_by_key(|w| w.cells.first().map(|c| c.0));
            ctx.eq(&got.len(), &want.len(), "count", &at);
            for (g, w) in got.iter().zip(&want) {
                ctx.check(same(g, w), "sparkline", || {
                    let mut d = vec![];
                    for (k, v) in &w.attrs {
                        if g.attrs.get(k) != Some(v) {
                            d.push(format!("{k} {:?} instead of {v:?}", g.attrs.get(k)));
                        }
                    }
                    for (k, v) in &w.colors {
                        if g.colors.get(k) != Some(v) {
                            d.push(format!("{k} {:?} instead of {v:?}", g.colors.get(k)));
                        }
                    }
                    if g.cells != w.cells {
                        d.push(format!("cells {:?} instead of {:?}", g.cells, w.cells));
                    }
                    if g.date != w.date {
                        d.push(format!("dates {:?} instead of {:?}", g.date, w.date));
                    }
                    format!("{at} {:?}: {} got {g:?}", w.cells.first(), d.join(", "))
                });
            }
            let n = s.xml.find_all("x14:dataBar").len();
            ctx.check(n <= bars[i] && (n > 0 || bars[i] == 0), "data bars", || {
                format!("{at}: {n} extended data bars instead of {}", bars[i])
            });
        }
        if !ctx.fails.is_empty() {
            return;
        }
    }
    let total: usize = wants.iter().map(Vec::len).sum();
    ctx.add("sparkline groups", groups);
    ctx.add("sparklines", wants.iter().flatten().map(|w| w.cells.len() as u64).sum());
    ctx.nontrivial = total > 1;
}
