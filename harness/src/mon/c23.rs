//! C23 charts: ranges, caches, identity and axes.

use crate::book::{a1, abs_range, Book, Sheet, V};
use crate::gen;
use crate::kit;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::open_wb;
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::{
    Chart, ChartErrorBars, ChartErrorBarsType, ChartRange, ChartType, ExcelDateTime, Format,
    Formula, Image, Note, Shape, Workbook, Worksheet,
};
use std::collections::{BTreeMap, BTreeSet};

type Area = (usize, u32, u16, u32, u16);

#[derive(Clone, Debug, PartialEq)]
enum Cell {
    Num(f64),
    Str(String),
    Bool(bool),
    Date(f64),
    Rich(String),
    Formula(String),
    Blank,
}

type Data = BTreeMap<(u32, u16), Cell>;

#[derive(Clone, Debug, Default, PartialEq)]
enum Title {
    #[default]
    None,
    Text(String),
    Range(Area),
}

#[derive(Clone, Debug)]
struct Ser {
    val: Area,
    cat: Option<Area>,
    name: Title,
    second: bool,
    /// Ranges of custom error bars: direction, plus, minus.
    err: Vec<(&'static str, Area, Area)>,
}

#[derive(Clone, Debug)]
struct Plot {
    ty: usize,
    series: Vec<Ser>,
}

#[derive(Clone, Debug)]
struct Want {
    title: Title,
    x: Title,
    y: Title,
    plots: Vec<Plot>,
}

/// Type, plot element, its direction, grouping or style.
const TYPES: &[(ChartType, &str, &str)] = &[
    (ChartType::Area, "areaChart", "standard"),
    (ChartType::AreaStacked, "areaChart", "stacked"),
    (ChartType::AreaPercentStacked, "areaChart", "percentStacked"),
    (ChartType::Bar, "barChart", "bar clustered"),
    (ChartType::BarStacked, "barChart", "bar stacked"),
    (
        ChartType::BarPercentStacked,
        "barChart",
        "bar percentStacked",
    ),
    (ChartType::Column, "barChart", "col clustered"),
    (ChartType::ColumnStacked, "barChart", "col stacked"),
    (
        ChartType::ColumnPercentStacked,
        "barChart",
        "col percentStacked",
    ),
    (ChartType::Doughnut, "doughnutChart", ""),
    (ChartType::Line, "lineChart", "standard"),
    (ChartType::LineStacked, "lineChart", "stacked"),
    (ChartType::LinePercentStacked, "lineChart", "percentStacked"),
    (ChartType::Pie, "pieChart", ""),
    (ChartType::Radar, "radarChart", "marker"),
    (ChartType::RadarWithMarkers, "radarChart", "marker"),
    (ChartType::RadarFilled, "radarChart", "filled"),
    (ChartType::Scatter, "scatterChart", "lineMarker"),
    (ChartType::ScatterStraight, "scatterChart", "lineMarker"),
    (
        ChartType::ScatterStraightWithMarkers,
        "scatterChart",
        "lineMarker",
    ),
    (ChartType::ScatterSmooth, "scatterChart", "smoothMarker"),
    (
        ChartType::ScatterSmoothWithMarkers,
        "scatterChart",
        "smoothMarker",
    ),
    (ChartType::Stock, "stockChart", ""),
];

const ROWS: u32 = 12;
const COLS: u16 = 6;

fn random_cell(r: &mut Rng, kind: u64) -> Cell {
    let num = |r: &mut Rng| -> f64 {
        match r.below(5) {
            0 => f64::from(r.u16(0, 20)),
            1 => -(f64::from(r.u16(1, 9999)) / 7.0),
            2 => 1e20 * f64::from(r.u16(1, 9)),
            3 => f64::from(r.u16(1, 99)) * 1e-9,
            _ => f64::from(r.u16(1, 1000)) / 4.0,
        }
    };
    match kind {
        0 => Cell::Num(num(r)),
        1 => Cell::Str(gen::text(r, 12, gen::PLAIN)),
        2 => Cell::Str(
            (*r.pick(&["12", "1e3", "NaN", "inf", "-infinity", " 3", "0x1", "+4"])).to_string(),
        ),
        3 => Cell::Date(f64::from(r.u16(1, 50000)) + 0.5 * f64::from(r.u16(0, 1))),
        4 => Cell::Bool(r.pct(50)),
        5 => Cell::Rich(format!("{}{}", gen::word(r), gen::word(r))),
        6 => Cell::Formula(if r.pct(50) {
            format!("{}", num(r))
        } else {
            gen::word(r)
        }),
        _ => Cell::Blank,
    }
}

fn put(ws: &mut Worksheet, row: u32, col: u16, c: &Cell) -> Result<(), String> {
    match c {
        Cell::Num(n) => ws.write_number(row, col, *n).map(|_| ()),
        Cell::Str(s) => ws.write_string(row, col, s).map(|_| ()),
        Cell::Bool(b) => ws.write_boolean(row, col, *b).map(|_| ()),
        Cell::Date(d) => ExcelDateTime::from_serial_datetime(*d).and_then(|d| {
            ws.write_datetime_with_format(
                row,
                col,
                &d,
                &Format::new().set_num_format("yyyy\\-mm\\-dd"),
            )
            .map(|_| ())
        }),
        Cell::Rich(s) => {
            let n = s.char_indices().nth(1).map_or(s.len(), |(i, _)| i);
            ws.write_rich_string(
                row,
                col,
                &[
                    (&Format::new().set_bold(), &s[..n]),
                    (&Format::default(), &s[n..]),
                ],
            )
            .map(|_| ())
        }
        Cell::Formula(v) => ws
            .write_formula(row, col, Formula::new("=A1+1").set_result(v))
            .map(|_| ()),
        Cell::Blank => ws
            .write_blank(row, col, &Format::new().set_italic())
            .map(|_| ()),
    }
    .map_err(|e| format!("{} {c:?}: {e}", a1(row, col)))
}

fn fill(r: &mut Rng, data: &mut Data) {
    for col in 0..COLS {
        // Columns have a main kind, as in real sheets.
        let main = *r.pick(&[0, 0, 0, 1, 1, 3, 6]);
        for row in 0..ROWS {
            if r.pct(75) {
                let k = if r.pct(80) { main } else { r.below(8) };
                let c = random_cell(r, k);
                data.insert((row, col), c);
            }
        }
    }
    // Whole rows without cells.
    if r.pct(40) {
        let gone = r.below(u64::from(ROWS)) as u32;
        data.retain(|k, _| k.0 != gone);
    }
}

fn area(r: &mut Rng, sheets: usize, block: bool) -> Area {
    let s = r.usize(sheets);
    let (row, col) = (
        r.below(u64::from(ROWS)) as u32,
        r.u16(0, COLS - 1),
    );
    let (dr, dc) = (
        r.below(u64::from(ROWS - row)) as u32,
        r.below(u64::from(COLS - col)) as u16,
    );
    match r.below(if block { 8 } else { 6 }) {
        0..=3 => (s, row, col, row + dr, col),
        4 | 5 => (s, row, col, row, col + dc),
        _ => (s, row, col, row + dr, col + dc),
    }
}

fn cell_area(r: &mut Rng, sheets: usize) -> Area {
    let (s, row, col, ..) = area(r, sheets, false);
    (s, row, col, row, col)
}

fn quoted(name: &str) -> String {
    format!("'{}'", name.replace('\'', "''"))
}

/// One of the ways to pass a range.
fn range(r: &mut Rng, names: &[String], a: Area) -> ChartRange {
    let n = names[a.0].as_str();
    match r.below(3) {
        0 => ChartRange::new_from_range(n, a.1, a.2, a.3, a.4),
        1 => ChartRange::new_from_string(&format!(
            "={}!{}",
            quoted(n),
            abs_range(a.1, a.2, a.3, a.4)
        )),
        _ => ChartRange::new_from_string(&format!(
            "{}!{}",
            quoted(n),
            abs_range(a.1, a.2, a.3, a.4).replace('$', "")
        )),
    }
}

fn title(r: &mut Rng, sheets: usize) -> Title {
    match r.below(4) {
        0 => Title::None,
        1 => Title::Text(format!("T{} {}", r.u16(0, 999), gen::word(r))),
        _ => Title::Range(cell_area(r, sheets)),
    }
}

macro_rules! set_title {
    ($r:expr, $names:expr, $t:expr, $obj:expr) => {{
        match $t {
            Title::None => {}
            Title::Text(s) => {
                if $r.one_in(4) {
                    // The last name wins.
                    let a = (0, 1, 1, 1, 1);
                    $obj.set_name(&range($r, $names, a));
                }
                $obj.set_name(s.as_str());
            }
            Title::Range(a) => {
                if $r.one_in(4) {
                    $obj.set_name("old name");
                }
                $obj.set_name(&range($r, $names, *a));
            }
        }
    }};
}

fn plot(r: &mut Rng, names: &[String], ty: usize, second: Option<bool>) -> (Chart, Plot) {
    let kind = TYPES[ty];
    let mut c = Chart::new(kind.0);
    let mut p = Plot { ty, series: vec![] };
    let pie = kind.1 == "pieChart" || kind.1 == "doughnutChart";
    let scatter = kind.1 == "scatterChart";
    for _ in 0..r.u16(1, 4) {
        let n = names.len();
        let s = Ser {
            val: area(r, n, false),
            cat: if scatter || r.pct(70) {
                let block = !scatter && r.one_in(3);
                Some(area(r, n, block))
            } else {
                None
            },
            name: title(r, n),
            second: !pie && kind.1 != "radarChart" && second.unwrap_or_else(|| r.one_in(4)),
            err: match kind.1 {
                "lineChart" if r.one_in(4) => vec![("y", area(r, n, false), area(r, n, false))],
                "scatterChart" if r.one_in(4) => vec![
                    ("x", area(r, n, false), area(r, n, false)),
                    ("y", area(r, n, false), area(r, n, false)),
                ],
                _ => vec![],
            },
        };
        let v = range(r, names, s.val);
        let k = s.cat.map(|a| range(r, names, a));
        let x = c.add_series();
        if r.one_in(8) {
            x.set_values(&range(r, names, (0, 0, 0, 3, 0)));
        }
        x.set_values(&v);
        if let Some(k) = &k {
            x.set_categories(k);
        }
        set_title!(r, names, &s.name, x);
        if s.second || r.one_in(5) {
            x.set_secondary_axis(s.second);
        }
        for (d, a, b) in &s.err {
            let t = ChartErrorBarsType::Custom(range(r, names, *a), range(r, names, *b));
            let mut e = ChartErrorBars::new();
            e.set_type(t);
            if *d == "x" {
                x.set_x_error_bars(&e);
            } else {
                x.set_y_error_bars(&e);
            }
        }
        p.series.push(s);
    }
    (c, p)
}

fn chart(r: &mut Rng, names: &[String]) -> (Chart, Want) {
    let ty = r.usize(TYPES.len());
    let kind = TYPES[ty];
    let can_combine = matches!(kind.1, "areaChart" | "lineChart") || kind.2.starts_with("col");
    let combine = can_combine && r.one_in(3);
    let (mut c, p) = plot(r, names, ty, if combine { Some(false) } else { None });
    // At least one series must be on the main axes.
    let mut p = p;
    if !p.series.is_empty() && p.series.iter().all(|s| s.second) {
        let n = names.len();
        let s = Ser {
            val: area(r, n, false),
            cat: p.series[0].cat,
            name: Title::None,
            second: false,
            err: vec![],
        };
        let v = range(r, names, s.val);
        let k = s.cat.map(|a| range(r, names, a));
        let x = c.add_series();
        x.set_values(&v);
        if let Some(k) = &k {
            x.set_categories(k);
        }
        p.series.push(s);
    }
    let mut w = Want {
        title: title(r, names.len()),
        x: Title::None,
        y: Title::None,
        plots: vec![p],
    };
    set_title!(r, names, &w.title, c.title());
    if kind.1 != "pieChart" && kind.1 != "doughnutChart" {
        w.x = title(r, names.len());
        w.y = title(r, names.len());
        set_title!(r, names, &w.x, c.x_axis());
        set_title!(r, names, &w.y, c.y_axis());
    }
    if combine {
        let others: Vec<usize> = TYPES
            .iter()
            .enumerate()
            .filter(|(_, t)| {
                t.1 != kind.1 && (matches!(t.1, "areaChart" | "lineChart") || t.2.starts_with("col"))
            })
            .map(|(i, _)| i)
            .collect();
        let ty2 = *r.pick(&others);
        let second = r.pct(50);
        let (c2, p2) = plot(r, names, ty2, Some(second));
        c.combine(&c2);
        w.plots.push(p2);
    }
    (c, w)
}

/// What a point of a cache may hold for a cell: the texts allowed, or nothing.
fn point_ok(c: Option<&Cell>, num_cache: bool, mixed: bool, got: Option<&str>) -> bool {
    let same = |g: &str, n: f64| g.trim().parse::<f64>().is_ok_and(|x| x == n);
    let finite = |s: &str| s.trim().parse::<f64>().ok().filter(|x| x.is_finite());
    match (c, got) {
        (None | Some(Cell::Blank), None) => true,
        (None | Some(Cell::Blank), Some(g)) => !num_cache && g.is_empty(),
        (Some(Cell::Num(n) | Cell::Date(n)), Some(g)) => same(g, *n),
        // Text counts as zero when plotted.
        (Some(Cell::Str(s) | Cell::Rich(s)), Some(g)) => {
            if num_cache {
                same(g, 0.0) || finite(s).is_some_and(|n| same(g, n))
            } else {
                g == s
            }
        }
        (Some(Cell::Formula(v)), Some(g)) => match finite(v) {
            Some(n) => same(g, n),
            None if num_cache => same(g, 0.0),
            None => g == v,
        },
        (Some(Cell::Bool(b)), Some(g)) => {
            same(g, f64::from(u8::from(*b)))
                || if num_cache {
                    // Counted like text in a range that holds text too.
                    mixed && same(g, 0.0)
                } else {
                    g == "TRUE" || g == "FALSE"
                }
        }
        // A cache need not be complete for these.
        (Some(Cell::Bool(_) | Cell::Rich(_) | Cell::Formula(_)), None) => true,
        (Some(Cell::Num(_) | Cell::Date(_)), None) => false,
        (Some(Cell::Str(s)), None) => num_cache || s.is_empty(),
    }
}

struct World<'a> {
    names: &'a [String],
    data: &'a [Data],
    full: &'a [bool],
}

/// Compare a reference element (c:val, c:cat, ...) with the range requested.
fn reference(ctx: &mut Ctx, w: &World, e: Option<&Elem>, want: Area, is_val: bool, sig: &str, at: &str) {
    let Some(e) = e else {
        ctx.fail(sig, format!("{at}: no reference"));
        return;
    };
    let Some(x) = e.elems().find(|x| x.local() == "numRef" || x.local() == "strRef") else {
        ctx.fail(sig, format!("{at}: no reference in {}", e.show()));
        return;
    };
    let num = x.local() == "numRef";
    let f = x.child_text("c:f").unwrap_or_default();
    let parsed = crate::book::parse_sheet_range(&f);
    let name = &w.names[want.0];
    let expect = Some((name.clone(), (want.1, want.2, want.3, want.4), true));
    ctx.eq(&parsed, &expect, sig, at);
    ctx.count("references compared");
    if is_val && !num {
        ctx.fail("string-values", format!("{at}: values are a string reference"));
    }
    let Some(cache) = x.elems().find(|x| x.local() == "numCache" || x.local() == "strCache") else {
        return;
    };
    ctx.eq(&(cache.local() == "numCache"), &num, "cache-kind", at);
    let cells: Vec<Option<&Cell>> = (want.1..=want.3)
        .flat_map(|r| (want.2..=want.4).map(move |c| (r, c)))
        .map(|k| w.data[want.0].get(&k))
        .collect();
    let count = cache.child("c:ptCount").and_then(|x| x.int("val")).unwrap_or(-1);
    ctx.eq(&count, &(cells.len() as i64), "point-count", at);
    let mut pts: BTreeMap<i64, String> = BTreeMap::new();
    for p in cache.children("c:pt") {
        let i = p.int("idx").unwrap_or(-1);
        let t = p.child_text("c:v").map(|t| xstring(&t)).unwrap_or_default();
        if i < 0 || i >= count || pts.insert(i, t).is_some() {
            ctx.fail("point-index", format!("{at}: bad or repeated point {i}"));
        }
    }
    if !is_val {
        let all_text = cells
            .iter()
            .flatten()
            .all(|c| matches!(c, Cell::Str(_)));
        let any = cells.iter().flatten().next().is_some();
        if all_text && any && w.full[want.0] {
            ctx.check(!num, "number-categories", || {
                format!("{at}: text cells are referred to as numbers")
            });
        }
    }
    let mixed = cells.iter().flatten().any(|c| {
        matches!(c, Cell::Str(_) | Cell::Rich(_))
            || matches!(c, Cell::Formula(v) if v.parse::<f64>().is_err())
    });
    for (i, c) in cells.iter().enumerate() {
        let got = pts.get(&(i as i64)).map(String::as_str);
        ctx.observed += 1;
        // The cells of earlier rows are no longer known in the sheets that
        // are written row by row.
        if !w.full[want.0] && (got.is_none() || got == Some("")) {
            continue;
        }
        if !point_ok(*c, num, mixed, got) {
            ctx.fail("cache", format!("{at}: point {i} is {got:?} for cell {c:?}"));
        }
    }
    ctx.add("cached points compared", cells.len() as u64);
}

fn title_is(ctx: &mut Ctx, w: &World, tx: Option<&Elem>, want: &Title, sig: &str, at: &str) {
    match want {
        Title::None => {}
        Title::Text(s) => {
            let got = tx.map(|t| {
                let mut v: String = t.find_all("a:t").iter().map(|x| xstring(&x.text())).collect();
                if let Some(x) = t.child("c:v") {
                    v.push_str(&xstring(&x.text()));
                }
                v
            });
            ctx.eq(&got, &Some(s.clone()), sig, at);
        }
        Title::Range(a) => reference(ctx, w, tx, *a, false, sig, at),
    }
}

fn series_is(ctx: &mut Ctx, w: &World, e: &Elem, want: &Ser, scatter: bool, at: &str) {
    let (v, k) = if scatter { ("c:yVal", "c:xVal") } else { ("c:val", "c:cat") };
    reference(ctx, w, e.child(v), want.val, true, "values", &format!("{at} values"));
    match want.cat {
        Some(a) => reference(ctx, w, e.child(k), a, false, "categories", &format!("{at} categories")),
        None => {
            ctx.check(e.child(k).is_none(), "categories", || {
                format!("{at}: categories nobody requested")
            });
        }
    }
    if want.name == Title::None {
        ctx.check(e.child("c:tx").is_none(), "name", || {
            format!("{at}: name nobody requested")
        });
    }
    title_is(ctx, w, e.child("c:tx"), &want.name, "name", &format!("{at} name"));
    let bars: Vec<&Elem> = e.children("c:errBars").collect();
    ctx.eq(&bars.len(), &want.err.len(), "error-bars", at);
    for (d, a, b) in &want.err {
        let bar = bars
            .iter()
            .find(|x| x.child("c:errDir").is_some_and(|y| y.a("val") == *d));
        let Some(bar) = bar else {
            ctx.fail("error-bars", format!("{at}: no {d} error bars"));
            continue;
        };
        reference(ctx, w, bar.child("c:plus"), *a, true, "error-range", &format!("{at} {d} plus"));
        reference(ctx, w, bar.child("c:minus"), *b, true, "error-range", &format!("{at} {d} minus"));
    }
}

/// The ids of a plot's axes.
fn ids(p: &Elem) -> Vec<String> {
    p.children("c:axId").map(|x| x.a("val").to_string()).collect()
}

fn chart_is(ctx: &mut Ctx, w: &World, x: &Elem, want: &Want, at: &str) {
    let Some(c) = x.child("c:chart") else {
        ctx.fail("chart", format!("{at}: no chart element"));
        return;
    };
    let t = c.path("c:title/c:tx");
    title_is(ctx, w, t, &want.title, "title", &format!("{at} title"));
    let Some(area) = c.child("c:plotArea") else {
        ctx.fail("chart", format!("{at}: no plot area"));
        return;
    };
    let axes: Vec<&Elem> = area
        .elems()
        .filter(|e| matches!(e.local(), "catAx" | "valAx" | "dateAx" | "serAx"))
        .collect();
    let mut axis_ids: BTreeMap<String, &Elem> = BTreeMap::new();
    for a in &axes {
        let id = a.child("c:axId").map(|x| x.a("val").to_string()).unwrap_or_default();
        if axis_ids.insert(id.clone(), a).is_some() {
            ctx.fail("axis-id", format!("{at}: axis {id} twice"));
        }
    }
    let mut pairs: BTreeSet<String> = BTreeSet::new();
    for a in &axes {
        let id = a.child("c:axId").map(|x| x.a("val").to_string()).unwrap_or_default();
        let cross = a.child("c:crossAx").map(|x| x.a("val").to_string()).unwrap_or_default();
        let back = axis_ids
            .get(&cross)
            .and_then(|o| o.child("c:crossAx"))
            .map(|x| x.a("val").to_string());
        ctx.eq(&back, &Some(id.clone()), "crossing", &format!("{at} axis {id}"));
    }
    let plots: Vec<&Elem> = area.elems().filter(|e| e.local().ends_with("Chart")).collect();
    let mut main: Option<Vec<String>> = None;
    let mut seen_idx: BTreeSet<i64> = BTreeSet::new();
    let mut groups: Vec<(usize, bool, &Elem)> = vec![];
    let mut next = 0;
    // The plots follow the order of the charts; in each the main axes first.
    for (i, p) in want.plots.iter().enumerate() {
        for second in [false, true] {
            let n = p.series.iter().filter(|s| s.second == second).count();
            if n == 0 {
                continue;
            }
            let Some(e) = plots.get(next) else {
                ctx.fail("plot", format!("{at}: plot {i} {second} is missing"));
                return;
            };
            next += 1;
            groups.push((i, second, e));
        }
    }
    ctx.eq(&plots.len(), &groups.len(), "plot", &format!("{at} plots"));
    for (i, second, e) in groups {
        let p = &want.plots[i];
        let me = format!("{at} plot {i}{}", if second { " secondary" } else { "" });
        let kind = TYPES[p.ty];
        ctx.eq(&e.local(), &kind.1, "plot-type", &me);
        let val = |n: &str| e.child(n).map(|x| x.a("val").to_string());
        let detail: Vec<String> = ["c:barDir", "c:grouping", "c:radarStyle", "c:scatterStyle"]
            .iter()
            .filter_map(|n| val(n))
            .collect();
        ctx.eq(&detail.join(" "), &kind.2.to_string(), "plot-kind", &me);
        let id = ids(e);
        if kind.1 == "pieChart" || kind.1 == "doughnutChart" {
            ctx.eq(&id.len(), &0, "axis-id", &me);
        } else {
            ctx.eq(&id.len(), &2, "axis-id", &me);
            for a in &id {
                ctx.check(axis_ids.contains_key(a), "axis-id", || {
                    format!("{me}: axis {a} does not exist")
                });
            }
            if let [a, b] = &id[..] {
                let cross = axis_ids
                    .get(a)
                    .and_then(|x| x.child("c:crossAx"))
                    .map(|x| x.a("val").to_string());
                ctx.eq(&cross.as_ref(), &Some(b), "axis-pair", &me);
                pairs.insert(a.clone());
                pairs.insert(b.clone());
            }
            match (&main, second) {
                (None, false) => main = Some(id.clone()),
                (Some(m), s) => {
                    ctx.check((m == &id) != s, "axis-side", || {
                        format!("{me}: axes {id:?}, main axes {m:?}")
                    });
                }
                (None, true) => {}
            }
        }
        let got: Vec<&Elem> = e.children("c:ser").collect();
        let series: Vec<&Ser> = p.series.iter().filter(|s| s.second == second).collect();
        ctx.eq(&got.len(), &series.len(), "series", &format!("{me} series"));
        for (n, (g, s)) in got.iter().zip(&series).enumerate() {
            let idx = g.child("c:idx").and_then(|x| x.int("val")).unwrap_or(-1);
            let order = g.child("c:order").and_then(|x| x.int("val")).unwrap_or(-1);
            ctx.eq(&idx, &order, "series-index", &me);
            ctx.check(idx >= 0 && seen_idx.insert(idx), "series-index", || {
                format!("{me}: series index {idx} again")
            });
            series_is(ctx, w, g, s, kind.1 == "scatterChart", &format!("{me} series {n}"));
        }
    }
    for id in axis_ids.keys() {
        ctx.check(pairs.contains(id), "idle-axis", || {
            format!("{at}: axis {id} is of no plot")
        });
    }
    // The titles of the main axes.
    if let Some(mut m) = main {
        // The horizontal axis of bar charts is the value axis.
        if TYPES[want.plots[0].ty].2.starts_with("bar") {
            m.swap(0, 1);
        }
        for (id, t, n) in [(&m[0], &want.x, "x"), (&m[1], &want.y, "y")] {
            let Some(a) = axis_ids.get(id) else { continue };
            title_is(ctx, w, a.path("c:title/c:tx"), t, "axis-title", &format!("{at} {n} axis"));
            if *t == Title::None {
                ctx.check(a.child("c:title").is_none(), "axis-title", || {
                    format!("{at}: {n} axis title nobody requested")
                });
            }
        }
    }
    ctx.count("charts compared");
}

fn check(ctx: &mut Ctx, b: &Book, w: &World, s: &Sheet, want: &BTreeMap<(u32, u16), Want>, seen: &mut BTreeSet<String>, at: &str) {
    let mut left: BTreeSet<(u32, u16)> = want.keys().copied().collect();
    if let Some(d) = b.drawing(s) {
        let places: Vec<((u32, u16), &Elem)> = if s.is_chart {
            d.xml.elems().map(|e| ((0, 0), e)).collect()
        } else {
            d.anchors().iter().map(|a| ((a.row, a.col), a.elem)).collect()
        };
        for (k, e) in places {
            let Some(g) = e.child("xdr:graphicFrame") else { continue };
            let me = format!("{at} chart at {}", a1(k.0, k.1));
            if !left.remove(&k) {
                ctx.fail("extra", format!("{me}: nobody put it there"));
                continue;
            }
            let id = g
                .find_all("c:chart")
                .first()
                .map(|x| x.a("r:id").to_string())
                .unwrap_or_default();
            let Some(rel) = d.rel(&id) else {
                ctx.fail("rel", format!("{me}: no relationship {id}"));
                continue;
            };
            if !seen.insert(rel.part.clone()) {
                ctx.fail("shared", format!("{me}: part {} is used twice", rel.part));
            }
            match b.pkg.xml(&rel.part) {
                Ok(x) => chart_is(ctx, w, &x, &want[&k], &me),
                Err(e) => ctx.fail("part", format!("{me}: {e}")),
            }
        }
    }
    for k in left {
        ctx.fail("missing", format!("{at}: chart at {} is missing", a1(k.0, k.1)));
    }
}

pub fn case(ctx: &mut Ctx) {
    let n = ctx.rng.u16(1, 4) as usize;
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let s = if ctx.rng.one_in(4) {
            (*ctx.rng.pick(&["a!b", "It's", "R1C1", "A1", "x y", "1st", "d'!'e", "=b", "$A$1", "é!A1"])).to_string()
        } else {
            let k = names.len();
            gen::sheet_name(&mut ctx.rng, k)
        };
        if !names.iter().any(|x| x.to_lowercase() == s.to_lowercase()) {
            names.push(s);
        }
    }
    let low: Vec<bool> = (0..n).map(|_| ctx.rng.one_in(8)).collect();
    let full: Vec<bool> = low.iter().map(|x| !x).collect();
    let mut wb = Workbook::new();
    kit::fixed_date(&mut wb);
    let mut data: Vec<Data> = vec![Data::new(); n];
    for (i, name) in names.iter().enumerate() {
        let ws = if low[i] {
            if ctx.rng.pct(50) {
                wb.add_worksheet_with_constant_memory()
            } else {
                wb.add_worksheet_with_low_memory()
            }
        } else {
            wb.add_worksheet()
        };
        if let Err(e) = ws.set_name(name) {
            ctx.fail("sheet-name", format!("{name:?}: {e}"));
            return;
        }
        fill(&mut ctx.rng, &mut data[i]);
        for (k, c) in &data[i] {
            if let Err(e) = put(ws, k.0, k.1, c) {
                ctx.fail("write", e);
                return;
            }
        }
    }
    let mut wants: Vec<BTreeMap<(u32, u16), Want>> = vec![BTreeMap::new(); n];
    let mut chartsheets: Vec<(String, Want)> = vec![];
    let saves = ctx.rng.u16(1, 3);
    for save in 0..saves {
        for _ in 0..ctx.rng.u16(u16::from(save == 0), 5) {
            let i = ctx.rng.usize(n);
            let (c, w) = chart(&mut ctx.rng, &names);
            let at = (20 + ctx.rng.below(60) as u32, ctx.rng.u16(0, 40));
            ctx.log(format!("chart on {i} at {}: {w:?}", a1(at.0, at.1)));
            let Ok(ws) = wb.worksheet_from_index(i) else { return };
            // A copy of the same chart elsewhere, too.
            let twin = ctx.rng.one_in(6);
            let r1 = ws.insert_chart(at.0, at.1, &c).map(|_| ());
            let r2 = if twin {
                wants[i].insert((at.0, at.1 + 50), w.clone());
                ws.insert_chart(at.0, at.1 + 50, &c).map(|_| ())
            } else {
                Ok(())
            };
            if let Err(e) = r1.and(r2) {
                ctx.fail("refused", format!("chart refused: {e}: {w:?}"));
                return;
            }
            wants[i].insert(at, w);
            // Other objects in between.
            let r = &mut ctx.rng;
            let there = (100 + r.below(20) as u32, r.u16(0, 20));
            match r.below(6) {
                0 => {
                    let b = kit::image_bytes(r).0;
                    if let Ok(im) = Image::new_from_buffer(&b) {
                        let _ = ws.insert_image(there.0, there.1, &im);
                    }
                }
                1 => {
                    let _ = ws.insert_shape(there.0, there.1, &Shape::textbox().set_text("t"));
                }
                2 => {
                    let _ = ws.insert_note(there.0, there.1, &Note::new("n"));
                }
                _ => {}
            }
        }
        if chartsheets.is_empty() && save == 0 && ctx.rng.one_in(4) {
            let (c, w) = chart(&mut ctx.rng, &names);
            ctx.log(format!("chartsheet {w:?}"));
            let cs = wb.add_chartsheet();
            let nm = "Chart sheet 9".to_string();
            if cs.set_name(&nm).is_err() || cs.insert_chart(0, 0, &c).is_err() {
                ctx.fail("refused", "chartsheet refused");
                return;
            }
            chartsheets.push((nm, w));
        }
        // Values change after the chart was made.
        for i in 0..n {
            if !full[i] {
                continue;
            }
            for _ in 0..ctx.rng.u16(0, 4) {
                let at = (
                    ctx.rng.below(u64::from(ROWS)) as u32,
                    ctx.rng.u16(0, COLS - 1),
                );
                let kind = ctx.rng.below(8);
                let c = random_cell(&mut ctx.rng, kind);
                ctx.log(format!("sheet {i} {} = {c:?}", a1(at.0, at.1)));
                let Ok(ws) = wb.worksheet_from_index(i) else { return };
                if ctx.rng.one_in(6) {
                    let _ = ws.clear_cell(at.0, at.1);
                    if data[i].contains_key(&at) {
                        data[i].remove(&at);
                    }
                } else if let Err(e) = put(ws, at.0, at.1, &c) {
                    ctx.fail("write", e);
                    return;
                } else {
                    data[i].insert(at, c);
                }
            }
        }
        let Some(b) = open_wb(ctx, &mut wb) else { return };
        let w = World {
            names: &names,
            data: &data,
            full: &full,
        };
        let mut seen = BTreeSet::new();
        for (i, name) in names.iter().enumerate() {
            let Some(s) = b.sheet(name) else {
                ctx.fail("sheet", format!("no sheet {name:?}"));
                return;
            };
            check(ctx, &b, &w, s, &wants[i], &mut seen, &format!("save {save} sheet {i}"));
        }
        for (name, want) in &chartsheets {
            let Some(s) = b.sheet(name) else {
                ctx.fail("sheet", format!("no sheet {name:?}"));
                return;
            };
            let m = BTreeMap::from([((0, 0), want.clone())]);
            check(ctx, &b, &w, s, &m, &mut seen, &format!("save {save} chartsheet"));
        }
        let parts = b.pkg.parts.keys().filter(|p| p.starts_with("xl/charts/chart")).count();
        ctx.eq(&parts, &seen.len(), "stray", "chart parts in use");
    }
    ctx.nontrivial = wants.iter().map(BTreeMap::len).sum::<usize>() + chartsheets.len() > 1;
    let _ = V::Blank;
}
