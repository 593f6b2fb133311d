//! C29 view, page, print and protection settings.

use crate::book::{a1, a1_range, Book, Sheet};
use crate::gen::{self, TextOpt};
use crate::run::Ctx;
use crate::sheetops::{open_wb, Mode, Sheets};
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::{Chart, ChartType, Color, IgnoreError, ProtectionOptions, Worksheet, XlsxError};
use std::collections::{BTreeMap, BTreeSet};

const TEXT: TextOpt = TextOpt {
    ctrl: true,
    breaks: false,
    nonchar: false,
    esc: true,
};
const ROWS: u32 = 1_048_576;
const COLS: u16 = 16_384;

/// A setting that is known or was left open by an unspecified request.
#[derive(Clone, Debug, PartialEq)]
enum Known<T> {
    Is(T),
    Open,
}

#[derive(Clone, Debug)]
struct Model {
    chart: bool,
    grid: bool,
    rtl: bool,
    view: &'static str,
    top: Option<(u32, u16)>,
    zoom: u16,
    freeze: (u32, u16),
    freeze_top: (u32, u16),
    selection: Option<((u32, u16), (u32, u16, u32, u16))>,
    tab: Option<String>,
    paper: u8,
    scale: u16,
    fit: Option<(u16, u16)>,
    over: bool,
    landscape: bool,
    first_page: u16,
    bw: bool,
    draft: bool,
    center_h: bool,
    center_v: bool,
    headings: bool,
    print_grid: bool,
    margins: [f64; 6],
    header: String,
    footer: String,
    scale_doc: bool,
    align: bool,
    rows: Known<Vec<u32>>,
    cols: Known<Vec<u32>>,
    protect: Option<(u16, BTreeMap<&'static str, bool>)>,
    pending: (u16, BTreeMap<&'static str, bool>),
    ranges: Vec<(String, String, u16)>,
    ignored: BTreeMap<&'static str, BTreeSet<String>>,
    used: BTreeSet<(u32, u16, u32, u16)>,
    set: BTreeSet<&'static str>,
}

/// The locks of a protected worksheet by attribute, true when locked.
fn locks(o: &ProtectionOptions) -> BTreeMap<&'static str, bool> {
    [
        ("objects", !o.edit_objects),
        ("scenarios", !o.edit_scenarios),
        ("formatCells", !o.format_cells),
        ("formatColumns", !o.format_columns),
        ("formatRows", !o.format_rows),
        ("insertColumns", !o.insert_columns),
        ("insertRows", !o.insert_rows),
        ("insertHyperlinks", !o.insert_links),
        ("deleteColumns", !o.delete_columns),
        ("deleteRows", !o.delete_rows),
        ("selectLockedCells", !o.select_locked_cells),
        ("sort", !o.sort),
        ("autoFilter", !o.use_autofilter),
        ("pivotTables", !o.use_pivot_tables),
        ("selectUnlockedCells", !o.select_unlocked_cells),
    ]
    .into_iter()
    .collect()
}

/// The values that the schema gives to absent attributes of a protection.
const LOCK_DEFAULT: [&str; 11] = [
    "formatCells",
    "formatColumns",
    "formatRows",
    "insertColumns",
    "insertRows",
    "insertHyperlinks",
    "deleteColumns",
    "deleteRows",
    "sort",
    "autoFilter",
    "pivotTables",
];

/// The verifier of a legacy password: the 15 bit rotated sum of its bytes.
fn verifier(p: &str) -> u16 {
    if p.is_empty() {
        return 0;
    }
    let mut sum: u32 = 0;
    for (i, b) in p.bytes().enumerate() {
        let k = (i as u32 + 1) % 15;
        let v = u32::from(b);
        sum ^= ((v << k) | (v >> (15 - k))) & 0x7FFF;
    }
    (sum ^ p.len() as u32 ^ 0xCE4B) as u16
}

impl Model {
    fn new(chart: bool) -> Model {
        Model {
            chart,
            grid: true,
            rtl: false,
            view: "normal",
            top: None,
            zoom: 100,
            freeze: (0, 0),
            freeze_top: (0, 0),
            selection: None,
            tab: None,
            paper: 0,
            scale: 100,
            fit: None,
            over: false,
            landscape: chart,
            first_page: 0,
            bw: false,
            draft: false,
            center_h: false,
            center_v: false,
            headings: false,
            print_grid: false,
            margins: [0.7, 0.7, 0.75, 0.75, 0.3, 0.3],
            header: String::new(),
            footer: String::new(),
            scale_doc: true,
            align: true,
            rows: Known::Is(vec![]),
            cols: Known::Is(vec![]),
            protect: None,
            pending: (0, locks(&ProtectionOptions::new())),
            ranges: vec![],
            ignored: BTreeMap::new(),
            used: BTreeSet::new(),
            set: BTreeSet::new(),
        }
    }
}

fn expanded(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    let words = [
        ("&[Tab]", "&A"),
        ("&[Date]", "&D"),
        ("&[File]", "&F"),
        ("&[Page]", "&P"),
        ("&[Path]", "&Z"),
        ("&[Time]", "&T"),
        ("&[Pages]", "&N"),
        ("&[Picture]", "&G"),
    ];
    'outer: while !rest.is_empty() {
        for (w, c) in words {
            if let Some(r) = rest.strip_prefix(w) {
                out.push_str(c);
                rest = r;
                continue 'outer;
            }
        }
        let c = rest.chars().next().unwrap_or(' ');
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}

fn corner(ctx: &mut Ctx) -> (u32, u16) {
    let r = match ctx.rng.below(6) {
        0 => 0,
        1 => ROWS - 1,
        2 => ctx.rng.u32(0, ROWS - 1),
        3 if ctx.rng.one_in(4) => ctx.rng.u32(ROWS, u32::MAX),
        _ => ctx.rng.u32(0, 40),
    };
    let c = match ctx.rng.below(6) {
        0 => 0,
        1 => COLS - 1,
        2 => ctx.rng.u16(0, COLS - 1),
        3 if ctx.rng.one_in(4) => ctx.rng.u16(COLS, u16::MAX),
        _ => ctx.rng.u16(0, 30),
    };
    (r, c)
}

fn inside(p: (u32, u16)) -> bool {
    p.0 < ROWS && p.1 < COLS
}

fn breaks(ctx: &mut Ctx, max: u32) -> Vec<u32> {
    let n = match ctx.rng.below(12) {
        0 => *ctx.rng.pick(&[1022usize, 1023, 1024, 1025]),
        1 => 0,
        _ => ctx.rng.usize(12) + 1,
    };
    if n > 100 {
        let at = ctx.rng.u32(0, 2);
        let mut v: Vec<u32> = (0..n as u32).map(|i| at + 2 * i).collect();
        v.reverse();
        return v;
    }
    (0..n)
        .map(|_| match ctx.rng.below(9) {
            0 => 0,
            1 => max - 1,
            2 if ctx.rng.one_in(3) => max,
            3 if ctx.rng.one_in(8) => u32::MAX,
            4 => ctx.rng.u32(1, max - 1),
            _ => ctx.rng.u32(1, 30),
        })
        .collect()
}

/// The outcome of a request for page breaks: the accepted list or None for a
/// refused one.
fn wanted_breaks(v: &[u32], max: u32) -> Option<Vec<u32>> {
    let s: BTreeSet<u32> = v.iter().copied().filter(|x| *x > 0).collect();
    if s.len() > 1023 || s.iter().any(|x| *x >= max) {
        return None;
    }
    Some(s.into_iter().collect())
}

fn running_text(ctx: &mut Ctx) -> String {
    let mut s = String::new();
    let goal = match ctx.rng.below(8) {
        0 => Some(*ctx.rng.pick(&[254usize, 255, 256, 257])),
        1 => return s,
        _ => None,
    };
    let n = ctx.rng.usize(8) + 1;
    for _ in 0..n {
        let p = match ctx.rng.below(14) {
            0 => "&L".to_string(),
            1 => "&C".to_string(),
            2 => "&R".to_string(),
            3 => "&[Page]".to_string(),
            4 => "&[Pages]".to_string(),
            5 => (*ctx.rng.pick(&["&[Date]", "&[Time]", "&[File]", "&[Path]", "&[Tab]"])).to_string(),
            6 => "&P of &N".to_string(),
            7 => "&\"Arial,Bold Italic\"&14".to_string(),
            8 => "&&".to_string(),
            9 => (*ctx.rng.pick(&["&[", "[Page]", "&[page]", "&[Pages", "&amp;", "<x>", "]]>"])).to_string(),
            _ => gen::text(&mut ctx.rng, 12, TEXT),
        };
        s.push_str(&p);
    }
    if let Some(goal) = goal {
        let k = expanded(&s).chars().count();
        if k < goal {
            let filler = if ctx.rng.bool() { "x" } else { "é" };
            s.push_str(&filler.repeat(goal - k));
        }
    }
    s
}

/// Whether the request was accepted as it should be.
fn expect<T>(ctx: &mut Ctx, what: &str, got: &Result<T, XlsxError>, ok: bool) {
    if got.is_ok() != ok {
        let m = match got {
            Ok(_) => "accepted".to_string(),
            Err(e) => format!("refused: {e}"),
        };
        ctx.fail("result", format!("{what} {m}"));
    }
}

const ERRORS: [(IgnoreError, &str); 9] = [
    (IgnoreError::FormulaError, "evalError"),
    (IgnoreError::FormulaDiffers, "formula"),
    (IgnoreError::TwoDigitTextYear, "twoDigitTextYear"),
    (IgnoreError::FormulaOmitsCells, "formulaRange"),
    (IgnoreError::DataValidationError, "listDataValidation"),
    (IgnoreError::NumberStoredAsText, "numberStoredAsText"),
    (IgnoreError::UnlockedCellsWithFormula, "unlockedFormula"),
    (IgnoreError::InconsistentColumnFormula, "calculatedColumn"),
    (IgnoreError::FormulaRefersToEmptyCells, "emptyCellReference"),
];

fn step(ctx: &mut Ctx, ws: &mut Worksheet, m: &mut Model, at: &str) {
    let k = if m.chart { 21 } else { 34 };
    match ctx.rng.below(k) {
        0 => {
            let v = ctx.rng.u32(0, 255) as u8;
            ctx.log(format!("{at}: paper {v}"));
            ws.set_paper_size(v);
            m.paper = v;
            m.set.insert("paper");
        }
        1 => {
            let l = ctx.rng.bool();
            ctx.log(format!("{at}: landscape {l}"));
            if l {
                ws.set_landscape();
            } else {
                ws.set_portrait();
            }
            m.landscape = l;
            m.set.insert("orientation");
        }
        2 | 3 => {
            let mut v = [0.0f64; 6];
            for x in &mut v {
                *x = match ctx.rng.below(6) {
                    0 => -1.0,
                    1 => 0.0,
                    2 => f64::from(ctx.rng.u32(0, 4900)) / 100.0,
                    3 => f64::NAN,
                    _ => f64::from(ctx.rng.u32(0, 30)) / 8.0,
                };
            }
            ctx.log(format!("{at}: margins {v:?}"));
            ws.set_margins(v[0], v[1], v[2], v[3], v[4], v[5]);
            for i in 0..6 {
                if v[i] >= 0.0 {
                    m.margins[i] = v[i];
                }
            }
            m.set.insert("margins");
        }
        4 | 5 => {
            let v = *ctx.rng.pick(&[0u16, 9, 10, 11, 50, 99, 100, 101, 200, 400, 401, 65535]);
            ctx.log(format!("{at}: zoom {v}"));
            ws.set_zoom(v);
            if (10..=400).contains(&v) {
                m.zoom = v;
                m.set.insert("zoom");
            }
        }
        6 => {
            let (c, d) = gen::color(&mut ctx.rng);
            if ctx.rng.one_in(5) {
                ctx.log(format!("{at}: tab color default"));
                ws.set_tab_color(Color::Default);
                m.tab = None;
            } else {
                ctx.log(format!("{at}: tab color {d}"));
                ws.set_tab_color(c);
                m.tab = Some(d);
                m.set.insert("tab");
            }
        }
        7..=9 => {
            let t = running_text(ctx);
            let ok = expanded(&t).chars().count() <= 255;
            let head = ctx.rng.bool();
            ctx.log(format!("{at}: {} {t:?}", if head { "header" } else { "footer" }));
            if head {
                ws.set_header(t.as_str());
            } else {
                ws.set_footer(t.as_str());
            }
            if ok {
                *(if head { &mut m.header } else { &mut m.footer }) = t;
                m.set.insert("running text");
            }
        }
        10 => {
            let v = ctx.rng.bool();
            ctx.log(format!("{at}: scale with document {v}"));
            ws.set_header_footer_scale_with_doc(v);
            m.scale_doc = v;
        }
        11 => {
            let v = ctx.rng.bool();
            ctx.log(format!("{at}: align with page {v}"));
            ws.set_header_footer_align_with_page(v);
            m.align = v;
        }
        12 => {
            let v = *ctx.rng.pick(&[1u16, 2, 3, 10, 255, 32767]);
            ctx.log(format!("{at}: first page {v}"));
            ws.set_print_first_page_number(v);
            m.first_page = v;
            m.set.insert("first page");
        }
        13 => {
            let v = ctx.rng.bool();
            ctx.log(format!("{at}: black and white {v}"));
            ws.set_print_black_and_white(v);
            m.bw = v;
        }
        14 => {
            let v = ctx.rng.bool();
            ctx.log(format!("{at}: draft {v}"));
            ws.set_print_draft(v);
            m.draft = v;
        }
        15 => {
            ctx.log(format!("{at}: protect"));
            ws.protect();
            m.protect = Some(m.pending.clone());
            m.set.insert("protect");
        }
        16 => {
            let p = if ctx.rng.one_in(8) {
                String::new()
            } else {
                let n = ctx.rng.usize(40) + 1;
                (0..n).map(|_| ctx.rng.u32(33, 126) as u8 as char).collect()
            };
            ctx.log(format!("{at}: password {p:?}"));
            ws.protect_with_password(&p);
            m.pending.0 = verifier(&p);
            m.protect = Some(m.pending.clone());
            m.set.insert("password");
        }
        17 => {
            let mut o = ProtectionOptions::new();
            let n = ctx.rng.usize(16);
            for _ in 0..n {
                let v = ctx.rng.bool();
                match ctx.rng.below(15) {
                    0 => o.select_locked_cells = v,
                    1 => o.select_unlocked_cells = v,
                    2 => o.format_cells = v,
                    3 => o.format_columns = v,
                    4 => o.format_rows = v,
                    5 => o.insert_columns = v,
                    6 => o.insert_rows = v,
                    7 => o.insert_links = v,
                    8 => o.delete_columns = v,
                    9 => o.delete_rows = v,
                    10 => o.sort = v,
                    11 => o.use_autofilter = v,
                    12 => o.use_pivot_tables = v,
                    13 => o.edit_scenarios = v,
                    _ => o.edit_objects = v,
                }
            }
            ctx.log(format!("{at}: protection options {:?}", locks(&o)));
            ws.protect_with_options(&o);
            m.pending.1 = locks(&o);
            m.protect = Some(m.pending.clone());
            m.set.insert("options");
        }
        18 | 19 => {
            let v = *ctx.rng.pick(&[0u16, 9, 10, 11, 50, 99, 100, 101, 200, 400, 401, 65535]);
            ctx.log(format!("{at}: print scale {v}"));
            ws.set_print_scale(v);
            if (10..=400).contains(&v) {
                m.scale = v;
                m.fit = None;
                m.set.insert("scale");
            }
        }
        20 => {
            let v = *ctx.rng.pick(&[false, true]);
            ctx.log(format!("{at}: page order down {}", !v));
            ws.set_page_order(!v);
            m.over = v;
        }
        // The remaining settings are for worksheets.
        21 => {
            let (w, h) = (*ctx.rng.pick(&[0u16, 1, 2, 3, 32767]), *ctx.rng.pick(&[0u16, 1, 2, 5, 32767]));
            ctx.log(format!("{at}: fit to {w} x {h}"));
            ws.set_print_fit_to_pages(w, h);
            m.fit = Some((w, h));
            m.scale = 100;
            m.set.insert("fit");
        }
        22 => {
            let (v, which) = (ctx.rng.bool(), ctx.rng.below(4));
            ctx.log(format!("{at}: print option {which} {v}"));
            match which {
                0 => {
                    ws.set_print_center_horizontally(v);
                    m.center_h = v;
                }
                1 => {
                    ws.set_print_center_vertically(v);
                    m.center_v = v;
                }
                2 => {
                    ws.set_print_headings(v);
                    m.headings = v;
                }
                _ => {
                    ws.set_print_gridlines(v);
                    m.print_grid = v;
                }
            }
        }
        23 => {
            let v = ctx.rng.bool();
            ctx.log(format!("{at}: gridlines {v}"));
            ws.set_screen_gridlines(v);
            m.grid = v;
        }
        24 => {
            let v = ctx.rng.bool();
            ctx.log(format!("{at}: right to left {v}"));
            ws.set_right_to_left(v);
            m.rtl = v;
        }
        25 => {
            let v = *ctx.rng.pick(&["normal", "pageLayout", "pageBreakPreview"]);
            ctx.log(format!("{at}: view {v}"));
            match v {
                "normal" => ws.set_view_normal(),
                "pageLayout" => ws.set_view_page_layout(),
                _ => ws.set_view_page_break_preview(),
            };
            m.view = v;
            m.set.insert("view");
        }
        26 => {
            let p = corner(ctx);
            ctx.log(format!("{at}: top left {p:?}"));
            let r = ws.set_top_left_cell(p.0, p.1).map(|_| ());
            expect(ctx, "top left cell", &r, inside(p));
            if inside(p) {
                m.top = Some(p);
                m.set.insert("top left");
            }
        }
        27 => {
            let p = corner(ctx);
            ctx.log(format!("{at}: freeze {p:?}"));
            let r = ws.set_freeze_panes(p.0, p.1).map(|_| ());
            expect(ctx, "freeze panes", &r, inside(p));
            if inside(p) {
                m.freeze = p;
                m.set.insert("panes");
            }
        }
        28 => {
            let p = corner(ctx);
            ctx.log(format!("{at}: freeze top cell {p:?}"));
            let r = ws.set_freeze_panes_top_cell(p.0, p.1).map(|_| ());
            expect(ctx, "freeze top cell", &r, inside(p));
            if inside(p) {
                m.freeze_top = p;
            }
        }
        29 => {
            let (p, q) = (corner(ctx), corner(ctx));
            ctx.log(format!("{at}: select {p:?} {q:?}"));
            let r = ws.set_selection(p.0, p.1, q.0, q.1).map(|_| ());
            let ok = inside(p) && inside(q);
            expect(ctx, "selection", &r, ok);
            if ok {
                m.selection = Some((p, (p.0.min(q.0), p.1.min(q.1), p.0.max(q.0), p.1.max(q.1))));
                m.set.insert("selection");
            }
        }
        30 => {
            let v = breaks(ctx, ROWS);
            ctx.log(format!("{at}: row breaks {} {:?}", v.len(), &v[..v.len().min(12)]));
            let w = wanted_breaks(&v, ROWS);
            let r = ws.set_page_breaks(&v).map(|_| ());
            expect(ctx, "page breaks", &r, w.is_some());
            match w {
                Some(w) if w.is_empty() => m.rows = Known::Open,
                Some(w) => {
                    m.rows = Known::Is(w);
                    m.set.insert("row breaks");
                }
                None => {}
            }
        }
        31 => {
            let v = breaks(ctx, u32::from(COLS));
            ctx.log(format!("{at}: column breaks {} {:?}", v.len(), &v[..v.len().min(12)]));
            let w = wanted_breaks(&v, u32::from(COLS));
            let r = ws.set_vertical_page_breaks(&v).map(|_| ());
            expect(ctx, "vertical page breaks", &r, w.is_some());
            match w {
                Some(w) if w.is_empty() => m.cols = Known::Open,
                Some(w) => {
                    m.cols = Known::Is(w);
                    m.set.insert("column breaks");
                }
                None => {}
            }
        }
        32 => {
            let (p, q) = (corner(ctx), corner(ctx));
            let named = ctx.rng.bool();
            let name = if named { format!("{} {}", gen::word(&mut ctx.rng), m.ranges.len()) } else { String::new() };
            let pass = if named && ctx.rng.bool() { gen::word(&mut ctx.rng) } else { String::new() };
            let pass = if pass.is_ascii() { pass } else { String::new() };
            ctx.log(format!("{at}: unprotect {p:?} {q:?} {name:?} {pass:?}"));
            let r = if named {
                ws.unprotect_range_with_options(p.0, p.1, q.0, q.1, &name, &pass).map(|_| ())
            } else {
                ws.unprotect_range(p.0, p.1, q.0, q.1).map(|_| ())
            };
            let ok = inside(p) && inside(q) && p.0 <= q.0 && p.1 <= q.1;
            expect(ctx, "unprotect range", &r, ok);
            if ok {
                let name = if named { name } else { format!("Range{}", m.ranges.len() + 1) };
                m.ranges.push((a1_range(p.0, p.1, q.0, q.1), name, verifier(&pass)));
                m.set.insert("unprotected ranges");
            }
        }
        _ => {
            let (p, mut q) = (corner(ctx), corner(ctx));
            let (e, name) = *ctx.rng.pick(&ERRORS);
            let single = ctx.rng.bool();
            if single {
                q = p;
            }
            ctx.log(format!("{at}: ignore {name} {p:?} {q:?}"));
            let r = if single {
                ws.ignore_error(p.0, p.1, e).map(|_| ())
            } else {
                ws.ignore_error_range(p.0, p.1, q.0, q.1, e).map(|_| ())
            };
            let key = (p.0, p.1, q.0, q.1);
            let ok = inside(p) && inside(q) && p.0 <= q.0 && p.1 <= q.1 && !m.used.contains(&key);
            expect(ctx, "ignored error", &r, ok);
            if ok {
                m.used.insert(key);
                m.ignored.entry(name).or_default().insert(a1_range(p.0, p.1, q.0, q.1));
                m.set.insert("ignored errors");
            }
        }
    }
}

fn text_of(x: &Elem, e: &str, n: &str) -> String {
    x.child(e).and_then(|h| h.child(n)).map(|t| xstring(&t.all_text())).unwrap_or_default()
}

fn hash_of(e: &Elem) -> Option<u16> {
    match e.attr("password") {
        None => Some(0),
        Some(s) => u16::from_str_radix(s, 16).ok(),
    }
}

fn flag_or(e: Option<&Elem>, n: &str, d: bool) -> bool {
    match e.and_then(|e| e.attr(n)) {
        None => d,
        Some(v) => v == "1" || v == "true",
    }
}

fn num_or(e: Option<&Elem>, n: &str, d: f64) -> f64 {
    match e.and_then(|e| e.attr(n)) {
        None => d,
        Some(v) => v.parse().unwrap_or(f64::NAN),
    }
}

fn verify(ctx: &mut Ctx, s: &Sheet, m: &Model, at: &str) {
    let x = &s.xml;
    // The view.
    let Some(v) = x.child("sheetViews").and_then(|v| v.child("sheetView")) else {
        ctx.fail("view", format!("{at}: no sheet view"));
        return;
    };
    ctx.eq(&flag_or(Some(v), "showGridLines", true), &m.grid, "gridlines", at);
    ctx.eq(&flag_or(Some(v), "rightToLeft", false), &m.rtl, "right to left", at);
    ctx.eq(&v.attr("view").unwrap_or("normal"), &m.view, "view mode", at);
    ctx.eq(&num_or(Some(v), "zoomScale", 100.0), &f64::from(m.zoom), "zoom", at);
    if !m.chart {
        let z = match m.view {
            "normal" => "zoomScaleNormal",
            "pageLayout" => "zoomScalePageLayoutView",
            _ => "zoomScaleSheetLayoutView",
        };
        let z = num_or(Some(v), z, 0.0);
        ctx.check(z == f64::from(m.zoom) || (z == 0.0 && m.zoom == 100), "zoom of the view", || {
            format!("{at}: {z} {}", m.zoom)
        });
    }
    let (r, c) = m.top.unwrap_or((0, 0));
    ctx.eq(&v.attr("topLeftCell").unwrap_or("A1"), &a1(r, c).as_str(), "top left cell", at);

    // The panes and the selection.
    let panes: Vec<&Elem> = v.children("pane").collect();
    let mut active = "topLeft";
    if m.freeze == (0, 0) {
        ctx.check(panes.is_empty(), "panes", || format!("{at}: {}", v.show()));
    } else if panes.len() != 1 {
        ctx.fail("panes", format!("{at}: {}", v.show()));
    } else {
        let p = panes[0];
        active = match m.freeze {
            (0, _) => "topRight",
            (_, 0) => "bottomLeft",
            _ => "bottomRight",
        };
        ctx.eq(&num_or(Some(p), "xSplit", 0.0), &f64::from(m.freeze.1), "horizontal split", at);
        ctx.eq(&num_or(Some(p), "ySplit", 0.0), &f64::from(m.freeze.0), "vertical split", at);
        ctx.eq(&p.attr("state"), &Some("frozen"), "pane state", at);
        ctx.eq(&p.attr("activePane").unwrap_or("topLeft"), &active, "active pane", at);
        let top = if m.freeze_top == (0, 0) { m.freeze } else { m.freeze_top };
        if top.0 >= m.freeze.0 && top.1 >= m.freeze.1 {
            ctx.eq(&p.attr("topLeftCell"), &Some(a1(top.0, top.1).as_str()), "pane top cell", at);
        }
    }
    let mut seen = BTreeSet::new();
    let mut found = None;
    for e in v.children("selection") {
        let pane = e.attr("pane").unwrap_or("topLeft");
        ctx.check(seen.insert(pane), "selections", || format!("{at}: two selections of {pane}: {}", v.show()));
        if pane == active {
            found = Some(e);
        }
    }
    if m.freeze == (0, 0) {
        ctx.check(seen.iter().all(|p| *p == "topLeft"), "selections", || format!("{at}: {}", v.show()));
    }
    if let Some((cell, (r1, c1, r2, c2))) = m.selection {
        let got = found.map(|e| {
            (
                e.attr("activeCell").unwrap_or("A1").to_string(),
                e.attr("sqref").unwrap_or("A1").to_string(),
            )
        });
        ctx.eq(&got, &Some((a1(cell.0, cell.1), a1_range(r1, c1, r2, c2))), "selection", at);
    } else if m.freeze == (0, 0) {
        let ok = found.is_none_or(|e| e.attr("sqref").unwrap_or("A1") == "A1");
        ctx.check(ok, "selection", || format!("{at}: {}", v.show()));
    }

    // The sheet properties.
    let pr = x.child("sheetPr");
    let tab = pr.and_then(|p| p.child("tabColor")).map(|t| {
        t.attrs
            .iter()
            .map(|(k, v)| format!("{k}={v}"))
            .collect::<Vec<_>>()
            .join(" ")
    });
    ctx.eq(&tab, &m.tab, "tab color", at);
    let fit = flag_or(pr.and_then(|p| p.child("pageSetUpPr")), "fitToPage", false);
    // These do not apply to a chartsheet, whose schema has no place for them.
    let (want_fit, want_scale, want_over) = if m.chart {
        (None, 100, false)
    } else {
        (m.fit, m.scale, m.over)
    };
    ctx.eq(&fit, &want_fit.is_some(), "fit to page", at);

    // The page.
    let p = x.child("pageSetup");
    ctx.eq(&num_or(p, "paperSize", 0.0), &f64::from(m.paper), "paper", at);
    ctx.eq(&num_or(p, "scale", 100.0), &f64::from(want_scale), "scale", at);
    if let Some((w, h)) = want_fit {
        ctx.eq(&num_or(p, "fitToWidth", 1.0), &f64::from(w), "fit width", at);
        ctx.eq(&num_or(p, "fitToHeight", 1.0), &f64::from(h), "fit height", at);
    }
    let over = p.and_then(|p| p.attr("pageOrder")).unwrap_or("downThenOver");
    ctx.eq(&over, &if want_over { "overThenDown" } else { "downThenOver" }, "page order", at);
    match p.and_then(|p| p.attr("orientation")) {
        None | Some("default") => {
            ctx.check(m.landscape == m.chart && !m.set.contains("orientation"), "orientation", || {
                format!("{at}: absent")
            });
        }
        Some(o) => {
            ctx.eq(&o, &if m.landscape { "landscape" } else { "portrait" }, "orientation", at);
        }
    }
    ctx.eq(&flag_or(p, "useFirstPageNumber", false), &(m.first_page > 0), "use of the first page", at);
    if m.first_page > 0 {
        ctx.eq(&num_or(p, "firstPageNumber", 1.0), &f64::from(m.first_page), "first page", at);
    }
    ctx.eq(&flag_or(p, "blackAndWhite", false), &m.bw, "black and white", at);
    ctx.eq(&flag_or(p, "draft", false), &m.draft, "draft", at);
    let o = x.child("printOptions");
    ctx.eq(&flag_or(o, "horizontalCentered", false), &m.center_h, "horizontal centering", at);
    ctx.eq(&flag_or(o, "verticalCentered", false), &m.center_v, "vertical centering", at);
    ctx.eq(&flag_or(o, "headings", false), &m.headings, "headings", at);
    ctx.eq(&flag_or(o, "gridLines", false), &m.print_grid, "printed gridlines", at);
    let pm = x.child("pageMargins");
    let margins = ["left", "right", "top", "bottom", "header", "footer"].map(|k| num_or(pm, k, -1.0));
    ctx.eq(&margins, &m.margins, "margins", at);

    // The header and the footer.
    let hf = x.child("headerFooter");
    ctx.eq(&text_of(x, "headerFooter", "oddHeader"), &expanded(&m.header), "header", at);
    ctx.eq(&text_of(x, "headerFooter", "oddFooter"), &expanded(&m.footer), "footer", at);
    if !m.header.is_empty() || !m.footer.is_empty() {
        ctx.eq(&flag_or(hf, "scaleWithDoc", true), &m.scale_doc, "scale with document", at);
        ctx.eq(&flag_or(hf, "alignWithMargins", true), &m.align, "align with margins", at);
        for k in ["differentOddEven", "differentFirst"] {
            ctx.check(!flag_or(hf, k, false), "header pages", || format!("{at}: {k}"));
        }
    }

    // The breaks.
    for (e, want, max) in [("rowBreaks", &m.rows, COLS as u32 - 1), ("colBreaks", &m.cols, ROWS - 1)] {
        let Known::Is(want) = want else { continue };
        let b = x.child(e);
        let got: Vec<u32> = b
            .map(|b| b.children("brk").map(|k| num_or(Some(k), "id", 0.0) as u32).collect())
            .unwrap_or_default();
        ctx.eq(&got, want, e, at);
        if let Some(b) = b {
            ctx.eq(&num_or(Some(b), "count", 0.0), &(want.len() as f64), "break count", at);
            ctx.eq(&num_or(Some(b), "manualBreakCount", 0.0), &(want.len() as f64), "break count", at);
            for k in b.children("brk") {
                let ok = flag_or(Some(k), "man", false) && num_or(Some(k), "max", 0.0) == f64::from(max);
                ctx.check(ok, "break", || format!("{at}: {}", k.show()));
            }
        }
    }

    // Protection.
    match (x.child("sheetProtection"), &m.protect) {
        (None, None) => {}
        (Some(e), Some((hash, want))) => {
            ctx.eq(&hash_of(e), &Some(*hash), "password", at);
            if m.chart {
                ctx.eq(&flag_or(Some(e), "objects", false), &want["objects"], "objects", at);
            } else {
                ctx.check(flag_or(Some(e), "sheet", false), "protected", || format!("{at}: {}", e.show()));
                let got: BTreeMap<&str, bool> = want
                    .keys()
                    .map(|k| (*k, flag_or(Some(e), k, LOCK_DEFAULT.contains(k))))
                    .collect();
                ctx.eq(&got, want, "locks", at);
            }
        }
        (e, w) => ctx.fail("protection", format!("{at}: {} {w:?}", e.map(Elem::show).unwrap_or_default())),
    }
    let got: Vec<(String, String, u16)> = x
        .child("protectedRanges")
        .map(|r| {
            r.children("protectedRange")
                .map(|e| {
                    (
                        e.attr("sqref").unwrap_or("").to_string(),
                        e.attr("name").unwrap_or("").to_string(),
                        hash_of(e).unwrap_or(1),
                    )
                })
                .collect()
        })
        .unwrap_or_default();
    ctx.eq(&got, &m.ranges, "unprotected ranges", at);

    // Ignored errors.
    let mut got: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
    let mut cells = 0;
    if let Some(i) = x.child("ignoredErrors") {
        for e in i.children("ignoredError") {
            for (_, name) in ERRORS {
                if flag_or(Some(e), name, false) {
                    for r in e.attr("sqref").unwrap_or("").split(' ') {
                        got.entry(name).or_default().insert(r.to_string());
                        cells += 1;
                    }
                }
            }
        }
    }
    ctx.eq(&got, &m.ignored, "ignored errors", at);
    ctx.eq(&cells, &m.ignored.values().map(BTreeSet::len).sum::<usize>(), "ignored errors", at);
}

fn check_book(ctx: &mut Ctx, b: &Book, read_only: bool) {
    let wb = match b.pkg.xml("xl/workbook.xml") {
        Ok(x) => x,
        Err(e) => {
            ctx.fail("workbook", e);
            return;
        }
    };
    let got = flag_or(wb.child("fileSharing"), "readOnlyRecommended", false);
    ctx.eq(&got, &read_only, "read only", "workbook");
}

pub fn case(ctx: &mut Ctx) {
    let n = ctx.rng.u16(1, 3) as usize;
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let mut ms = vec![Model::new(false); n];
    let mut names = sh.names.clone();
    let charted = ctx.rng.one_in(3);
    if charted {
        let ws = sh.wb.add_chartsheet();
        let _ = ws.set_name("Charted");
        let mut chart = Chart::new(ChartType::Line);
        chart.add_series().set_values("=S0!$A$1:$A$3");
        if let Err(e) = ws.insert_chart(0, 0, &chart) {
            ctx.fail("chart", format!("{e}"));
            return;
        }
        names.push("Charted".into());
        ms.push(Model::new(true));
    }
    let mut read_only = false;
    let saves = ctx.rng.u16(1, 3);
    for save in 0..saves {
        for _ in 0..ctx.rng.u16(1, 45) {
            let i = ctx.rng.usize(ms.len());
            let at = names[i].clone();
            if ms[i].chart {
                if let Ok(ws) = sh.wb.worksheet_from_name("Charted") {
                    step(ctx, ws, &mut ms[i], &at);
                }
            } else if ctx.rng.one_in(14) {
                let (r, c) = (ctx.rng.u32(0, 50), ctx.rng.u16(0, 9));
                ctx.log(format!("{at}: cell {}", a1(r, c)));
                if let Err(e) = sh.ws(i).write(r, c, 1.5) {
                    ctx.fail("write", format!("{e}"));
                }
            } else {
                step(ctx, sh.ws(i), &mut ms[i], &at);
            }
            if !ctx.fails.is_empty() {
                return;
            }
        }
        if ctx.rng.one_in(20) {
            ctx.log("read only recommended");
            sh.wb.read_only_recommended();
            read_only = true;
        }
        sh.attach();
        let Some(b) = open_wb(ctx, &mut sh.wb) else { return };
        check_book(ctx, &b, read_only);
        for (i, m) in ms.iter().enumerate() {
            let Some(s) = b.sheet(&names[i]) else {
                ctx.fail("sheet", format!("{} is missing", names[i]));
                return;
            };
            verify(ctx, s, m, &format!("save {save} {}", names[i]));
        }
        if !ctx.fails.is_empty() {
            return;
        }
    }
    let kinds: usize = ms.iter().map(|m| m.set.len()).sum();
    ctx.add("settings checked", kinds as u64);
    ctx.add("saves", u64::from(saves));
    ctx.add("chartsheets", u64::from(charted));
    for m in &ms {
        for k in &m.set {
            ctx.count(k);
        }
    }
    if kinds > 3 {
        ctx.nontrivial = true;
    }
}
