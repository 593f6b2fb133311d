//! Kitchen-sink workloads: random but valid programs that use every feature of
//! worksheets and workbooks, recorded as replayable steps.

use crate::gen::{self, TextOpt};
use crate::rng::Rng;
use rust_xlsxwriter::*;
use std::collections::BTreeSet;
use std::sync::Arc;

pub type Res = Result<(), XlsxError>;
pub type WsFn = Arc<dyn Fn(&mut Worksheet) -> Res + Send + Sync>;
pub type WbFn = Arc<dyn Fn(&mut Workbook) -> Res + Send + Sync>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    /// Column settings: before any data where modes are compared.
    Early,
    /// Touches cells or rows from `row` on.
    Cell,
    /// Touches neither cells nor rows.
    Any,
}

/// A text supplied by the caller and where it went.
#[derive(Clone, Debug)]
pub struct Given {
    pub what: &'static str,
    pub text: String,
}

#[derive(Clone)]
pub struct Step {
    pub desc: String,
    pub feature: &'static str,
    pub kind: Kind,
    pub row: u32,
    pub f: WsFn,
    pub texts: Vec<Given>,
}

#[derive(Clone)]
pub struct SheetProg {
    pub name: String,
    pub chart_sheet: bool,
    pub steps: Vec<Step>,
}

#[derive(Clone)]
pub struct WbStep {
    pub desc: String,
    pub f: WbFn,
    pub texts: Vec<Given>,
}

#[derive(Clone, Default)]
pub struct Prog {
    pub sheets: Vec<SheetProg>,
    pub wb: Vec<WbStep>,
}

#[derive(Clone)]
pub struct Opt {
    pub text: TextOpt,
    /// Number of features per sheet.
    pub size: usize,
    /// Features to leave out.
    pub skip: &'static [&'static str],
    /// Only these features, when not empty.
    pub only: &'static [&'static str],
    pub chart_sheets: bool,
    pub workbook: bool,
    pub sheets: usize,
    /// Where files the library reads may be put.
    pub scratch: Option<std::path::PathBuf>,
}

impl Default for Opt {
    fn default() -> Self {
        Opt {
            text: gen::ALL,
            size: 12,
            skip: &[],
            only: &[],
            chart_sheets: true,
            workbook: true,
            sheets: 4,
            scratch: None,
        }
    }
}

// ---------------------------------------------------------------------------
// Image files.

fn crc(b: &[u8]) -> u32 {
    crc32fast::hash(b)
}

fn png_chunk(out: &mut Vec<u8>, kind: &[u8; 4], data: &[u8]) {
    out.extend((data.len() as u32).to_be_bytes());
    let mut k = kind.to_vec();
    k.extend(data);
    out.extend(&k);
    out.extend(crc(&k).to_be_bytes());
}

/// A PNG with the given size and optional dots per metre.
pub fn png(w: u32, h: u32, dpm: Option<(u32, u32)>, salt: &[u8]) -> Vec<u8> {
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut d = vec![];
    d.extend(w.to_be_bytes());
    d.extend(h.to_be_bytes());
    d.extend([8, 2, 0, 0, 0]);
    png_chunk(&mut o, b"IHDR", &d);
    if let Some((x, y)) = dpm {
        let mut d = vec![];
        d.extend(x.to_be_bytes());
        d.extend(y.to_be_bytes());
        d.push(1);
        png_chunk(&mut o, b"pHYs", &d);
    }
    png_chunk(&mut o, b"tEXt", salt);
    png_chunk(&mut o, b"IDAT", &[0x78, 0x9c, 3, 0, 0, 0, 0, 1]);
    png_chunk(&mut o, b"IEND", &[]);
    o
}

pub fn jpg(w: u16, h: u16, units: u8, dx: u16, dy: u16, salt: &[u8]) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    let mut app = b"JFIF\0".to_vec();
    app.extend([1, 1, units]);
    app.extend(dx.to_be_bytes());
    app.extend(dy.to_be_bytes());
    app.extend([0, 0]);
    let seg = |m: u8, d: &[u8], o: &mut Vec<u8>| {
        o.extend([0xFF, m]);
        o.extend(((d.len() + 2) as u16).to_be_bytes());
        o.extend(d);
    };
    seg(0xE0, &app, &mut o);
    seg(0xFE, salt, &mut o);
    let mut sof = vec![8];
    sof.extend(h.to_be_bytes());
    sof.extend(w.to_be_bytes());
    sof.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
    seg(0xC0, &sof, &mut o);
    seg(0xDA, &[1, 1, 0, 0, 63, 0], &mut o);
    o.extend([0, 0xFF, 0xD9]);
    o
}

pub fn gif(w: u16, h: u16, salt: &[u8]) -> Vec<u8> {
    let mut o = b"GIF89a".to_vec();
    o.extend(w.to_le_bytes());
    o.extend(h.to_le_bytes());
    o.extend([0, 0, 0]);
    o.extend(salt);
    o.push(0x3B);
    o
}

pub fn bmp(w: u32, h: u32, salt: &[u8]) -> Vec<u8> {
    let mut o = b"BM".to_vec();
    o.extend(100u32.to_le_bytes());
    o.extend([0; 4]);
    o.extend(54u32.to_le_bytes());
    o.extend(40u32.to_le_bytes());
    o.extend(w.to_le_bytes());
    o.extend(h.to_le_bytes());
    o.extend([1, 0, 24, 0]);
    o.extend([0; 24]);
    o.extend(salt);
    o
}

/// The bytes of a random image file, its extension and its size in pixels.
pub fn image_bytes(r: &mut Rng) -> (Vec<u8>, &'static str, (u32, u32)) {
    let salt: Vec<u8> = if r.one_in(3) {
        vec![b'x', r.u8(0, 3)]
    } else {
        (0..8).map(|_| r.u8(0, 255)).collect()
    };
    let (w, h) = if r.one_in(3) {
        (32, 32)
    } else {
        (r.u32(1, 400), r.u32(1, 300))
    };
    match r.below(5) {
        0 | 1 => {
            let d = *r.pick(&[
                None,
                Some((3780u32, 3780u32)),
                Some((2835, 5906)),
                Some((11811, 11811)),
            ]);
            (png(w, h, d, &salt), "png", (w, h))
        }
        2 => {
            let (u, dx, dy) = *r.pick(&[(0u8, 1u16, 1u16), (1, 96, 96), (1, 72, 72), (2, 59, 59)]);
            (jpg(w as u16, h as u16, u, dx, dy, &salt), "jpeg", (w, h))
        }
        3 => (gif(w as u16, h as u16, &salt), "gif", (w, h)),
        _ => (bmp(w, h, &salt), "bmp", (w, h)),
    }
}

pub fn image(r: &mut Rng) -> (Image, Vec<u8>, &'static str) {
    loop {
        let (b, e, _) = image_bytes(r);
        if let Ok(i) = Image::new_from_buffer(&b) {
            return (i, b, e);
        }
    }
}

// ---------------------------------------------------------------------------
// Small generators.

pub fn movement(r: &mut Rng) -> ObjectMovement {
    *r.pick(&[
        ObjectMovement::MoveAndSizeWithCells,
        ObjectMovement::MoveButDontSizeWithCells,
        ObjectMovement::DontMoveOrSizeWithCells,
        ObjectMovement::MoveAndSizeWithCellsAfter,
    ])
}

pub fn format(r: &mut Rng) -> Format {
    gen::Fmt::random(r, 4).f
}

pub fn color(r: &mut Rng) -> Color {
    gen::color(r).0
}

fn dt(r: &mut Rng) -> ExcelDateTime {
    let (y, m, d) = (r.u16(1900, 2100), r.u8(1, 12), r.u8(1, 28));
    ExcelDateTime::from_ymd(y, m, d)
        .and_then(|x| x.and_hms(r.u16(0, 23), r.u8(0, 59), f64::from(r.u8(0, 59))))
        .unwrap_or_default()
}

pub const ICONS: &[(ConditionalFormatIconType, &str, usize)] = &[
    (ConditionalFormatIconType::ThreeArrows, "3Arrows", 3),
    (ConditionalFormatIconType::ThreeArrowsGray, "3ArrowsGray", 3),
    (ConditionalFormatIconType::ThreeFlags, "3Flags", 3),
    (
        ConditionalFormatIconType::ThreeTrafficLights,
        "3TrafficLights1",
        3,
    ),
    (
        ConditionalFormatIconType::ThreeTrafficLightsWithRim,
        "3TrafficLights2",
        3,
    ),
    (ConditionalFormatIconType::ThreeSigns, "3Signs", 3),
    (
        ConditionalFormatIconType::ThreeSymbolsCircled,
        "3Symbols",
        3,
    ),
    (ConditionalFormatIconType::ThreeSymbols, "3Symbols2", 3),
    (ConditionalFormatIconType::ThreeStars, "3Stars", 3),
    (ConditionalFormatIconType::ThreeTriangles, "3Triangles", 3),
    (ConditionalFormatIconType::FourArrows, "4Arrows", 4),
    (ConditionalFormatIconType::FourArrowsGray, "4ArrowsGray", 4),
    (ConditionalFormatIconType::FourRedToBlack, "4RedToBlack", 4),
    (ConditionalFormatIconType::FourHistograms, "4Rating", 4),
    (
        ConditionalFormatIconType::FourTrafficLights,
        "4TrafficLights",
        4,
    ),
    (ConditionalFormatIconType::FiveArrows, "5Arrows", 5),
    (ConditionalFormatIconType::FiveArrowsGray, "5ArrowsGray", 5),
    (ConditionalFormatIconType::FiveHistograms, "5Rating", 5),
    (ConditionalFormatIconType::FiveQuadrants, "5Quarters", 5),
    (ConditionalFormatIconType::FiveBoxes, "5Boxes", 5),
];

// ---------------------------------------------------------------------------
// Charts.

pub const CHART_TYPES: &[ChartType] = &[
    ChartType::Area,
    ChartType::AreaStacked,
    ChartType::AreaPercentStacked,
    ChartType::Bar,
    ChartType::BarStacked,
    ChartType::BarPercentStacked,
    ChartType::Column,
    ChartType::ColumnStacked,
    ChartType::ColumnPercentStacked,
    ChartType::Doughnut,
    ChartType::Line,
    ChartType::LineStacked,
    ChartType::LinePercentStacked,
    ChartType::Pie,
    ChartType::Radar,
    ChartType::RadarWithMarkers,
    ChartType::RadarFilled,
    ChartType::Scatter,
    ChartType::ScatterStraight,
    ChartType::ScatterStraightWithMarkers,
    ChartType::ScatterSmooth,
    ChartType::ScatterSmoothWithMarkers,
    ChartType::Stock,
];

pub const SCATTER: &[ChartType] = &[
    ChartType::Scatter,
    ChartType::ScatterStraight,
    ChartType::ScatterStraightWithMarkers,
    ChartType::ScatterSmooth,
    ChartType::ScatterSmoothWithMarkers,
];

pub fn chart_line(r: &mut Rng) -> ChartLine {
    let mut l = ChartLine::new();
    if r.bool() {
        l.set_color(color(r));
    }
    if r.bool() {
        l.set_width(f64::from(r.u8(1, 40)) / 4.0);
    }
    if r.one_in(3) {
        l.set_dash_type(*r.pick(&[
            ChartLineDashType::Solid,
            ChartLineDashType::RoundDot,
            ChartLineDashType::SquareDot,
            ChartLineDashType::Dash,
            ChartLineDashType::DashDot,
            ChartLineDashType::LongDash,
            ChartLineDashType::LongDashDot,
            ChartLineDashType::LongDashDotDot,
        ]));
    }
    if r.one_in(4) {
        l.set_transparency(r.u8(0, 100));
    }
    if r.one_in(10) {
        l.set_hidden(true);
    }
    l
}

pub fn chart_format(r: &mut Rng) -> ChartFormat {
    let mut f = ChartFormat::new();
    match r.below(4) {
        0 => {
            f.set_line(&chart_line(r));
        }
        1 => {
            f.set_border(&chart_line(r));
        }
        2 => {
            f.set_no_line();
        }
        _ => {}
    }
    match r.below(6) {
        0 => {
            f.set_no_fill();
        }
        1 | 2 => {
            let mut s = ChartSolidFill::new();
            s.set_color(color(r));
            if r.bool() {
                s.set_transparency(r.u8(0, 100));
            }
            f.set_solid_fill(&s);
        }
        3 => {
            let mut s = ChartPatternFill::new();
            s.set_pattern(*r.pick(&[
                ChartPatternFillType::Dotted5Percent,
                ChartPatternFillType::Weave,
                ChartPatternFillType::SolidDiamondGrid,
                ChartPatternFillType::DiagonalStripesWideUpwards,
            ]));
            if r.bool() {
                s.set_background_color(color(r));
            }
            if r.bool() {
                s.set_foreground_color(color(r));
            }
            f.set_pattern_fill(&s);
        }
        4 => {
            let mut g = ChartGradientFill::new();
            g.set_gradient_stops(&[
                ChartGradientStop::new(color(r), 0),
                ChartGradientStop::new(color(r), r.u8(1, 99)),
                ChartGradientStop::new(color(r), 100),
            ]);
            if r.bool() {
                g.set_type(*r.pick(&[
                    ChartGradientFillType::Linear,
                    ChartGradientFillType::Radial,
                    ChartGradientFillType::Rectangular,
                    ChartGradientFillType::Path,
                ]));
            }
            if r.bool() {
                g.set_angle(r.u16(0, 359));
            }
            f.set_gradient_fill(&g);
        }
        _ => {}
    }
    f
}

pub fn chart_font(r: &mut Rng) -> ChartFont {
    let mut f = ChartFont::new();
    if r.bool() {
        f.set_bold();
    }
    if r.one_in(3) {
        f.set_italic();
    }
    if r.bool() {
        f.set_color(color(r));
    }
    if r.one_in(3) {
        f.set_name("A&B \"Font\"");
    }
    if r.bool() {
        f.set_size(f64::from(r.u8(6, 30)));
    }
    if r.one_in(4) {
        f.set_rotation(*r.pick(&[-90i16, -45, 0, 30, 90, 270, 271]));
    }
    if r.one_in(4) {
        f.set_underline();
    }
    if r.one_in(4) {
        f.set_strikethrough();
    }
    if r.one_in(6) {
        f.unset_bold();
    }
    if r.one_in(6) {
        f.set_right_to_left(r.bool());
    }
    if r.one_in(6) {
        f.set_pitch_family(r.u8(1, 50));
    }
    if r.one_in(6) {
        f.set_character_set(r.u8(1, 250));
    }
    f
}

fn layout(r: &mut Rng) -> ChartLayout {
    let l = ChartLayout::new().set_offset(r.f01() * 0.9 + 0.01, r.f01() * 0.9 + 0.01);
    if r.bool() {
        l.set_dimensions(r.f01() * 0.9 + 0.01, r.f01() * 0.9 + 0.01)
    } else {
        l
    }
}

fn data_label(r: &mut Rng, t: &mut T, ct: ChartType) -> ChartDataLabel {
    let mut l = ChartDataLabel::new();
    l.show_value();
    if r.bool() {
        l.show_category_name();
    }
    if r.bool() {
        l.show_series_name();
    }
    if r.one_in(4) {
        l.show_legend_key();
    }
    if matches!(ct, ChartType::Pie | ChartType::Doughnut) {
        if r.bool() {
            l.show_leader_lines();
        }
        if r.bool() {
            l.show_percentage();
        }
    }
    if r.one_in(3) {
        l.set_num_format(t.get(r, "chart label format", 12));
    }
    if r.one_in(3) {
        l.set_font(&chart_font(r));
    }
    if r.one_in(3) {
        l.set_format(&mut chart_format(r));
    }
    if r.one_in(3) {
        l.set_separator(*r.pick(&[',', ';', '.', '\n', ' ']));
    }
    if r.one_in(3) {
        l.set_position(*r.pick(&[
            ChartDataLabelPosition::Center,
            ChartDataLabelPosition::Default,
        ]));
    }
    l
}

/// Collects supplied texts.
pub struct T {
    pub opt: TextOpt,
    pub given: Vec<Given>,
}
impl T {
    pub fn get(&mut self, r: &mut Rng, what: &'static str, max: usize) -> String {
        let s = gen::text(r, max, self.opt);
        self.given.push(Given {
            what,
            text: s.clone(),
        });
        s
    }
    /// A text with a fixed letter in front, so that it is not read as a
    /// formula and not empty.
    pub fn prefixed(&mut self, r: &mut Rng, what: &'static str, max: usize, p: &str) -> String {
        let s = format!("{p}{}", gen::text(r, max, self.opt));
        self.given.push(Given {
            what,
            text: s.clone(),
        });
        s
    }
}

fn axis(r: &mut Rng, t: &mut T, a: &mut ChartAxis, sheet: &str, ct: ChartType) {
    let had = t.given.len();
    if r.one_in(3) {
        if r.bool() {
            // A leading `=` would make it a reference.
            let s = t.prefixed(r, "axis title", 20, "t");
            a.set_name(&s);
        } else {
            a.set_name((sheet, 0, 0));
        }
        if r.bool() {
            a.set_name_font(&chart_font(r));
        }
    }
    if r.one_in(4) {
        a.set_font(&chart_font(r));
    }
    if r.one_in(4) {
        a.set_format(&mut chart_format(r));
    }
    if r.one_in(4) {
        let s = t.get(r, "axis format", 12);
        a.set_num_format(s);
    }
    if r.one_in(6) {
        match r.below(3) {
            0 => a.set_date_axis(true),
            1 => a.set_text_axis(true),
            _ => a.set_automatic_axis(true),
        };
    }
    if r.one_in(6) {
        a.set_reverse();
    }
    if r.one_in(4) {
        a.set_min(f64::from(r.u8(0, 10)))
            .set_max(f64::from(r.u8(11, 90)));
    }
    if r.one_in(6) {
        a.set_crossing(*r.pick(&[
            ChartAxisCrossing::Automatic,
            ChartAxisCrossing::Min,
            ChartAxisCrossing::Max,
            ChartAxisCrossing::CategoryNumber(3),
            ChartAxisCrossing::AxisValue(2.5),
        ]));
    }
    if r.one_in(6) {
        a.set_major_unit(2).set_minor_unit(1);
    }
    if r.one_in(6) {
        a.set_major_gridlines(r.bool())
            .set_minor_gridlines(r.bool());
    }
    if r.one_in(8) {
        a.set_major_gridlines_line(&chart_line(r));
    }
    if r.one_in(8) {
        a.set_minor_gridlines_line(&chart_line(r));
    }
    if r.one_in(8) {
        a.set_display_unit_type(ChartAxisDisplayUnitType::Thousands)
            .set_display_units_visible(r.bool());
    }
    if r.one_in(8) {
        a.set_label_position(*r.pick(&[
            ChartAxisLabelPosition::NextTo,
            ChartAxisLabelPosition::High,
            ChartAxisLabelPosition::Low,
            ChartAxisLabelPosition::None,
        ]));
    }
    if r.one_in(8) {
        a.set_position_between_ticks(r.bool());
    }
    if r.one_in(8) {
        a.set_label_interval(r.u16(1, 5))
            .set_tick_interval(r.u16(1, 5));
    }
    if r.one_in(8) {
        a.set_major_tick_type(ChartAxisTickType::Cross)
            .set_minor_tick_type(ChartAxisTickType::Inside);
    }
    if r.one_in(8) {
        a.set_log_base(10);
    }
    let hidden = r.one_in(10);
    if hidden {
        a.set_hidden(true);
    }
    if r.one_in(10) {
        a.set_label_alignment(ChartAxisLabelAlignment::Right);
    }
    if r.one_in(10) {
        a.set_label_layout(&layout(r));
    }
    if r.one_in(10) {
        a.set_major_unit_date_type(ChartAxisDateUnitType::Months)
            .set_minor_unit_date_type(ChartAxisDateUnitType::Days);
    }
    if hidden || matches!(ct, ChartType::Pie | ChartType::Doughnut) {
        // No axis.
        t.given.truncate(had);
    }
}

pub fn series(
    r: &mut Rng,
    t: &mut T,
    ct: ChartType,
    sheets: &[String],
    secondary: bool,
) -> ChartSeries {
    let sheet = r.pick(sheets).clone();
    let mut s = ChartSeries::new();
    let r0 = r.u32(0, 4);
    let c0 = r.u16(0, 4);
    let n = r.u32(0, 5);
    if r.bool() {
        s.set_values((sheet.as_str(), r0, c0, r0 + n, c0));
    } else {
        s.set_values((sheet.as_str(), r0, c0, r0, c0 + n as u16));
    }
    if r.bool() || SCATTER.contains(&ct) {
        s.set_categories((sheet.as_str(), r0, c0 + 1, r0 + n, c0 + 1));
    }
    match r.below(3) {
        0 => {
            let x = t.prefixed(r, "series name", 20, "n");
            s.set_name(&x);
        }
        1 => {
            s.set_name((sheet.as_str(), 0, c0));
        }
        _ => {}
    }
    if secondary {
        s.set_secondary_axis(true);
    }
    if r.one_in(3) {
        s.set_format(&mut chart_format(r));
    }
    // Only what the chart type has.
    let line = matches!(
        ct,
        ChartType::Line | ChartType::LineStacked | ChartType::LinePercentStacked | ChartType::Stock
    );
    let bar = matches!(
        ct,
        ChartType::Bar
            | ChartType::BarStacked
            | ChartType::BarPercentStacked
            | ChartType::Column
            | ChartType::ColumnStacked
            | ChartType::ColumnPercentStacked
    );
    let radar = matches!(
        ct,
        ChartType::Radar | ChartType::RadarFilled | ChartType::RadarWithMarkers
    );
    let pie = matches!(ct, ChartType::Pie | ChartType::Doughnut);
    let scatter = SCATTER.contains(&ct);
    if (line || scatter || radar) && r.one_in(3) {
        let mut m = ChartMarker::new();
        match r.below(3) {
            0 => {
                m.set_automatic();
            }
            1 => {
                m.set_none();
            }
            _ => {
                m.set_type(*r.pick(&[
                    ChartMarkerType::Square,
                    ChartMarkerType::PlusSign,
                    ChartMarkerType::ShortDash,
                ]))
                .set_size(r.u8(2, 72))
                .set_format(&mut chart_format(r));
            }
        }
        s.set_marker(&m);
    }
    if r.one_in(3) {
        s.set_data_label(&data_label(r, t, ct));
    }
    if r.one_in(4) {
        let mut v = vec![];
        for i in 0..r.usize(3) + 1 {
            let mut l = ChartDataLabel::new();
            match i % 3 {
                0 => {
                    let x = t.prefixed(r, "custom label", 12, "c");
                    l.set_value(&x);
                }
                1 => {
                    l.set_hidden();
                }
                _ => {
                    l.set_value((sheet.as_str(), 1, 1));
                }
            }
            if r.one_in(3) {
                l.set_font(&chart_font(r));
            }
            v.push(l.to_custom());
        }
        s.set_custom_data_labels(&v);
    }
    if r.one_in(4) {
        let p: Vec<ChartPoint> = (0..r.usize(3) + 1)
            .map(|_| ChartPoint::new().set_format(&mut chart_format(r)))
            .collect();
        s.set_points(&p);
    }
    if !radar && !pie && r.one_in(4) {
        let mut tl = ChartTrendline::new();
        tl.set_type(match r.below(7) {
            0 => ChartTrendlineType::Exponential,
            1 => ChartTrendlineType::Logarithmic,
            2 => ChartTrendlineType::Polynomial(3),
            3 => ChartTrendlineType::Power,
            4 => ChartTrendlineType::MovingAverage(2),
            _ => ChartTrendlineType::Linear,
        });
        if r.bool() {
            tl.set_name(t.get(r, "trendline name", 15));
        }
        if r.bool() {
            tl.display_equation(true).display_r_squared(true);
        }
        if r.bool() {
            tl.set_forward_period(0.5).set_backward_period(1.5);
        }
        if r.one_in(3) {
            tl.set_intercept(1.0);
        }
        if r.one_in(3) {
            tl.set_format(&mut chart_format(r));
        }
        if r.one_in(4) {
            tl.set_label_font(&chart_font(r));
        }
        if r.one_in(4) {
            tl.set_label_format(&mut chart_format(r));
        }
        if r.one_in(4) {
            tl.delete_from_legend(true);
        }
        s.set_trendline(&tl);
    }
    for k in 0..2 {
        if !radar && !pie && (k == 0 || scatter) && r.one_in(6) {
            let mut e = ChartErrorBars::new();
            e.set_type(match r.below(5) {
                0 => ChartErrorBarsType::FixedValue(2.0),
                1 => ChartErrorBarsType::Percentage(7.5),
                2 => ChartErrorBarsType::StandardDeviation(1.5),
                3 => ChartErrorBarsType::StandardError,
                _ => ChartErrorBarsType::Custom(
                    ChartRange::new_from_range(&sheet, 0, 0, 2, 0),
                    ChartRange::new_from_range(&sheet, 0, 1, 2, 1),
                ),
            });
            e.set_direction(*r.pick(&[
                ChartErrorBarsDirection::Both,
                ChartErrorBarsDirection::Minus,
                ChartErrorBarsDirection::Plus,
            ]));
            e.set_end_cap(r.bool());
            if k == 0 {
                s.set_y_error_bars(&e);
            } else {
                s.set_x_error_bars(&e);
            }
        }
    }
    if r.one_in(4) {
        s.set_overlap(r.range(-100, 100) as i8)
            .set_gap(r.u16(0, 500));
    }
    if (line || scatter) && r.one_in(4) {
        s.set_smooth(true);
    }
    if bar && r.one_in(6) {
        s.set_invert_if_negative();
    }
    if bar && r.one_in(8) {
        s.set_invert_if_negative_color(color(r));
    }
    if r.one_in(6) {
        s.delete_from_legend(true);
    }
    s
}

pub fn chart(r: &mut Rng, t: &mut T, sheets: &[String]) -> Chart {
    let ct = *r.pick(CHART_TYPES);
    let mut c = Chart::new(ct);
    let sheet = r.pick(sheets).clone();
    let secondary_ok = !matches!(
        ct,
        ChartType::Pie
            | ChartType::Doughnut
            | ChartType::Radar
            | ChartType::RadarFilled
            | ChartType::RadarWithMarkers
    );
    let n = if ct == ChartType::Stock {
        3
    } else {
        1 + r.usize(3)
    };
    let mut sec = false;
    for i in 0..n {
        let s2 = secondary_ok && ct != ChartType::Stock && i > 0 && r.one_in(4);
        sec |= s2;
        let s = series(r, t, ct, sheets, s2);
        c.push_series(&s);
    }
    match r.below(4) {
        0 => {
            let s = t.prefixed(r, "chart title", 25, "T");
            c.title().set_name(&s);
            if r.bool() {
                c.title().set_font(&chart_font(r));
            }
            if r.bool() {
                c.title().set_format(&mut chart_format(r));
            }
            if r.one_in(3) {
                c.title().set_layout(&layout(r));
            }
            if r.one_in(3) {
                c.title().set_overlay(true);
            }
        }
        1 => {
            c.title().set_name((sheet.as_str(), 0, 0));
        }
        2 => {
            c.title().set_hidden();
        }
        _ => {}
    }
    axis(r, t, c.x_axis(), &sheet, ct);
    axis(r, t, c.y_axis(), &sheet, ct);
    if sec {
        // Hidden unless it is asked for.
        let had = t.given.len();
        axis(r, t, c.x2_axis(), &sheet, ct);
        t.given.truncate(had);
        axis(r, t, c.y2_axis(), &sheet, ct);
    }
    if r.one_in(3) {
        let l = c.legend();
        match r.below(3) {
            0 => {
                l.set_hidden();
            }
            1 => {
                l.set_position(*r.pick(&[
                    ChartLegendPosition::Right,
                    ChartLegendPosition::Left,
                    ChartLegendPosition::Top,
                    ChartLegendPosition::Bottom,
                    ChartLegendPosition::TopRight,
                ]));
                if r.bool() {
                    l.set_overlay(true);
                }
                if r.bool() {
                    l.set_font(&chart_font(r));
                }
                if r.bool() {
                    l.delete_entries(&[0]);
                }
            }
            _ => {
                l.set_format(&mut chart_format(r)).set_layout(&layout(r));
            }
        }
    }
    if r.one_in(3) {
        c.chart_area().set_format(&mut chart_format(r));
    }
    if r.one_in(3) {
        c.plot_area().set_format(&mut chart_format(r));
    }
    if r.one_in(5) {
        c.plot_area().set_layout(&layout(r));
    }
    if r.one_in(4) {
        c.set_style(r.u8(1, 48));
    }
    if r.one_in(4) {
        c.set_rotation(r.u16(0, 360)).set_hole_size(r.u8(10, 90));
    }
    if r.one_in(5) {
        c.set_up_down_bars(true);
        if r.bool() {
            c.set_up_bar_format(&mut chart_format(r));
            c.set_down_bar_format(&mut chart_format(r));
        }
    }
    if r.one_in(5) {
        c.set_high_low_lines(true);
        if r.bool() {
            c.set_high_low_lines_format(&mut chart_format(r));
        }
    }
    if r.one_in(5) {
        c.set_drop_lines(true);
        if r.bool() {
            c.set_drop_lines_format(&mut chart_format(r));
        }
    }
    if r.one_in(5) {
        let mut d = ChartDataTable::new();
        if r.bool() {
            d = d.show_legend_keys(true).show_horizontal_borders(false);
        }
        if r.bool() {
            d = d.set_font(&chart_font(r)).set_format(&mut chart_format(r));
        }
        c.set_data_table(&d);
    }
    match r.below(3) {
        0 => {
            c.set_width(r.u32(50, 800)).set_height(r.u32(50, 600));
        }
        1 => {
            c.set_scale_width(r.f01() * 2.0 + 0.1)
                .set_scale_height(r.f01() * 2.0 + 0.1);
        }
        _ => {}
    }
    if r.one_in(3) {
        c.set_name(t.get(r, "chart name", 20));
    }
    if r.one_in(3) {
        c.set_alt_text(t.get(r, "chart alt text", 20));
    } else if r.one_in(5) {
        c.set_decorative(true);
    }
    if r.bool() {
        c.set_object_movement(movement(r));
    }
    if r.one_in(3) {
        c.show_empty_cells_as(*r.pick(&[
            ChartEmptyCells::Gaps,
            ChartEmptyCells::Zero,
            ChartEmptyCells::Connected,
        ]));
    }
    if r.one_in(6) {
        c.show_na_as_empty_cell();
    }
    if r.one_in(6) {
        c.show_hidden_data();
    }
    // Combined charts.
    if matches!(ct, ChartType::Column | ChartType::Line | ChartType::Area) && r.one_in(3) {
        let ct2 = *r.pick(&[
            ChartType::Line,
            ChartType::Column,
            ChartType::Area,
            ChartType::Scatter,
        ]);
        let mut c2 = Chart::new(ct2);
        let b = !sec && r.bool();
        let s = series(r, t, ct2, sheets, b);
        c2.push_series(&s);
        if b && r.bool() {
            // The axes belong to the first chart.
            axis(r, t, c.y2_axis(), &sheet, ct2);
        }
        c.combine(&c2);
    }
    c
}

// ---------------------------------------------------------------------------
// Worksheet features.

pub struct Env<'a> {
    pub sheets: &'a [String],
    pub sheet_no: usize,
    pub text: TextOpt,
    /// Next free row band.
    pub row: u32,
    pub tables: usize,
    pub steps: Vec<Step>,
    pub filtered: bool,
    hf: bool,
    notes: BTreeSet<(u32, u16)>,
    pub has_data: bool,
    t: T,
}

pub const FEATURES: &[&str] = &[
    "cells",
    "cells",
    "cells",
    "rich",
    "url",
    "formula",
    "rowopt",
    "colopt",
    "group",
    "merge",
    "table",
    "filter",
    "cf",
    "cf",
    "cf",
    "dv",
    "dv",
    "spark",
    "image",
    "embed",
    "background",
    "hfimage",
    "chart",
    "chart",
    "shape",
    "note",
    "note",
    "button",
    "page",
    "page",
    "view",
    "protect",
    "ignore",
    "print",
    "format",
    "checkbox",
    "autofit",
    "tab",
    "headerfooter",
];

macro_rules! st {
    ($e:expr, $feat:expr, $kind:expr, $row:expr, $desc:expr, $f:expr) => {{
        let texts = std::mem::take(&mut $e.t.given);
        let f: WsFn = Arc::new($f);
        $e.steps.push(Step {
            desc: $desc,
            feature: $feat,
            kind: $kind,
            row: $row,
            f,
            texts,
        });
    }};
}

impl<'a> Env<'a> {
    pub fn new(sheets: &'a [String], sheet_no: usize, text: TextOpt) -> Env<'a> {
        Env {
            sheets,
            sheet_no,
            text,
            row: 0,
            tables: 0,
            steps: vec![],
            filtered: false,
            hf: false,
            notes: BTreeSet::new(),
            has_data: false,
            t: T {
                opt: text,
                given: vec![],
            },
        }
    }

    fn band(&mut self, r: &mut Rng, n: u32) -> u32 {
        let x = self.row;
        self.row += n + 1 + r.u32(0, 2);
        x
    }

    pub fn feature(&mut self, r: &mut Rng, feat: &'static str) {
        match feat {
            "cells" => {
                for _ in 0..r.usize(5) + 1 {
                    let row = self.band(r, 0);
                    let col = r.u16(0, 7);
                    let f = if r.bool() { Some(format(r)) } else { None };
                    match r.below(6) {
                        0 | 1 => {
                            let s = self.t.get(r, "cell string", 30);
                            let d = format!("R{row}C{col} = {s:?} fmt {}", f.is_some());
                            st!(self, feat, Kind::Cell, row, d, move |ws| match &f {
                                None => ws.write_string(row, col, &s).map(|_| ()),
                                Some(f) => ws.write_string_with_format(row, col, &s, f).map(|_| ()),
                            });
                        }
                        2 | 3 => {
                            let n = gen::number(r);
                            let d = format!("R{row}C{col} = {n:e} fmt {}", f.is_some());
                            st!(self, feat, Kind::Cell, row, d, move |ws| match &f {
                                None => ws.write_number(row, col, n).map(|_| ()),
                                Some(f) => ws.write_number_with_format(row, col, n, f).map(|_| ()),
                            });
                        }
                        4 => {
                            let b = r.bool();
                            let d = format!("R{row}C{col} = {b}");
                            st!(self, feat, Kind::Cell, row, d, move |ws| match &f {
                                None => ws.write_boolean(row, col, b).map(|_| ()),
                                Some(f) => ws.write_boolean_with_format(row, col, b, f).map(|_| ()),
                            });
                        }
                        _ => {
                            let x = dt(r);
                            let f = f.unwrap_or_else(|| Format::new().set_num_format("yyyy-mm-dd"));
                            let d = format!("R{row}C{col} = datetime");
                            st!(self, feat, Kind::Cell, row, d, move |ws| ws
                                .write_datetime_with_format(row, col, &x, &f)
                                .map(|_| ()));
                        }
                    }
                }
            }
            "rich" => {
                let row = self.band(r, 1);
                let col = r.u16(0, 7);
                let segs: Vec<(Format, String)> = (0..r.usize(4) + 1)
                    .map(|_| (format(r), self.t.get(r, "rich segment", 12)))
                    .collect();
                let f = if r.bool() { Some(format(r)) } else { None };
                let d = format!(
                    "R{row}C{col} rich {:?}",
                    segs.iter().map(|s| &s.1).collect::<Vec<_>>()
                );
                st!(self, feat, Kind::Cell, row, d, move |ws| {
                    let v: Vec<(&Format, &str)> =
                        segs.iter().map(|(f, s)| (f, s.as_str())).collect();
                    match &f {
                        None => ws.write_rich_string(row, col, &v).map(|_| ()),
                        Some(f) => ws
                            .write_rich_string_with_format(row, col, &v, f)
                            .map(|_| ()),
                    }
                });
            }
            "url" => {
                let row = self.band(r, 1);
                let col = r.u16(0, 7);
                let n = r.below(5);
                let link = match r.below(5) {
                    0 => format!("https://example.com/p{n}?a=1&b=%20<x>"),
                    1 => "mailto:me@example.com?subject=A b".to_string(),
                    2 => {
                        let s = r.pick(self.sheets).clone();
                        format!("internal:'{}'!A{}", s.replace('\'', "''"), n + 1)
                    }
                    3 => format!(r"file:///C:\Temp\bo ok{n}.xlsx#Sheet1!A1"),
                    _ => format!("https://example.com/#frag{n}"),
                };
                let text = self.t.get(r, "link text", 20);
                let tip = self.t.get(r, "link tip", 20);
                let d = format!("R{row}C{col} url {link:?} {text:?} {tip:?}");
                let f = if r.one_in(3) { Some(format(r)) } else { None };
                st!(self, feat, Kind::Cell, row, d, move |ws| ws
                    .write_url_with_options(row, col, link.as_str(), &text, &tip, f.as_ref())
                    .map(|_| ()));
            }
            "formula" => {
                let row = self.band(r, 2);
                let col = r.u16(0, 5);
                let res = self.t.get(r, "formula result", 15);
                let f = if r.bool() { Some(format(r)) } else { None };
                let k = r.below(6);
                if k == 5 {
                    self.t.given.clear();
                }
                let d = format!("R{row}C{col} formula kind {k} result {res:?}");
                st!(self, feat, Kind::Cell, row, d, move |ws| {
                    let dflt = Format::default();
                    let fm = f.as_ref().unwrap_or(&dflt);
                    match k {
                        0 => ws.write_formula_with_format(
                            row,
                            col,
                            Formula::new("=A1&\"<&>\"&'x''y'!B2").set_result(&res),
                            fm,
                        ),
                        1 => ws.write_array_formula_with_format(
                            row,
                            col,
                            row + 1,
                            col + 1,
                            Formula::new("{=SUM(A1:B2*C1)}").set_result(&res),
                            fm,
                        ),
                        2 => ws.write_dynamic_array_formula_with_format(
                            row,
                            col,
                            row,
                            col + 2,
                            Formula::new("=SORT(A1:A9)").set_result(&res),
                            fm,
                        ),
                        3 => ws.write_dynamic_formula_with_format(
                            row,
                            col,
                            Formula::new("=UNIQUE(A1:A9)").set_result(&res),
                            fm,
                        ),
                        4 => ws.write_formula_with_format(
                            row,
                            col,
                            Formula::new("=XLOOKUP(1,A1:A9,B1:B9)").set_result(&res),
                            fm,
                        ),
                        _ => ws.write_formula(row, col, "=1+1"),
                    }
                    .map(|_| ())
                });
            }
            "checkbox" => {
                let row = self.band(r, 1);
                let col = r.u16(0, 7);
                let b = r.bool();
                let f = if r.bool() { Some(format(r)) } else { None };
                st!(
                    self,
                    feat,
                    Kind::Cell,
                    row,
                    format!("R{row}C{col} checkbox {b}"),
                    move |ws| match &f {
                        None => ws.insert_checkbox(row, col, b).map(|_| ()),
                        Some(f) => ws.insert_checkbox_with_format(row, col, b, f).map(|_| ()),
                    }
                );
            }
            "rowopt" => {
                let row = self.band(r, 0);
                let h = r.range(1, 400) as f64 / 4.0;
                let f = format(r);
                let k = r.below(4);
                st!(
                    self,
                    feat,
                    Kind::Cell,
                    row,
                    format!("row {row} option {k} {h}"),
                    move |ws| match k {
                        0 => ws.set_row_height(row, h).map(|_| ()),
                        1 => ws.set_row_hidden(row).map(|_| ()),
                        2 => ws.set_row_format(row, &f).map(|_| ()),
                        _ => ws.set_row_height_pixels(row, h as u16 + 1).map(|_| ()),
                    }
                );
            }
            "colopt" => {
                let c = r.u16(0, 12);
                let n = r.u16(0, 3);
                let w = r.range(1, 255) as f64 / 4.0;
                let f = format(r);
                let k = r.below(6);
                st!(
                    self,
                    feat,
                    Kind::Early,
                    0,
                    format!("col {c} option {k} {w}"),
                    move |ws| match k {
                        0 => ws.set_column_width(c, w).map(|_| ()),
                        1 => ws.set_column_hidden(c).map(|_| ()),
                        2 => ws.set_column_format(c, &f).map(|_| ()),
                        3 => ws.set_column_range_width(c, c + n, w).map(|_| ()),
                        4 => ws.set_column_range_format(c, c + n, &f).map(|_| ()),
                        _ => ws.set_column_width_pixels(c, w as u16 + 1).map(|_| ()),
                    }
                );
            }
            "group" => {
                let c = r.u16(0, 12);
                let k = r.below(4);
                let row = if k < 2 { self.band(r, 3) } else { 0 };
                let kind = if k < 2 { Kind::Cell } else { Kind::Early };
                st!(
                    self,
                    feat,
                    kind,
                    row,
                    format!("group {k} row {row} col {c}"),
                    move |ws| match k {
                        0 => ws.group_rows(row, row + 2).map(|_| ()),
                        1 => ws.group_rows_collapsed(row, row + 1).map(|_| ()),
                        2 => ws.group_columns(c, c + 2).map(|_| ()),
                        _ => ws.group_columns_collapsed(c, c + 1).map(|_| ()),
                    }
                );
            }
            "merge" => {
                let row = self.band(r, 3);
                let col = r.u16(0, 5);
                let (lr, lc) = (row + r.u32(0, 2), col + r.u16(1, 3));
                let s = self.t.get(r, "merge text", 20);
                let f = format(r);
                let d = format!("merge {row},{col},{lr},{lc} {s:?}");
                st!(self, feat, Kind::Cell, row, d, move |ws| ws
                    .merge_range(row, col, lr, lc, &s, &f)
                    .map(|_| ()));
            }
            "table" => {
                let rows = r.u32(2, 4);
                let row = self.band(r, rows + 1);
                let col = r.u16(0, 4);
                let ncol = r.u16(1, 4);
                let total = r.bool();
                let header = r.one_in(4);
                let mut cols = vec![];
                for i in 0..ncol {
                    let mut tc = TableColumn::new();
                    if r.bool() {
                        // Headers are unique ignoring case.
                        let mut h = self.t.get(r, "table header", 10);
                        h.push_str(&i.to_string());
                        if let Some(g) = self.t.given.last_mut() {
                            g.text.clone_from(&h);
                        }
                        tc = tc.set_header(&h);
                    }
                    if total {
                        match r.below(4) {
                            0 => tc = tc.set_total_label(self.t.get(r, "total label", 10)),
                            1 => tc = tc.set_total_function(TableFunction::Sum),
                            2 => {
                                tc = tc.set_total_function(TableFunction::Custom(Formula::new(
                                    "=SUM([Column1])",
                                )));
                            }
                            _ => {}
                        }
                    }
                    if r.one_in(4) {
                        tc = tc.set_formula("=SUM(Table1[@[Column1]:[Column2]])");
                    }
                    if r.one_in(3) {
                        tc = tc.set_format(format(r));
                    }
                    if r.one_in(3) {
                        tc = tc.set_header_format(format(r));
                    }
                    cols.push(tc);
                }
                let mut tb = Table::new();
                if r.one_in(3) {
                    tb = tb.set_name(format!("Tbl_{}_{}", self.sheet_no, self.tables));
                }
                self.tables += 1;
                tb = tb
                    .set_total_row(total)
                    .set_header_row(!header)
                    .set_autofilter(r.bool())
                    .set_banded_rows(r.bool())
                    .set_banded_columns(r.bool())
                    .set_first_column(r.bool())
                    .set_last_column(r.bool());
                if r.bool() {
                    tb = tb.set_columns(&cols);
                } else {
                    self.t.given.clear();
                }
                if header {
                    self.t.given.retain(|g| g.what != "table header");
                }
                if r.bool() {
                    tb = tb.set_style(*r.pick(&[
                        TableStyle::None,
                        TableStyle::Light1,
                        TableStyle::Medium28,
                        TableStyle::Dark11,
                    ]));
                }
                let (lr, lc) = (row + rows, col + ncol - 1);
                let d = format!(
                    "table {row},{col},{lr},{lc} total {total} header {}",
                    !header
                );
                st!(self, feat, Kind::Cell, row, d, move |ws| ws
                    .add_table(row, col, lr, lc, &tb)
                    .map(|_| ()));
            }
            "filter" => {
                if self.filtered {
                    return;
                }
                self.filtered = true;
                let rows = r.u32(2, 6);
                let row = self.band(r, rows + 1);
                let k = r.below(4);
                let s = self.t.get(r, "filter text", 10);
                if k != 1 {
                    self.t.given.clear();
                }
                st!(
                    self,
                    feat,
                    Kind::Cell,
                    row,
                    format!("autofilter {row}..{} k {k}", row + rows),
                    move |ws| {
                        ws.autofilter(row, 0, row + rows, 3)?;
                        match k {
                            0 => {
                                let c = FilterCondition::new()
                                    .add_list_filter("x")
                                    .add_list_blanks_filter();
                                ws.filter_column(1, &c)?;
                            }
                            1 => {
                                let c = FilterCondition::new().add_list_filter(s.as_str());
                                ws.filter_column(0, &c)?;
                            }
                            2 => {
                                let c = FilterCondition::new()
                                    .add_custom_filter(FilterCriteria::GreaterThan, 5)
                                    .add_custom_filter(FilterCriteria::LessThan, 2)
                                    .add_custom_boolean_or();
                                ws.filter_column(2, &c)?;
                            }
                            _ => {}
                        }
                        Ok(())
                    }
                );
            }
            "cf" => self.cf(r),
            "dv" => self.dv(r),
            "spark" => {
                let src = r.pick(self.sheets).clone();
                let row = r.u32(0, 40);
                let col = r.u16(8, 15);
                let mut s = Sparkline::new();
                let (lr, lc) = (row + r.u32(0, 3), col);
                let group = lr > row;
                s = if group {
                    s.set_range((src.as_str(), 0, 0, lr - row, 4))
                } else {
                    s.set_range((src.as_str(), row, 0, row, 4))
                };
                s = s.set_type(*r.pick(&[
                    SparklineType::Line,
                    SparklineType::Column,
                    SparklineType::WinLose,
                ]));
                s = s
                    .show_high_point(r.bool())
                    .show_low_point(r.bool())
                    .show_first_point(r.bool())
                    .show_last_point(r.bool())
                    .show_negative_points(r.bool())
                    .show_markers(r.bool())
                    .show_axis(r.bool())
                    .show_hidden_data(r.bool())
                    .set_right_to_left(r.bool());
                if r.bool() {
                    s = s.set_sparkline_color(color(r)).set_markers_color(color(r));
                }
                if r.bool() {
                    s = s.set_style(r.u8(0, 36));
                }
                if r.one_in(3) {
                    s = s.set_custom_max(7.5).set_custom_min(-2);
                } else if r.bool() {
                    s = s.set_group_max(true).set_group_min(true);
                }
                if r.one_in(3) {
                    s = s.set_line_weight(1.5);
                }
                if r.one_in(3) {
                    s = s.set_date_range((src.as_str(), 0, 0, 0, 4));
                }
                if r.one_in(3) {
                    s = s.show_empty_cells_as(ChartEmptyCells::Connected);
                }
                let d = format!("sparkline {row},{col} group {group} src {src:?}");
                st!(self, feat, Kind::Any, row, d, move |ws| {
                    if group {
                        ws.add_sparkline_group(row, col, lr, lc, &s).map(|_| ())
                    } else {
                        ws.add_sparkline(row, col, &s).map(|_| ())
                    }
                });
            }
            "image" => {
                let (mut i, _, e) = image(r);
                let (row, col) = (r.u32(0, 30), r.u16(0, 9));
                if r.bool() {
                    i = i.set_alt_text(self.t.get(r, "image alt text", 20));
                } else if r.one_in(4) {
                    i = i.set_decorative(true);
                }
                if r.one_in(3) {
                    i = i.set_width(r.u32(1, 300)).set_height(r.u32(1, 300));
                } else if r.one_in(3) {
                    i = i
                        .set_scale_width(r.f01() + 0.1)
                        .set_scale_height(r.f01() * 2.0 + 0.1);
                }
                if r.bool() {
                    i = i.set_object_movement(movement(r));
                }
                if r.one_in(3) {
                    let link = *r.pick(&[
                        "https://example.com/x y",
                        "internal:Sheet1!A1",
                        "mailto:a@b.c",
                    ]);
                    let tip = self.t.get(r, "image tip", 15);
                    match i.clone().set_url(Url::new(link).set_tip(tip)) {
                        Ok(x) => i = x,
                        Err(_) => self.t.given.retain(|g| g.what != "image tip"),
                    }
                }
                let k = r.below(4);
                let (x, y) = (r.u32(0, 200), r.u32(0, 200));
                if k == 0 {
                    let i2 = i.clone();
                    st!(
                        self,
                        feat,
                        Kind::Any,
                        row,
                        format!("image {e} fit {row},{col}"),
                        move |ws| ws.insert_image_fit_to_cell(row, col, &i2, true).map(|_| ())
                    );
                } else {
                    st!(
                        self,
                        feat,
                        Kind::Any,
                        row,
                        format!("image {e} {row},{col} +{x},{y}"),
                        move |ws| ws.insert_image_with_offset(row, col, &i, x, y).map(|_| ())
                    );
                }
            }
            "embed" => {
                let (mut i, _, e) = image(r);
                let row = self.band(r, 1);
                let col = r.u16(0, 7);
                if r.bool() {
                    i = i.set_alt_text(self.t.get(r, "embedded alt text", 20));
                }
                if r.one_in(4) {
                    if let Ok(x) = i.clone().set_url("https://example.com/emb") {
                        i = x;
                    }
                }
                let f = if r.bool() { Some(format(r)) } else { None };
                st!(
                    self,
                    feat,
                    Kind::Cell,
                    row,
                    format!("embed {e} {row},{col}"),
                    move |ws| match &f {
                        None => ws.embed_image(row, col, &i).map(|_| ()),
                        Some(f) => ws.embed_image_with_format(row, col, &i, f).map(|_| ()),
                    }
                );
            }
            "background" => {
                let (i, _, e) = image(r);
                st!(
                    self,
                    feat,
                    Kind::Any,
                    0,
                    format!("background {e}"),
                    move |ws| {
                        ws.insert_background_image(&i);
                        Ok(())
                    }
                );
            }
            "hfimage" => {
                if self.hf {
                    return;
                }
                self.hf = true;
                let (i, _, e) = image(r);
                let k = r.below(6);
                st!(
                    self,
                    feat,
                    Kind::Any,
                    0,
                    format!("header/footer image {e} {k}"),
                    move |ws| {
                        match k {
                            0 => ws
                                .set_header("&L&G")
                                .set_header_image(&i, HeaderImagePosition::Left)?,
                            1 => ws
                                .set_header("&C&[Picture]")
                                .set_header_image(&i, HeaderImagePosition::Center)?,
                            2 => ws
                                .set_header("&R&G")
                                .set_header_image(&i, HeaderImagePosition::Right)?,
                            3 => ws
                                .set_footer("&L&G")
                                .set_footer_image(&i, HeaderImagePosition::Left)?,
                            4 => ws
                                .set_footer("&C&G")
                                .set_footer_image(&i, HeaderImagePosition::Center)?,
                            _ => ws
                                .set_footer("&R&[Picture]")
                                .set_footer_image(&i, HeaderImagePosition::Right)?,
                        };
                        Ok(())
                    }
                );
            }
            "chart" => {
                let c = chart(r, &mut self.t, self.sheets);
                let (row, col) = (r.u32(0, 40), r.u16(0, 9));
                let (x, y) = (r.u32(0, 100), r.u32(0, 100));
                let d = format!(
                    "chart at {row},{col} {}",
                    self.t
                        .given
                        .iter()
                        .map(|g| format!("{} {:?}; ", g.what, g.text))
                        .collect::<String>()
                );
                st!(self, feat, Kind::Any, row, d, move |ws| ws
                    .insert_chart_with_offset(row, col, &c, x, y)
                    .map(|_| ()));
            }
            "shape" => {
                let mut s = Shape::textbox();
                if r.pct(80) {
                    s = s.set_text(self.t.get(r, "shape text", 40));
                }
                if r.one_in(4) {
                    s = s.set_text_link("=$A$1");
                }
                if r.bool() {
                    s = s.set_width(r.u32(1, 400)).set_height(r.u32(1, 300));
                }
                if r.one_in(3) {
                    s = s.set_alt_text(self.t.get(r, "shape alt text", 20));
                }
                if r.one_in(3) {
                    let tip = self.t.get(r, "shape tip", 15);
                    match s
                        .clone()
                        .set_url(Url::new("https://example.com/sh").set_tip(tip))
                    {
                        Ok(x) => s = x,
                        Err(_) => self.t.given.retain(|g| g.what != "shape tip"),
                    }
                }
                if r.bool() {
                    s = s.set_object_movement(movement(r));
                }
                if r.one_in(3) {
                    s = s.set_font(
                        &ShapeFont::new()
                            .set_bold()
                            .set_color(color(r))
                            .set_name("A <&> B")
                            .set_size(12),
                    );
                }
                if r.one_in(3) {
                    s = s.set_format(
                        &ShapeFormat::new()
                            .set_line(&ShapeLine::new().set_color(color(r)).set_width(2.25))
                            .set_solid_fill(&ShapeSolidFill::new().set_color(color(r))),
                    );
                } else if r.one_in(3) {
                    s = s.set_format(&ShapeGradientFill::new().set_gradient_stops(&[
                        ShapeGradientStop::new(color(r), 0),
                        ShapeGradientStop::new(color(r), 100),
                    ]));
                } else if r.one_in(3) {
                    s = s.set_format(
                        &ShapePatternFill::new().set_pattern(ShapePatternFillType::Wave),
                    );
                }
                if r.one_in(3) {
                    s = s.set_text_options(
                        &ShapeText::new()
                            .set_horizontal_alignment(ShapeTextHorizontalAlignment::Center)
                            .set_vertical_alignment(ShapeTextVerticalAlignment::BottomCentered)
                            .set_direction(ShapeTextDirection::Rotate90),
                    );
                }
                let (row, col) = (r.u32(0, 40), r.u16(0, 9));
                let (x, y) = (r.u32(0, 100), r.u32(0, 100));
                st!(
                    self,
                    feat,
                    Kind::Any,
                    row,
                    format!("shape at {row},{col}"),
                    move |ws| ws.insert_shape_with_offset(row, col, &s, x, y).map(|_| ())
                );
            }
            "note" => {
                let (row, col) = (r.u32(0, 40), r.u16(0, 9));
                if !self.notes.insert((row, col)) {
                    return;
                }
                let text = self.t.get(r, "note text", 60);
                let mut n = Note::new(&text);
                if r.bool() {
                    n = n.set_author(self.t.get(r, "note author", 12));
                }
                n = n.add_author_prefix(r.bool());
                if r.bool() {
                    n = n.set_width(r.u32(10, 400)).set_height(r.u32(10, 300));
                }
                if r.bool() {
                    n = n.set_visible(r.bool());
                }
                if r.one_in(3) {
                    n = n.set_background_color(color(r));
                }
                if r.one_in(3) {
                    n = n.set_alt_text(self.t.get(r, "note alt text", 20));
                }
                if r.one_in(3) {
                    n = n.set_font_name("A & B").set_font_size(9).set_font_family(2);
                }
                if r.one_in(3) {
                    n = n.set_object_movement(movement(r));
                }
                st!(
                    self,
                    feat,
                    Kind::Any,
                    row,
                    format!("note {row},{col} {text:?}"),
                    move |ws| ws.insert_note(row, col, &n).map(|_| ())
                );
            }
            "button" => {
                let (row, col) = (r.u32(0, 40), r.u16(0, 9));
                if !self.notes.insert((row, col + 100)) {
                    return;
                }
                let mut b = Button::new();
                if r.bool() {
                    b = b.set_caption(self.t.get(r, "button caption", 20));
                }
                if r.bool() {
                    b = b.set_macro(format!("macro{}", r.below(9)));
                }
                if r.bool() {
                    b = b.set_width(r.u32(10, 200)).set_height(r.u32(10, 200));
                }
                if r.one_in(3) {
                    b = b.set_alt_text(self.t.get(r, "button alt text", 20));
                }
                if r.one_in(3) {
                    b = b.set_object_movement(movement(r));
                }
                st!(
                    self,
                    feat,
                    Kind::Any,
                    row,
                    format!("button {row},{col}"),
                    move |ws| ws.insert_button_with_offset(row, col, &b, 3, 4).map(|_| ())
                );
            }
            "page" => {
                let k = r.below(16);
                let b = r.bool();
                let n = r.u16(0, 400);
                st!(
                    self,
                    feat,
                    Kind::Any,
                    0,
                    format!("page {k} {b} {n}"),
                    move |ws| {
                        match k {
                            0 => ws.set_paper_size((n % 70) as u8),
                            1 => ws.set_page_order(b),
                            2 => ws.set_landscape(),
                            3 => ws.set_portrait(),
                            4 => ws.set_margins(0.1, 0.2, 0.3, 0.4, 0.5, 0.6),
                            5 => ws.set_print_first_page_number(n),
                            6 => ws.set_print_scale(n),
                            7 => ws.set_print_fit_to_pages(n % 5, n % 3),
                            8 => ws.set_print_center_horizontally(b),
                            9 => ws.set_print_center_vertically(b),
                            10 => ws.set_print_gridlines(b),
                            11 => ws.set_print_black_and_white(b),
                            12 => ws.set_print_draft(b),
                            13 => ws.set_print_headings(b),
                            14 => ws.set_page_breaks(&[u32::from(n) + 1, 700, 3])?,
                            _ => ws.set_vertical_page_breaks(&[u32::from(n) + 1, 9])?,
                        };
                        Ok(())
                    }
                );
            }
            "headerfooter" => {
                if self.hf {
                    return;
                }
                self.hf = true;
                let h = self.t.get(r, "header", 40);
                let f = self.t.get(r, "footer", 40);
                let (a, b) = (r.bool(), r.bool());
                let d = format!("header {h:?} footer {f:?}");
                st!(self, feat, Kind::Any, 0, d, move |ws| {
                    ws.set_header(&h).set_footer(&f);
                    ws.set_header_footer_scale_with_doc(a)
                        .set_header_footer_align_with_page(b);
                    Ok(())
                });
            }
            "view" => {
                let k = r.below(12);
                let b = r.bool();
                let (row, col) = (r.u32(0, 30), r.u16(0, 9));
                st!(
                    self,
                    feat,
                    Kind::Any,
                    0,
                    format!("view {k} {b} {row},{col}"),
                    move |ws| {
                        match k {
                            0 => ws.set_freeze_panes(row, col)?,
                            1 => ws
                                .set_freeze_panes(row, 0)?
                                .set_freeze_panes_top_cell(row + 5, 3)?,
                            2 => ws.set_selection(row, col, row + 3, col + 2)?,
                            3 => ws.set_top_left_cell(row, col)?,
                            4 => ws.set_zoom(row as u16 * 10),
                            5 => ws.set_right_to_left(b),
                            6 => ws.set_view_page_layout(),
                            7 => ws.set_view_page_break_preview(),
                            8 => ws.set_screen_gridlines(b),
                            9 => ws.set_default_row_height(20),
                            10 => ws.group_symbols_above(b),
                            _ => ws.group_symbols_to_left(b),
                        };
                        Ok(())
                    }
                );
            }
            "protect" => {
                let k = r.below(4);
                let (row, col) = (r.u32(0, 30), r.u16(0, 9));
                let name = format!("Rng_{}", self.steps.len());
                let pw = self.t.get(r, "password", 9);
                self.t.given.clear();
                let o = ProtectionOptions {
                    sort: r.bool(),
                    insert_rows: r.bool(),
                    edit_objects: r.bool(),
                    select_locked_cells: r.bool(),
                    ..ProtectionOptions::default()
                };
                st!(
                    self,
                    feat,
                    Kind::Any,
                    0,
                    format!("protect {k}"),
                    move |ws| {
                        match k {
                            0 => ws.protect(),
                            1 => ws.protect_with_password(&pw),
                            2 => ws.protect_with_options(&o).unprotect_range(
                                row,
                                col,
                                row,
                                col + 1,
                            )?,
                            _ => {
                                ws.unprotect_range_with_options(row, col, row + 1, col, &name, &pw)?
                            }
                        };
                        Ok(())
                    }
                );
            }
            "ignore" => {
                let e = *r.pick(&[
                    IgnoreError::NumberStoredAsText,
                    IgnoreError::FormulaError,
                    IgnoreError::FormulaDiffers,
                    IgnoreError::FormulaRefersToEmptyCells,
                    IgnoreError::FormulaOmitsCells,
                    IgnoreError::DataValidationError,
                    IgnoreError::TwoDigitTextYear,
                    IgnoreError::UnlockedCellsWithFormula,
                    IgnoreError::InconsistentColumnFormula,
                ]);
                let (row, col) = (r.u32(0, 30), r.u16(0, 9));
                st!(
                    self,
                    feat,
                    Kind::Any,
                    0,
                    format!("ignore {e:?} {row},{col}"),
                    move |ws| ws.ignore_error_range(row, col, row + 1, col, e).map(|_| ())
                );
            }
            "print" => {
                let k = r.below(3);
                let (row, col) = (r.u32(0, 30), r.u16(0, 9));
                st!(
                    self,
                    feat,
                    Kind::Any,
                    0,
                    format!("print ranges {k} {row},{col}"),
                    move |ws| match k {
                        0 => ws.set_print_area(row, col, row + 4, col + 3).map(|_| ()),
                        1 => ws.set_repeat_rows(row, row + 1).map(|_| ()),
                        _ => ws.set_repeat_columns(col, col).map(|_| ()),
                    }
                );
            }
            "format" => {
                let row = self.band(r, 3);
                let col = r.u16(0, 5);
                let f = format(r);
                let k = r.below(3);
                st!(
                    self,
                    feat,
                    Kind::Cell,
                    row,
                    format!("format {k} {row},{col}"),
                    move |ws| match k {
                        0 => ws.set_cell_format(row, col, &f).map(|_| ()),
                        1 => ws.set_range_format(row, col, row, col + 2, &f).map(|_| ()),
                        _ => ws
                            .set_range_format_with_border(
                                row,
                                col,
                                row,
                                col + 2,
                                &f,
                                &Format::new().set_border(FormatBorder::Double),
                            )
                            .map(|_| ()),
                    }
                );
            }
            "autofit" => {
                let m = r.u16(50, 300);
                let k = r.bool();
                st!(
                    self,
                    feat,
                    Kind::Any,
                    u32::MAX,
                    format!("autofit {k}"),
                    move |ws| {
                        if k {
                            ws.autofit();
                        } else {
                            ws.autofit_to_max_width(m);
                        }
                        Ok(())
                    }
                );
            }
            "tab" => {
                let c = color(r);
                let k = r.below(4);
                st!(self, feat, Kind::Any, 0, format!("tab {k}"), move |ws| {
                    match k {
                        0 | 1 => {
                            ws.set_tab_color(c);
                        }
                        2 => {
                            ws.show_all_notes(true);
                        }
                        _ => {
                            ws.hide_unused_rows(true);
                        }
                    }
                    Ok(())
                });
            }
            _ => {}
        }
    }

    fn cf(&mut self, r: &mut Rng) {
        let feat = "cf";
        let (row, col) = (r.u32(0, 60), r.u16(0, 9));
        let (lr, lc) = (row + r.u32(0, 5), col + r.u16(0, 3));
        let f = format(r);
        let stop = r.one_in(3);
        let k = r.below(13);
        let text = self.t.get(r, "cf text", 10).replace('"', "");
        if k != 5 {
            self.t.given.clear();
        } else if let Some(g) = self.t.given.last_mut() {
            g.text.clone_from(&text);
            if text.is_empty() {
                self.t.given.clear();
            }
        }
        let text = if text.is_empty() {
            "z".to_string()
        } else {
            text
        };
        let ic = *r.pick(ICONS);
        let (c1, c2, c3) = (color(r), color(r), color(r));
        let flags = r.u8(0, 255);
        let b = move |i: u8| flags & (1 << i) != 0;
        let num = r.range(-50, 50);
        let d = format!("cf {k} {row},{col},{lr},{lc} {num} flags {flags}");
        st!(self, feat, Kind::Any, row, d, move |ws| {
            macro_rules! add {
                ($c:expr) => {{
                    let mut c = $c;
                    if stop {
                        c = c.set_stop_if_true(true);
                    }
                    if b(7) && lr > row {
                        c = c.set_multi_range(format!(
                            "{} {}",
                            crate::book::a1(row, col),
                            crate::book::a1(lr + 1, lc)
                        ));
                    }
                    ws.add_conditional_format(row, col, lr, lc, &c).map(|_| ())
                }};
            }
            match k {
                0 => add!(ConditionalFormatCell::new()
                    .set_rule(if b(0) {
                        ConditionalFormatCellRule::Between(num as i32, num as i32 + 5)
                    } else {
                        ConditionalFormatCellRule::GreaterThan(num as i32)
                    })
                    .set_format(&f)),
                1 => {
                    let c = ConditionalFormatBlank::new().set_format(&f);
                    add!(if b(0) { c.invert() } else { c })
                }
                2 => {
                    let c = ConditionalFormatError::new().set_format(&f);
                    add!(if b(0) { c.invert() } else { c })
                }
                3 => {
                    let c = ConditionalFormatDuplicate::new().set_format(&f);
                    add!(if b(0) { c.invert() } else { c })
                }
                4 => add!(ConditionalFormatFormula::new()
                    .set_rule("=A1>\"<&\"")
                    .set_format(&f)),
                5 => add!(ConditionalFormatText::new()
                    .set_rule(match (b(0), b(1)) {
                        (false, false) => ConditionalFormatTextRule::Contains(text.clone()),
                        (true, false) => ConditionalFormatTextRule::DoesNotContain(text.clone()),
                        (false, true) => ConditionalFormatTextRule::BeginsWith(text.clone()),
                        _ => ConditionalFormatTextRule::EndsWith(text.clone()),
                    })
                    .set_format(&f)),
                6 => add!(ConditionalFormatDate::new()
                    .set_rule(if b(0) {
                        ConditionalFormatDateRule::Last7Days
                    } else {
                        ConditionalFormatDateRule::NextMonth
                    })
                    .set_format(&f)),
                7 => add!(ConditionalFormatAverage::new()
                    .set_rule(if b(0) {
                        ConditionalFormatAverageRule::BelowAverage
                    } else {
                        ConditionalFormatAverageRule::TwoStandardDeviationsAbove
                    })
                    .set_format(&f)),
                8 => add!(ConditionalFormatTop::new()
                    .set_rule(if b(0) {
                        ConditionalFormatTopRule::BottomPercent(10)
                    } else {
                        ConditionalFormatTopRule::Top(3)
                    })
                    .set_format(&f)),
                9 => {
                    let mut c = ConditionalFormat2ColorScale::new();
                    if b(0) {
                        c = c.set_minimum_color(c1).set_maximum_color(c2);
                    }
                    if b(1) {
                        c = c.set_minimum(ConditionalFormatType::Number, 5);
                    }
                    add!(c)
                }
                10 => {
                    let mut c = ConditionalFormat3ColorScale::new();
                    if b(0) {
                        c = c
                            .set_minimum_color(c1)
                            .set_maximum_color(c2)
                            .set_midpoint_color(c3);
                    }
                    if b(1) {
                        c = c.set_midpoint(ConditionalFormatType::Formula, Formula::new("=$A$1"));
                    }
                    add!(c)
                }
                11 => {
                    let mut c = ConditionalFormatDataBar::new();
                    if b(0) {
                        c = c
                            .set_fill_color(c1)
                            .set_border_color(c2)
                            .set_negative_fill_color(c3);
                    }
                    if b(1) {
                        c = c.set_solid_fill(true).set_axis_color(c2);
                    }
                    if b(2) {
                        c = c.use_classic_style();
                    }
                    if b(3) {
                        c = c
                            .set_direction(ConditionalFormatDataBarDirection::RightToLeft)
                            .set_bar_only(true);
                    }
                    if b(4) {
                        c = c.set_axis_position(ConditionalFormatDataBarAxisPosition::Midpoint);
                    }
                    if b(5) {
                        c = c
                            .set_minimum(ConditionalFormatType::Number, 1)
                            .set_maximum(ConditionalFormatType::Percent, 90);
                    }
                    add!(c)
                }
                _ => {
                    let mut c = ConditionalFormatIconSet::new().set_icon_type(ic.0);
                    if b(0) {
                        c = c.reverse_icons(true);
                    }
                    if b(1) {
                        c = c.show_icons_only(true);
                    }
                    add!(c)
                }
            }
        });
    }

    fn dv(&mut self, r: &mut Rng) {
        let (row, col) = (r.u32(0, 60), r.u16(0, 9));
        if !self.notes.insert((row, col + 200)) {
            return;
        }
        let (lr, lc) = (row + r.u32(0, 5), col + r.u16(0, 3));
        let mut v = DataValidation::new();
        let n = r.range(-50, 50) as i32;
        let k = r.below(9);
        v = match k {
            0 => v.allow_whole_number(DataValidationRule::Between(n, n + 3)),
            1 => v.allow_decimal_number(DataValidationRule::GreaterThan(f64::from(n) / 3.0)),
            2 => {
                let mut l = vec![];
                for _ in 0..r.usize(4) + 1 {
                    l.push(self.t.get(r, "dv list", 10).replace(',', "."));
                }
                for g in &mut self.t.given {
                    g.text = g.text.replace(',', ".");
                    // Quotes are doubled inside the list literal.
                    g.text = g.text.replace('"', "\"\"");
                }
                v.allow_list_strings(&l)
                    .unwrap_or_else(|_| DataValidation::new())
            }
            3 => v.allow_list_formula(Formula::new("=$A$1:$A$5")),
            4 => v.allow_date(DataValidationRule::LessThan(dt(r))),
            5 => v.allow_time(DataValidationRule::NotEqualTo(dt(r))),
            6 => v.allow_text_length(DataValidationRule::LessThanOrEqualTo(n.unsigned_abs())),
            7 => v.allow_custom(Formula::new("=A1<>\"<&>\"")),
            _ => v.allow_any_value(),
        };
        let mut ok = k < 8;
        if r.bool() {
            let a = self.t.get(r, "dv input title", 20);
            let b = self.t.get(r, "dv input message", 60);
            v = v
                .set_input_title(a)
                .and_then(|v| v.set_input_message(b))
                .unwrap_or_else(|_| DataValidation::new());
            ok = true;
        }
        if r.bool() {
            let a = self.t.get(r, "dv error title", 20);
            let b = self.t.get(r, "dv error message", 60);
            v = v
                .set_error_title(a)
                .and_then(|v| v.set_error_message(b))
                .unwrap_or_else(|_| DataValidation::new());
            ok = true;
        }
        if r.bool() {
            v = v.set_error_style(match r.below(3) {
                0 => DataValidationErrorStyle::Stop,
                1 => DataValidationErrorStyle::Warning,
                _ => DataValidationErrorStyle::Information,
            });
        }
        v = v.ignore_blank(r.bool()).show_dropdown(r.bool());
        if r.one_in(4) {
            v = v.show_input_message(r.bool()).show_error_message(r.bool());
        }
        if !ok {
            self.t.given.clear();
        }
        st!(
            self,
            "dv",
            Kind::Any,
            row,
            format!("dv {k} {row},{col},{lr},{lc}"),
            move |ws| ws.add_data_validation(row, col, lr, lc, &v).map(|_| ())
        );
    }
}

// ---------------------------------------------------------------------------
// Programs.

pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    (0..n).map(|i| gen::sheet_name(r, i)).collect()
}

pub fn prog(r: &mut Rng, o: &Opt) -> Prog {
    let n = 1 + r.usize(o.sheets);
    let all = names(r, n);
    let chart: Vec<bool> = (0..n)
        .map(|i| o.chart_sheets && i > 0 && r.one_in(8))
        .collect();
    let data: Vec<String> = all
        .iter()
        .zip(&chart)
        .filter(|(_, c)| !**c)
        .map(|(n, _)| n.clone())
        .collect();
    let feats: Vec<&'static str> = FEATURES
        .iter()
        .copied()
        .filter(|f| !o.skip.contains(f) && (o.only.is_empty() || o.only.contains(f)))
        .collect();
    let mut sheets = vec![];
    for i in 0..n {
        let mut e = Env::new(&data, i, o.text);
        if chart[i] {
            e.feature(r, "chart");
            for _ in 0..r.usize(4) {
                let f = *r.pick(&["page", "headerfooter", "tab", "protect", "hfimage", "background"]);
                if feats.contains(&f) {
                    e.feature(r, f);
                }
            }
        } else {
            for _ in 0..1 + r.usize(o.size) {
                let f = *r.pick(&feats);
                e.feature(r, f);
            }
        }
        let mut steps = e.steps;
        r.shuffle(&mut steps);
        // Autofit looks at the data written so far: keep it last.
        steps.sort_by_key(|s| s.row == u32::MAX);
        sheets.push(SheetProg {
            name: all[i].clone(),
            chart_sheet: chart[i],
            steps,
        });
    }
    let mut wb = vec![];
    if o.workbook {
        for _ in 0..r.usize(4) {
            wb.push(wb_step(r, &data, o));
        }
    }
    Prog { sheets, wb }
}

pub fn wb_step(r: &mut Rng, sheets: &[String], o: &Opt) -> WbStep {
    let mut t = T {
        opt: o.text,
        given: vec![],
    };
    match r.below(5) {
        0 => {
            let n = format!("Name_{}", r.below(1 << 40));
            let s = r.pick(sheets).clone();
            let f = format!("='{}'!$A$1:$B${}", s.replace('\'', "''"), r.below(100) + 1);
            WbStep {
                desc: format!("define {n} {f}"),
                f: Arc::new(move |wb| wb.define_name(&n, &f).map(|_| ())),
                texts: vec![],
            }
        }
        1 | 2 => {
            let mut p = DocProperties::new();
            if let Ok(d) = ExcelDateTime::from_ymd(2020, 1, 2) {
                p = p.set_creation_datetime(&d);
            }
            if r.bool() {
                p = p.set_title(t.get(r, "doc title", 20));
            }
            if r.bool() {
                p = p.set_subject(t.get(r, "doc subject", 20));
            }
            if r.bool() {
                p = p.set_author(t.get(r, "doc author", 20));
            }
            if r.bool() {
                p = p.set_manager(t.get(r, "doc manager", 20));
            }
            if r.bool() {
                p = p.set_company(t.get(r, "doc company", 20));
            }
            if r.bool() {
                p = p.set_category(t.get(r, "doc category", 20));
            }
            if r.bool() {
                p = p.set_keywords(t.get(r, "doc keywords", 20));
            }
            if r.bool() {
                p = p.set_comment(t.get(r, "doc comment", 20));
            }
            if r.bool() {
                p = p.set_status(t.get(r, "doc status", 20));
            }
            if r.bool() {
                p = p.set_hyperlink_base(t.get(r, "doc base", 20));
            }
            for i in 0..r.usize(4) {
                let mut n = t.get(r, "custom property name", 12);
                n.push_str(&i.to_string());
                if let Some(g) = t.given.last_mut() {
                    g.text.clone_from(&n);
                }
                p = match r.below(4) {
                    0 => p.set_custom_property(n, 5),
                    1 => p.set_custom_property(n, 1.25),
                    2 => p.set_custom_property(n, true),
                    _ => {
                        let v = t.get(r, "custom property value", 20);
                        p.set_custom_property(n, v)
                    }
                };
            }
            WbStep {
                desc: "properties".into(),
                f: Arc::new(move |wb| {
                    wb.set_properties(&p);
                    Ok(())
                }),
                texts: t.given,
            }
        }
        3 if o.scratch.is_some() => {
            let dir = o.scratch.clone().unwrap_or_default();
            let (n, k) = (r.below(1 << 40), r.u8(1, 200));
            let sign = r.one_in(3);
            let f: WbFn = Arc::new(move |wb| {
                let (a, b) = (
                    dir.join(format!("vba{n}.bin")),
                    dir.join(format!("sig{n}.bin")),
                );
                std::fs::write(&a, vba_bytes(k))?;
                if sign {
                    std::fs::write(&b, vba_bytes(k.wrapping_add(1)))?;
                    wb.add_vba_project_with_signature(&a, &b)?;
                } else {
                    wb.add_vba_project(&a)?;
                }
                Ok(())
            });
            WbStep {
                desc: format!("vba {k} signed {sign}"),
                f,
                texts: vec![],
            }
        }
        _ => WbStep {
            desc: "read only".into(),
            f: Arc::new(|wb| {
                wb.read_only_recommended();
                Ok(())
            }),
            texts: vec![],
        },
    }
}

/// A stand-in for a VBA project: the library does not look inside.
pub fn vba_bytes(k: u8) -> Vec<u8> {
    (0..u32::from(k) * 37)
        .map(|i| (i * u32::from(k) % 251) as u8)
        .collect()
}

/// Fixed creation date so that saves compare equal.
pub fn fixed_date(wb: &mut Workbook) {
    if let Ok(d) = ExcelDateTime::from_ymd(2020, 1, 2) {
        wb.set_properties(&DocProperties::new().set_creation_datetime(&d));
    }
}

impl Prog {
    pub fn log(&self, ctx: &mut crate::run::Ctx) {
        for s in &self.sheets {
            ctx.log(format!("sheet {:?} chart {}", s.name, s.chart_sheet));
            for st in &s.steps {
                ctx.log(format!("   {} [{}]", st.desc, st.feature));
                ctx.count(&format!("feature.{}", st.feature));
            }
        }
        for w in &self.wb {
            ctx.log(format!("workbook {}", w.desc));
        }
    }

    /// Build a standard workbook. Returns the texts accepted and the calls
    /// that were rejected.
    pub fn build(&self) -> (Workbook, Vec<Given>, Vec<String>) {
        let mut wb = Workbook::new();
        let (mut texts, mut bad) = (vec![], vec![]);
        fixed_date(&mut wb);
        for s in &self.sheets {
            let ws = if s.chart_sheet {
                wb.add_chartsheet()
            } else {
                wb.add_worksheet()
            };
            run_sheet(ws, s, &mut texts, &mut bad);
        }
        let mut props = vec![];
        for w in &self.wb {
            match (w.f)(&mut wb) {
                Ok(()) if w.desc == "properties" => props = w.texts.clone(),
                Ok(()) => texts.extend(w.texts.iter().cloned()),
                Err(e) => bad.push(format!("{}: {e}", w.desc)),
            }
        }
        texts.extend(props);
        (wb, texts, bad)
    }
}

/// Name a sheet and run its steps.
pub fn run_sheet(ws: &mut Worksheet, s: &SheetProg, texts: &mut Vec<Given>, bad: &mut Vec<String>) {
    match ws.set_name(&s.name) {
        Ok(_) => texts.push(Given {
            what: "sheet name",
            text: s.name.clone(),
        }),
        Err(e) => bad.push(format!("name {:?}: {e}", s.name)),
    }
    for st in &s.steps {
        match (st.f)(ws) {
            Ok(()) => texts.extend(st.texts.iter().cloned()),
            Err(e) => bad.push(format!("{} on {:?}: {e}", st.desc, s.name)),
        }
    }
}
