//! C39 chart settings and text boxes.

use crate::gen;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::open_wb;
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::*;
use std::collections::{BTreeMap, BTreeSet};

/// What a chart or text box says, as a path and a value. Whatever has its
/// default value is left out.
type Facts = BTreeMap<String, String>;

const PATTERNS: &[(ChartPatternFillType, &str)] = &[
    (ChartPatternFillType::Wave, "wave"),
    (ChartPatternFillType::Weave, "weave"),
    (ChartPatternFillType::Plaid, "plaid"),
    (ChartPatternFillType::Divot, "divot"),
    (ChartPatternFillType::Zigzag, "zigZag"),
    (ChartPatternFillType::Sphere, "sphere"),
    (ChartPatternFillType::Shingle, "shingle"),
    (ChartPatternFillType::Trellis, "trellis"),
    (ChartPatternFillType::SmallGrid, "smGrid"),
    (ChartPatternFillType::LargeGrid, "lgGrid"),
    (ChartPatternFillType::DottedGrid, "dotGrid"),
    (ChartPatternFillType::DottedDiamond, "dotDmnd"),
    (ChartPatternFillType::DiagonalBrick, "diagBrick"),
    (ChartPatternFillType::LargeConfetti, "lgConfetti"),
    (ChartPatternFillType::SmallConfetti, "smConfetti"),
    (ChartPatternFillType::Dotted5Percent, "pct5"),
    (ChartPatternFillType::Dotted10Percent, "pct10"),
    (ChartPatternFillType::Dotted20Percent, "pct20"),
    (ChartPatternFillType::Dotted25Percent, "pct25"),
    (ChartPatternFillType::Dotted30Percent, "pct30"),
    (ChartPatternFillType::Dotted40Percent, "pct40"),
    (ChartPatternFillType::Dotted50Percent, "pct50"),
    (ChartPatternFillType::Dotted60Percent, "pct60"),
    (ChartPatternFillType::Dotted70Percent, "pct70"),
    (ChartPatternFillType::Dotted75Percent, "pct75"),
    (ChartPatternFillType::Dotted80Percent, "pct80"),
    (ChartPatternFillType::Dotted90Percent, "pct90"),
    (ChartPatternFillType::HorizontalBrick, "horzBrick"),
    (ChartPatternFillType::SolidDiamondGrid, "solidDmnd"),
    (ChartPatternFillType::SmallCheckerboard, "smCheck"),
    (ChartPatternFillType::LargeCheckerboard, "lgCheck"),
    (ChartPatternFillType::StripesBackslashes, "dashDnDiag"),
    (ChartPatternFillType::VerticalStripesDark, "dkVert"),
    (ChartPatternFillType::OutlinedDiamondGrid, "openDmnd"),
    (ChartPatternFillType::VerticalStripesLight, "ltVert"),
    (ChartPatternFillType::HorizontalStripesDark, "dkHorz"),
    (ChartPatternFillType::StripesForwardSlashes, "dashUpDiag"),
    (ChartPatternFillType::VerticalStripesNarrow, "narVert"),
    (ChartPatternFillType::HorizontalStripesLight, "ltHorz"),
    (ChartPatternFillType::HorizontalStripesNarrow, "narHorz"),
    (ChartPatternFillType::DiagonalStripesDarkUpwards, "dkUpDiag"),
    (ChartPatternFillType::DiagonalStripesWideUpwards, "wdUpDiag"),
    (ChartPatternFillType::VerticalStripesAlternating, "dashVert"),
    (ChartPatternFillType::DiagonalStripesLightUpwards, "ltUpDiag"),
    (ChartPatternFillType::DiagonalStripesDarkDownwards, "dkDnDiag"),
    (ChartPatternFillType::DiagonalStripesWideDownwards, "wdDnDiag"),
    (ChartPatternFillType::HorizontalStripesAlternating, "dashHorz"),
    (ChartPatternFillType::DiagonalStripesLightDownwards, "ltDnDiag"),
];
const DASHES: &[(ChartLineDashType, &str)] = &[
    (ChartLineDashType::Dash, "dash"),
    (ChartLineDashType::Solid, "-"),
    (ChartLineDashType::DashDot, "dashDot"),
    (ChartLineDashType::LongDash, "lgDash"),
    (ChartLineDashType::RoundDot, "sysDot"),
    (ChartLineDashType::SquareDot, "sysDash"),
    (ChartLineDashType::LongDashDot, "lgDashDot"),
    (ChartLineDashType::LongDashDotDot, "lgDashDotDot"),
];
const MARKERS: &[(ChartMarkerType, &str)] = &[
    (ChartMarkerType::X, "x"),
    (ChartMarkerType::Star, "star"),
    (ChartMarkerType::Circle, "circle"),
    (ChartMarkerType::Square, "square"),
    (ChartMarkerType::Diamond, "diamond"),
    (ChartMarkerType::LongDash, "dash"),
    (ChartMarkerType::PlusSign, "plus"),
    (ChartMarkerType::Triangle, "triangle"),
    (ChartMarkerType::ShortDash, "dot"),
];
const TICKS: &[(ChartAxisTickType, &str)] = &[
    (ChartAxisTickType::None, "none"),
    (ChartAxisTickType::Cross, "cross"),
    (ChartAxisTickType::Inside, "in"),
    (ChartAxisTickType::Outside, "out"),
];
const LABELS: &[(ChartAxisLabelPosition, &str)] = &[
    (ChartAxisLabelPosition::Low, "low"),
    (ChartAxisLabelPosition::High, "high"),
    (ChartAxisLabelPosition::None, "none"),
    (ChartAxisLabelPosition::NextTo, "nextTo"),
];
const UNITS: &[(ChartAxisDisplayUnitType, &str)] = &[
    (ChartAxisDisplayUnitType::Hundreds, "hundreds"),
    (ChartAxisDisplayUnitType::Thousands, "thousands"),
    (ChartAxisDisplayUnitType::TenThousands, "tenThousands"),
    (ChartAxisDisplayUnitType::HundredThousands, "hundredThousands"),
    (ChartAxisDisplayUnitType::Millions, "millions"),
    (ChartAxisDisplayUnitType::TenMillions, "tenMillions"),
    (ChartAxisDisplayUnitType::HundredMillions, "hundredMillions"),
    (ChartAxisDisplayUnitType::Billions, "billions"),
    (ChartAxisDisplayUnitType::Trillions, "trillions"),
];
const TIMES: &[(ChartAxisDateUnitType, &str)] = &[
    (ChartAxisDateUnitType::Days, "days"),
    (ChartAxisDateUnitType::Months, "months"),
    (ChartAxisDateUnitType::Years, "years"),
];
const ALIGNS: &[(ChartAxisLabelAlignment, &str)] = &[
    (ChartAxisLabelAlignment::Left, "l"),
    (ChartAxisLabelAlignment::Right, "r"),
    (ChartAxisLabelAlignment::Center, "ctr"),
];
const LEGENDS: &[(ChartLegendPosition, &str)] = &[
    (ChartLegendPosition::Top, "t"),
    (ChartLegendPosition::Left, "l"),
    (ChartLegendPosition::Right, "r"),
    (ChartLegendPosition::Bottom, "b"),
    (ChartLegendPosition::TopRight, "tr"),
];
const EMPTY: &[(ChartEmptyCells, &str)] = &[
    (ChartEmptyCells::Gaps, "gap"),
    (ChartEmptyCells::Zero, "zero"),
    (ChartEmptyCells::Connected, "span"),
];

const SHAPE_PATTERNS: &[(ShapePatternFillType, &str)] = &[
    (ShapePatternFillType::Wave, "wave"),
    (ShapePatternFillType::Weave, "weave"),
    (ShapePatternFillType::Plaid, "plaid"),
    (ShapePatternFillType::Divot, "divot"),
    (ShapePatternFillType::Zigzag, "zigZag"),
    (ShapePatternFillType::Sphere, "sphere"),
    (ShapePatternFillType::Shingle, "shingle"),
    (ShapePatternFillType::Trellis, "trellis"),
    (ShapePatternFillType::SmallGrid, "smGrid"),
    (ShapePatternFillType::LargeGrid, "lgGrid"),
    (ShapePatternFillType::DottedGrid, "dotGrid"),
    (ShapePatternFillType::DottedDiamond, "dotDmnd"),
    (ShapePatternFillType::DiagonalBrick, "diagBrick"),
    (ShapePatternFillType::LargeConfetti, "lgConfetti"),
    (ShapePatternFillType::SmallConfetti, "smConfetti"),
    (ShapePatternFillType::Dotted5Percent, "pct5"),
    (ShapePatternFillType::Dotted10Percent, "pct10"),
    (ShapePatternFillType::Dotted20Percent, "pct20"),
    (ShapePatternFillType::Dotted25Percent, "pct25"),
    (ShapePatternFillType::Dotted30Percent, "pct30"),
    (ShapePatternFillType::Dotted40Percent, "pct40"),
    (ShapePatternFillType::Dotted50Percent, "pct50"),
    (ShapePatternFillType::Dotted60Percent, "pct60"),
    (ShapePatternFillType::Dotted70Percent, "pct70"),
    (ShapePatternFillType::Dotted75Percent, "pct75"),
    (ShapePatternFillType::Dotted80Percent, "pct80"),
    (ShapePatternFillType::Dotted90Percent, "pct90"),
    (ShapePatternFillType::HorizontalBrick, "horzBrick"),
    (ShapePatternFillType::SolidDiamondGrid, "solidDmnd"),
    (ShapePatternFillType::SmallCheckerboard, "smCheck"),
    (ShapePatternFillType::LargeCheckerboard, "lgCheck"),
    (ShapePatternFillType::StripesBackslashes, "dashDnDiag"),
    (ShapePatternFillType::VerticalStripesDark, "dkVert"),
    (ShapePatternFillType::OutlinedDiamondGrid, "openDmnd"),
    (ShapePatternFillType::VerticalStripesLight, "ltVert"),
    (ShapePatternFillType::HorizontalStripesDark, "dkHorz"),
    (ShapePatternFillType::StripesForwardSlashes, "dashUpDiag"),
    (ShapePatternFillType::VerticalStripesNarrow, "narVert"),
    (ShapePatternFillType::HorizontalStripesLight, "ltHorz"),
    (ShapePatternFillType::HorizontalStripesNarrow, "narHorz"),
    (ShapePatternFillType::DiagonalStripesDarkUpwards, "dkUpDiag"),
    (ShapePatternFillType::DiagonalStripesWideUpwards, "wdUpDiag"),
    (ShapePatternFillType::VerticalStripesAlternating, "dashVert"),
    (ShapePatternFillType::DiagonalStripesLightUpwards, "ltUpDiag"),
    (ShapePatternFillType::DiagonalStripesDarkDownwards, "dkDnDiag"),
    (ShapePatternFillType::DiagonalStripesWideDownwards, "wdDnDiag"),
    (ShapePatternFillType::HorizontalStripesAlternating, "dashHorz"),
    (ShapePatternFillType::DiagonalStripesLightDownwards, "ltDnDiag"),
];
const SHAPE_DASHES: &[(ShapeLineDashType, &str)] = &[
    (ShapeLineDashType::Dash, "dash"),
    (ShapeLineDashType::Solid, "-"),
    (ShapeLineDashType::DashDot, "dashDot"),
    (ShapeLineDashType::LongDash, "lgDash"),
    (ShapeLineDashType::RoundDot, "sysDot"),
    (ShapeLineDashType::SquareDot, "sysDash"),
    (ShapeLineDashType::LongDashDot, "lgDashDot"),
    (ShapeLineDashType::LongDashDotDot, "lgDashDotDot"),
];
const DIRECTIONS: &[(ShapeTextDirection, &str)] = &[
    (ShapeTextDirection::Horizontal, "horz"),
    (ShapeTextDirection::Stacked, "wordArtVert"),
    (ShapeTextDirection::Rotate90, "vert"),
    (ShapeTextDirection::Rotate270, "vert270"),
    (ShapeTextDirection::Rotate90EastAsian, "eaVert"),
];
const ANCHORS: &[(ShapeTextVerticalAlignment, &str)] = &[
    (ShapeTextVerticalAlignment::Top, "t 0"),
    (ShapeTextVerticalAlignment::Middle, "ctr 0"),
    (ShapeTextVerticalAlignment::Bottom, "b 0"),
    (ShapeTextVerticalAlignment::TopCentered, "t 1"),
    (ShapeTextVerticalAlignment::MiddleCentered, "ctr 1"),
    (ShapeTextVerticalAlignment::BottomCentered, "b 1"),
];
const SIDES: &[(ShapeTextHorizontalAlignment, &str)] = &[
    (ShapeTextHorizontalAlignment::Default, ""),
    (ShapeTextHorizontalAlignment::Left, "l"),
    (ShapeTextHorizontalAlignment::Center, "ctr"),
    (ShapeTextHorizontalAlignment::Right, "r"),
];

/// A format or font which has been asked for, and what it has to say.
struct B<'a> {
    r: &'a mut Rng,
    want: Facts,
    /// Paths (or the starts of paths) which are left open.
    open: BTreeSet<String>,
}

fn num(x: f64) -> String {
    format!("{x}")
}

fn pick<T: Copy>(r: &mut Rng, t: &[(T, &'static str)]) -> (T, &'static str) {
    *r.pick(t)
}

/// A color, and how DrawingML names it.
fn color(r: &mut Rng) -> (Color, String) {
    match r.below(6) {
        0 => (Color::Red, "FF0000".into()),
        1 => (Color::Navy, "000080".into()),
        2 | 3 => {
            let (c, s) = (r.u8(0, 9), r.u8(0, 5));
            let name = [
                "bg1", "tx1", "bg2", "tx2", "accent1", "accent2", "accent3", "accent4", "accent5",
                "accent6",
            ][usize::from(c)];
            // The shades of the palette of Excel, as modulation and offset.
            let t: [(u32, u32); 5] = match c {
                0 => [(95, 0), (85, 0), (75, 0), (65, 0), (50, 0)],
                1 => [(50, 50), (65, 35), (75, 25), (85, 15), (95, 5)],
                2 => [(90, 0), (75, 0), (50, 0), (25, 0), (10, 0)],
                _ => [(20, 80), (40, 60), (60, 40), (75, 0), (50, 0)],
            };
            let d = match s {
                0 => name.to_string(),
                s => {
                    let (m, o) = t[usize::from(s) - 1];
                    format!("{name} {}+{}", m * 1000, o * 1000)
                }
            };
            (Color::Theme(c, s), d)
        }
        _ => {
            let n = r.u32(0, 0xFF_FFFF);
            (Color::RGB(n), format!("{n:06X}"))
        }
    }
}

fn clear(t: u8) -> String {
    if t == 0 {
        String::new()
    } else {
        format!(" alpha {}", u32::from(100 - t) * 1000)
    }
}

fn line(r: &mut Rng) -> (ChartLine, String) {
    let mut l = ChartLine::new();
    let (mut w, mut c, mut d) = ("-".to_string(), "-".to_string(), "-");
    if r.bool() {
        let n = f64::from(r.u8(1, 60)) / 4.0;
        l.set_width(n);
        w = num(n * 12700.0);
    }
    if r.bool() {
        let (x, t) = color(r);
        l.set_color(x);
        c = t;
        if r.one_in(3) {
            let t = r.u8(0, 100);
            l.set_transparency(t);
            c += &clear(t);
        }
    }
    if r.one_in(3) {
        let t = pick(r, DASHES);
        l.set_dash_type(t.0);
        d = t.1;
    }
    if r.one_in(10) {
        l.set_hidden(true);
        return (l, "none".into());
    }
    if r.one_in(10) {
        l.set_hidden(true).set_hidden(false);
    }
    (l, format!("{w} {c} {d}"))
}

impl B<'_> {
    fn put(&mut self, k: impl Into<String>, v: impl Into<String>) {
        self.want.insert(k.into(), v.into());
    }
    fn open(&mut self, k: impl Into<String>) {
        self.open.insert(k.into());
    }
    fn format(&mut self, k: &str) -> ChartFormat {
        let mut f = ChartFormat::new();
        match self.r.below(5) {
            0 | 1 => {
                let (l, t) = line(self.r);
                if self.r.bool() {
                    f.set_line(&l);
                } else {
                    f.set_border(&l);
                }
                self.put(format!("{k}/line"), t);
            }
            2 => {
                if self.r.bool() {
                    f.set_no_line();
                } else {
                    f.set_no_border();
                }
                self.put(format!("{k}/line"), "none");
            }
            _ => {}
        }
        match self.r.below(6) {
            0 => {
                f.set_no_fill();
                self.put(format!("{k}/fill"), "none");
            }
            1 | 2 => {
                let mut s = ChartSolidFill::new();
                let (c, mut t) = color(self.r);
                s.set_color(c);
                if self.r.bool() {
                    let n = self.r.u8(0, 100);
                    s.set_transparency(n);
                    t += &clear(n);
                }
                f.set_solid_fill(&s);
                self.put(format!("{k}/fill"), format!("solid {t}"));
            }
            3 => {
                let mut s = ChartPatternFill::new();
                let p = pick(self.r, PATTERNS);
                s.set_pattern(p.0);
                let (mut fg, mut bg) = ("-".to_string(), "-".to_string());
                if self.r.bool() {
                    let (c, t) = color(self.r);
                    s.set_foreground_color(c);
                    fg = t;
                    // What Excel takes when there is no other color.
                    bg = "FFFFFF".into();
                }
                if self.r.bool() {
                    let (c, t) = color(self.r);
                    s.set_background_color(c);
                    bg = t;
                }
                f.set_pattern_fill(&s);
                self.put(format!("{k}/fill"), format!("pattern {} {fg} {bg}", p.1));
            }
            4 => {
                let mut g = ChartGradientFill::new();
                let n = 2 + self.r.usize(4);
                let (mut stops, mut t) = (vec![], String::new());
                for i in 0..n {
                    let (c, d) = color(self.r);
                    let p = (i * 100 / (n - 1)) as u8;
                    stops.push(ChartGradientStop::new(c, p));
                    t += &format!(" {}:{d}", u32::from(p) * 1000);
                }
                g.set_gradient_stops(&stops);
                let k2 = match self.r.below(5) {
                    0 => {
                        g.set_type(ChartGradientFillType::Radial);
                        "circle".into()
                    }
                    1 => {
                        g.set_type(ChartGradientFillType::Rectangular);
                        "rect".into()
                    }
                    2 => {
                        g.set_type(ChartGradientFillType::Path);
                        "shape".into()
                    }
                    3 => "5400000".to_string(),
                    _ => {
                        let a = self.r.u16(0, 359);
                        g.set_angle(a);
                        num(f64::from(a) * 60000.0)
                    }
                };
                f.set_gradient_fill(&g);
                self.put(format!("{k}/fill"), format!("gradient {k2}{t}"));
            }
            _ => {}
        }
        f
    }
    fn line(&mut self, k: &str) -> ChartLine {
        let (l, t) = line(self.r);
        self.put(format!("{k}/line"), t);
        l
    }
    fn font(&mut self, k: &str) -> ChartFont {
        let mut f = ChartFont::new();
        self.open(format!("{k}/font/b"));
        self.open(format!("{k}/font/rot"));
        self.open(format!("{k}/font/rtl"));
        match self.r.below(4) {
            0 => {
                f.set_bold();
                self.put(format!("{k}/font/b"), "1");
            }
            1 => {
                f.unset_bold();
                self.put(format!("{k}/font/b"), "0");
            }
            _ => {}
        }
        if self.r.one_in(3) {
            f.set_italic();
            self.put(format!("{k}/font/i"), "1");
        }
        if self.r.one_in(3) {
            f.set_underline();
            self.put(format!("{k}/font/u"), "sng");
        }
        if self.r.one_in(4) {
            f.set_strikethrough();
            self.put(format!("{k}/font/strike"), "sngStrike");
        }
        if self.r.bool() {
            let (c, t) = color(self.r);
            f.set_color(c);
            self.put(format!("{k}/font/color"), format!("solid {t}"));
        }
        if self.r.bool() {
            let n = f64::from(self.r.u8(2, 80)) / 2.0;
            f.set_size(n);
            self.put(format!("{k}/font/sz"), num(n * 100.0));
        }
        if self.r.one_in(3) {
            f.set_name("A&B \"Font\"");
            self.put(format!("{k}/font/name"), "A&B \"Font\"");
        }
        if self.r.one_in(6) {
            let n = self.r.u8(1, 50);
            f.set_pitch_family(n);
            self.put(format!("{k}/font/pitch"), format!("{n}"));
        }
        if self.r.one_in(6) {
            let n = self.r.u8(1, 250);
            f.set_character_set(n);
            self.put(format!("{k}/font/charset"), format!("{n}"));
        }
        if self.r.one_in(4) {
            let n = *self.r.pick(&[-90i16, -45, 0, 30, 90, 270, 271]);
            f.set_rotation(n);
            let t = match n {
                270 => "0 wordArtVert".to_string(),
                271 => "0 eaVert".to_string(),
                n => format!("{} horz", i32::from(n) * 60000),
            };
            self.put(format!("{k}/font/rot"), t);
        }
        if self.r.one_in(6) {
            let t = self.r.bool();
            f.set_right_to_left(t);
            self.put(format!("{k}/font/rtl"), if t { "1" } else { "0" });
        }
        f
    }
    fn layout(&mut self, k: &str, sizes: bool) -> ChartLayout {
        let mut n = || f64::from(self.r.u16(1, 1000)) / 1000.0;
        let (x, y, w, h) = (n(), n(), n(), n());
        let l = ChartLayout::new().set_offset(x, y);
        if self.r.bool() {
            if sizes {
                self.put(format!("{k}/layout"), format!("{x} {y} {w} {h}"));
            } else {
                self.put(format!("{k}/layout"), format!("{x} {y} - -"));
            }
            l.set_dimensions(w, h)
        } else {
            self.put(format!("{k}/layout"), format!("{x} {y} - -"));
            l
        }
    }
    fn text(&mut self, max: usize) -> String {
        // A leading `=` would make it a reference.
        format!("t{}", gen::text(self.r, max, gen::PLAIN))
    }
    fn value(&mut self) -> f64 {
        match self.r.below(4) {
            0 => f64::from(self.r.u8(0, 100)),
            1 => -f64::from(self.r.u16(1, 10000)) / 8.0,
            _ => f64::from(self.r.u32(0, 1_000_000)) / 1000.0,
        }
    }
}

// ------------------------------------------------------------------ decoding

fn d_color(e: &Elem) -> String {
    let Some(c) = e.elems().next() else {
        return "?".into();
    };
    let mut t = c.a("val").to_string();
    if c.name == "a:sysClr" {
        t = format!("sys {t}");
    }
    let m = c.val("a:lumMod").unwrap_or("0");
    let o = c.val("a:lumOff").unwrap_or("0");
    if m != "0" || o != "0" {
        t += &format!(" {m}+{o}");
    }
    if let Some(a) = c.val("a:alpha") {
        t += &format!(" alpha {a}");
    }
    t
}

fn d_fill(e: &Elem) -> Option<String> {
    for f in e.elems() {
        match f.name.as_str() {
            "a:noFill" => return Some("none".into()),
            "a:solidFill" => return Some(format!("solid {}", d_color(f))),
            "a:pattFill" => {
                let c = |n| f.child(n).map_or("-".into(), d_color);
                return Some(format!(
                    "pattern {} {} {}",
                    f.a("prst"),
                    c("a:fgClr"),
                    c("a:bgClr")
                ));
            }
            "a:gradFill" => {
                let mut t = format!(
                    "gradient {}",
                    match (f.child("a:lin"), f.child("a:path")) {
                        (Some(l), None) => l.a("ang"),
                        (None, Some(p)) => p.a("path"),
                        _ => "?",
                    }
                );
                for s in f
                    .child("a:gsLst")
                    .map(|x| x.children("a:gs").collect::<Vec<_>>())
                    .unwrap_or_default()
                {
                    t += &format!(" {}:{}", s.a("pos"), d_color(s));
                }
                return Some(t);
            }
            _ => {}
        }
    }
    None
}

fn d_line(l: &Elem) -> String {
    if l.child("a:noFill").is_some() {
        return "none".into();
    }
    format!(
        "{} {} {}",
        l.attr("w").unwrap_or("-"),
        l.child("a:solidFill").map_or("-".into(), d_color),
        l.val("a:prstDash").unwrap_or("-")
    )
}

fn d_format(f: &mut Facts, k: &str, e: Option<&Elem>) {
    let Some(s) = e.and_then(|e| e.child("c:spPr")) else {
        return;
    };
    if let Some(t) = d_fill(s) {
        f.insert(format!("{k}/fill"), t);
    }
    if let Some(l) = s.child("a:ln") {
        f.insert(format!("{k}/line"), d_line(l));
    }
}

/// The font of a `c:txPr` or `c:rich`.
fn d_font(f: &mut Facts, k: &str, e: Option<&Elem>) {
    let Some(e) = e else { return };
    let mut put = |n: &str, v: Option<String>| {
        if let Some(v) = v {
            f.insert(format!("{k}/font/{n}"), v);
        }
    };
    let p = e.child("a:p");
    let ppr = p.and_then(|p| p.child("a:pPr"));
    // The properties of the text itself count when there is one.
    let rpr = p
        .and_then(|p| p.path("a:r/a:rPr"))
        .or(ppr.and_then(|p| p.child("a:defRPr")));
    if let Some(b) = e.child("a:bodyPr") {
        put(
            "rot",
            b.attr("rot")
                .map(|r| format!("{r} {}", b.attr("vert").unwrap_or("horz"))),
        );
    }
    put("rtl", ppr.and_then(|p| p.attr("rtl")).map(str::to_string));
    if let Some(x) = rpr {
        let a = |n| x.attr(n).map(str::to_string);
        put("b", a("b"));
        put("i", a("i").filter(|v| v != "0"));
        put("u", a("u").filter(|v| v != "none"));
        put("strike", a("strike").filter(|v| v != "noStrike"));
        put("sz", a("sz"));
        put("color", d_fill(x));
        if let Some(l) = x.child("a:latin") {
            put("name", l.attr("typeface").map(str::to_string));
            put("pitch", l.attr("pitchFamily").map(str::to_string).filter(|v| v != "0"));
            put("charset", l.attr("charset").map(str::to_string).filter(|v| v != "0"));
        }
    }
    // Both copies of a text's font say the same.
    if let (Some(d), Some(x)) = (
        ppr.and_then(|p| p.child("a:defRPr")),
        p.and_then(|p| p.path("a:r/a:rPr")),
    ) {
        let a = |e: &Elem| {
            let mut v: Vec<_> = e.attrs.iter().filter(|(n, _)| n != "lang").cloned().collect();
            v.sort();
            (v, d_fill(e), e.child("a:latin").map(Elem::show))
        };
        if a(d) != a(x) {
            f.insert(format!("{k}/font/twice"), format!("{} {}", d.show(), x.show()));
        }
    }
}

fn d_layout(f: &mut Facts, k: &str, e: Option<&Elem>) {
    if let Some(m) = e.and_then(|e| e.path("c:layout/c:manualLayout")) {
        let v = |n: &str| m.val(n).unwrap_or("-").to_string();
        f.insert(
            format!("{k}/layout"),
            format!("{} {} {} {}", v("c:x"), v("c:y"), v("c:w"), v("c:h")),
        );
    }
}

fn d_val(f: &mut Facts, k: String, e: &Elem, n: &str, default: &str) {
    if let Some(v) = e.val(n) {
        if v != default {
            f.insert(k, v.to_string());
        }
    }
}

fn d_title(f: &mut Facts, k: &str, e: Option<&Elem>) {
    let Some(e) = e else { return };
    let tx = e.child("c:tx");
    if let Some(r) = tx.and_then(|t| t.child("c:rich")) {
        let t: String = r.find_all("a:t").iter().map(|t| xstring(&t.text())).collect();
        f.insert(format!("{k}/text"), t);
        d_font(f, k, Some(r));
    }
    if let Some(r) = tx.and_then(|t| t.path("c:strRef/c:f")) {
        f.insert(format!("{k}/text"), format!("={}", r.text()));
    }
    d_font(f, k, e.child("c:txPr"));
    d_format(f, k, Some(e));
    d_layout(f, k, Some(e));
    d_val(f, format!("{k}/overlay"), e, "c:overlay", "0");
}

fn d_labels(f: &mut Facts, k: &str, e: &Elem) {
    if let Some(n) = e.child("c:numFmt") {
        f.insert(
            format!("{k}/format"),
            format!("{} {}", n.a("formatCode"), n.a("sourceLinked")),
        );
    }
    d_format(f, k, Some(e));
    d_font(f, k, e.child("c:txPr"));
    d_val(f, format!("{k}/pos"), e, "c:dLblPos", "");
    for n in [
        "showLegendKey",
        "showVal",
        "showCatName",
        "showSerName",
        "showPercent",
    ] {
        d_val(f, format!("{k}/{n}"), e, &format!("c:{n}"), "0");
    }
    if let Some(s) = e.child("c:separator") {
        f.insert(format!("{k}/separator"), s.text());
    }
    let mut lead: Vec<&Elem> = e.child("c:showLeaderLines").into_iter().collect();
    if let Some(x) = e.child("c:extLst") {
        x.desc("c15:showLeaderLines", &mut lead);
    }
    if lead.iter().any(|l| l.a("val") == "1") {
        f.insert(format!("{k}/leader"), "1".into());
    }
}

fn d_series(f: &mut Facts, k: &str, e: &Elem) {
    d_format(f, k, Some(e));
    if let Some(m) = e.child("c:marker") {
        f.insert(
            format!("{k}/marker"),
            m.val("c:symbol").unwrap_or("auto").into(),
        );
        d_val(f, format!("{k}/marker/size"), m, "c:size", "");
        d_format(f, &format!("{k}/marker"), Some(m));
    }
    d_val(f, format!("{k}/invert"), e, "c:invertIfNegative", "0");
    d_val(f, format!("{k}/smooth"), e, "c:smooth", "0");
    let mut x = vec![];
    e.desc("c14:spPr", &mut x);
    for x in x {
        f.insert(format!("{k}/inverted"), d_fill(x).unwrap_or_default());
    }
    for p in e.children("c:dPt") {
        let n = format!("{k}/point{}", p.val("c:idx").unwrap_or("?"));
        d_format(f, &n, Some(p));
        d_format(f, &n, p.child("c:marker"));
    }
    if let Some(l) = e.child("c:dLbls") {
        let n = format!("{k}/labels");
        f.insert(n.clone(), "1".into());
        d_labels(f, &n, l);
        for c in l.children("c:dLbl") {
            let n = format!("{k}/label{}", c.val("c:idx").unwrap_or("?"));
            if c.val("c:delete") == Some("1") {
                f.insert(n, "deleted".into());
                continue;
            }
            f.insert(n.clone(), "1".into());
            let tx = c.child("c:tx");
            if let Some(r) = tx.and_then(|t| t.child("c:rich")) {
                let t: String = r.find_all("a:t").iter().map(|t| xstring(&t.text())).collect();
                f.insert(format!("{n}/text"), t);
                d_font(f, &n, Some(r));
            }
            if let Some(r) = tx.and_then(|t| t.path("c:strRef/c:f")) {
                f.insert(format!("{n}/text"), format!("={}", r.text()));
            }
            d_labels(f, &n, c);
        }
    }
    for t in e.children("c:trendline") {
        let n = format!("{k}/trend");
        f.insert(n.clone(), t.val("c:trendlineType").unwrap_or("?").into());
        if let Some(x) = t.child_text("c:name") {
            f.insert(format!("{n}/name"), xstring(&x));
        }
        for a in ["order", "period", "forward", "backward", "intercept"] {
            d_val(f, format!("{n}/{a}"), t, &format!("c:{a}"), "");
        }
        d_val(f, format!("{n}/r2"), t, "c:dispRSqr", "0");
        d_val(f, format!("{n}/equation"), t, "c:dispEq", "0");
        d_format(f, &n, Some(t));
        if let Some(l) = t.child("c:trendlineLbl") {
            d_format(f, &format!("{n}/label"), Some(l));
            d_font(f, &format!("{n}/label"), l.child("c:txPr"));
        }
    }
    for t in e.children("c:errBars") {
        let n = format!("{k}/error {}", t.val("c:errDir").unwrap_or("-"));
        f.insert(
            n.clone(),
            format!(
                "{} {} {}",
                t.val("c:errValType").unwrap_or("?"),
                t.val("c:errBarType").unwrap_or("?"),
                t.val("c:val").unwrap_or("-")
            ),
        );
        d_val(f, format!("{n}/no cap"), t, "c:noEndCap", "0");
        d_format(f, &n, Some(t));
    }
}

fn d_axis(f: &mut Facts, k: &str, e: &Elem) {
    f.insert(k.to_string(), e.name.clone());
    d_title(f, &format!("{k}/title"), e.child("c:title"));
    d_format(f, k, Some(e));
    d_font(f, k, e.child("c:txPr"));
    d_val(f, format!("{k}/deleted"), e, "c:delete", "0");
    if let Some(n) = e.child("c:numFmt") {
        if n.a("sourceLinked") != "1" {
            f.insert(format!("{k}/format"), n.a("formatCode").into());
        }
    }
    for (n, p, d) in [
        ("log", "c:scaling/c:logBase", ""),
        ("reverse", "c:scaling/c:orientation", "minMax"),
        ("max", "c:scaling/c:max", ""),
        ("min", "c:scaling/c:min", ""),
        ("major tick", "c:majorTickMark", ""),
        ("minor tick", "c:minorTickMark", ""),
        ("labels", "c:tickLblPos", "nextTo"),
        ("align", "c:lblAlgn", "ctr"),
        ("label interval", "c:tickLblSkip", "1"),
        ("tick interval", "c:tickMarkSkip", "1"),
        ("major unit", "c:majorUnit", ""),
        ("minor unit", "c:minorUnit", ""),
        ("major time", "c:majorTimeUnit", ""),
        ("minor time", "c:minorTimeUnit", ""),
        ("between", "c:crossBetween", ""),
        ("crosses", "c:crosses", "autoZero"),
        ("crosses", "c:crossesAt", ""),
        ("auto", "c:auto", "0"),
    ] {
        d_val(f, format!("{k}/{n}"), e, p, d);
    }
    for (n, p) in [("major", "c:majorGridlines"), ("minor", "c:minorGridlines")] {
        if let Some(g) = e.child(p) {
            f.insert(format!("{k}/{n} grid"), "1".into());
            d_format(f, &format!("{k}/{n} grid"), Some(g));
        }
    }
    if let Some(u) = e.child("c:dispUnits") {
        f.insert(
            format!("{k}/units"),
            u.val("c:builtInUnit").unwrap_or("?").into(),
        );
        if u.child("c:dispUnitsLbl").is_some() {
            f.insert(format!("{k}/units shown"), "1".into());
        }
    }
}

fn d_chart(x: &Elem, flip: bool) -> Facts {
    let mut m = Facts::new();
    let f = &mut m;
    d_val(f, "style".into(), x, "c:style", "2");
    d_format(f, "area", Some(x));
    let Some(c) = x.child("c:chart") else {
        return m;
    };
    d_title(f, "title", c.child("c:title"));
    d_val(f, "title/deleted".into(), c, "c:autoTitleDeleted", "0");
    d_val(f, "blanks".into(), c, "c:dispBlanksAs", "gap");
    if c.val("c:plotVisOnly") != Some("1") {
        f.insert("show hidden".into(), "1".into());
    }
    let mut na = vec![];
    c.desc("c16r3:dispNaAsBlank", &mut na);
    if na.iter().any(|n| n.a("val") == "1") {
        f.insert("na as blank".into(), "1".into());
    }
    match c.child("c:legend") {
        None => {
            f.insert("legend/hidden".into(), "1".into());
        }
        Some(l) => {
            d_val(f, "legend/pos".into(), l, "c:legendPos", "r");
            let mut n = vec![];
            for e in l.children("c:legendEntry") {
                if e.val("c:delete") == Some("1") {
                    n.push(e.val("c:idx").unwrap_or("?").to_string());
                }
            }
            if !n.is_empty() {
                f.insert("legend/deleted".into(), n.join(" "));
            }
            d_layout(f, "legend", Some(l));
            d_val(f, "legend/overlay".into(), l, "c:overlay", "0");
            d_format(f, "legend", Some(l));
            d_font(f, "legend", l.child("c:txPr"));
        }
    }
    let Some(p) = c.child("c:plotArea") else {
        return m;
    };
    d_format(f, "plot", Some(p));
    d_layout(f, "plot", Some(p));
    if let Some(t) = p.child("c:dTable") {
        f.insert("table".into(), "1".into());
        for n in ["showHorzBorder", "showVertBorder", "showOutline", "showKeys"] {
            d_val(f, format!("table/{n}"), t, &format!("c:{n}"), "0");
        }
        d_format(f, "table", Some(t));
        d_font(f, "table", t.child("c:txPr"));
    }
    let mut axes: Vec<(Vec<String>, &str)> = vec![];
    for (n, g) in p
        .elems()
        .filter(|e| e.name.ends_with("Chart"))
        .enumerate()
    {
        let k = format!("group{n}");
        f.insert(k.clone(), g.name.clone());
        d_val(f, format!("{k}/gap"), g, "c:gapWidth", "150");
        d_val(f, format!("{k}/overlap"), g, "c:overlap", "0");
        d_val(f, format!("{k}/angle"), g, "c:firstSliceAng", "0");
        d_val(f, format!("{k}/hole"), g, "c:holeSize", "50");
        for (n, e) in [("drop", "c:dropLines"), ("high low", "c:hiLowLines")] {
            if let Some(e) = g.child(e) {
                f.insert(format!("{k}/{n}"), "1".into());
                d_format(f, &format!("{k}/{n}"), Some(e));
            }
        }
        if let Some(u) = g.child("c:upDownBars") {
            f.insert(format!("{k}/up down"), "1".into());
            d_format(f, &format!("{k}/up"), u.child("c:upBars"));
            d_format(f, &format!("{k}/down"), u.child("c:downBars"));
        }
        for s in g.children("c:ser") {
            let k = format!("series{}", s.val("c:idx").unwrap_or("?"));
            if let Some(r) = s.path("c:val/c:numRef/c:f").or(s.path("c:yVal/c:numRef/c:f")) {
                f.insert(format!("{k}/values"), r.text());
            }
            f.insert(format!("{k}/group"), format!("{n}"));
            d_series(f, &k, s);
        }
        let ids: Vec<String> = g.children("c:axId").map(|a| a.a("val").to_string()).collect();
        if ids.len() == 2 && !axes.iter().any(|a| a.0 == ids) {
            let k = if axes.is_empty() { "" } else { "2" };
            axes.push((ids, k));
        }
    }
    for (ids, k) in &axes {
        for (i, n) in ["x", "y"].iter().enumerate() {
            let at = if flip { 1 - i } else { i };
            for e in p.elems().filter(|e| e.name.ends_with("Ax")) {
                if e.val("c:axId") == ids.get(at).map(String::as_str) {
                    d_axis(f, &format!("{n}{k}"), e);
                }
            }
        }
    }
    m
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, PartialEq)]
enum Group {
    Area,
    Bar,
    Column,
    Doughnut,
    Line,
    Pie,
    Radar,
    Scatter,
    Stock,
}

const TYPES: &[(ChartType, Group)] = &[
    (ChartType::Area, Group::Area),
    (ChartType::AreaStacked, Group::Area),
    (ChartType::AreaPercentStacked, Group::Area),
    (ChartType::Bar, Group::Bar),
    (ChartType::BarStacked, Group::Bar),
    (ChartType::BarPercentStacked, Group::Bar),
    (ChartType::Column, Group::Column),
    (ChartType::Column, Group::Column),
    (ChartType::ColumnStacked, Group::Column),
    (ChartType::ColumnPercentStacked, Group::Column),
    (ChartType::Doughnut, Group::Doughnut),
    (ChartType::Line, Group::Line),
    (ChartType::Line, Group::Line),
    (ChartType::LineStacked, Group::Line),
    (ChartType::LinePercentStacked, Group::Line),
    (ChartType::Pie, Group::Pie),
    (ChartType::Radar, Group::Radar),
    (ChartType::RadarWithMarkers, Group::Radar),
    (ChartType::RadarFilled, Group::Radar),
    (ChartType::Scatter, Group::Scatter),
    (ChartType::ScatterStraight, Group::Scatter),
    (ChartType::ScatterStraightWithMarkers, Group::Scatter),
    (ChartType::ScatterSmooth, Group::Scatter),
    (ChartType::ScatterSmoothWithMarkers, Group::Scatter),
    (ChartType::Stock, Group::Stock),
];

impl Group {
    fn element(self) -> &'static str {
        match self {
            Group::Area => "c:areaChart",
            Group::Bar | Group::Column => "c:barChart",
            Group::Doughnut => "c:doughnutChart",
            Group::Line => "c:lineChart",
            Group::Pie => "c:pieChart",
            Group::Radar => "c:radarChart",
            Group::Scatter => "c:scatterChart",
            Group::Stock => "c:stockChart",
        }
    }
    fn has_axes(self) -> bool {
        !matches!(self, Group::Pie | Group::Doughnut)
    }
    fn bars(self) -> bool {
        matches!(self, Group::Bar | Group::Column)
    }
    /// The positions of data labels, and which is the default.
    fn positions(self) -> (&'static [(ChartDataLabelPosition, &'static str)], &'static str) {
        use ChartDataLabelPosition as P;
        match self {
            Group::Line | Group::Scatter | Group::Stock => (
                &[
                    (P::Center, "ctr"),
                    (P::Right, "r"),
                    (P::Left, "l"),
                    (P::Above, "t"),
                    (P::Below, "b"),
                ],
                "r",
            ),
            Group::Bar | Group::Column => (
                &[
                    (P::Center, "ctr"),
                    (P::InsideBase, "inBase"),
                    (P::InsideEnd, "inEnd"),
                    (P::OutsideEnd, "outEnd"),
                ],
                "outEnd",
            ),
            Group::Pie | Group::Doughnut => (
                &[
                    (P::Center, "ctr"),
                    (P::InsideEnd, "inEnd"),
                    (P::OutsideEnd, "outEnd"),
                    (P::BestFit, "bestFit"),
                ],
                "bestFit",
            ),
            _ => (&[(P::Center, "ctr")], "ctr"),
        }
    }
}

fn smooth(t: ChartType) -> bool {
    matches!(t, ChartType::ScatterSmooth | ChartType::ScatterSmoothWithMarkers)
}

/// Whether the series of a type start without markers.
fn plain(t: ChartType, g: Group) -> bool {
    g == Group::Line
        || matches!(
            t,
            ChartType::ScatterStraight | ChartType::ScatterSmooth | ChartType::Radar
        )
}

const POINTS: usize = 6;

fn label(b: &mut B, k: &str, g: Group) -> ChartDataLabel {
    let mut l = ChartDataLabel::new();
    let mut value = b.r.bool();
    let custom = !k.ends_with("labels");
    if value {
        l.show_value();
    }
    let (cat, pct) = (b.r.one_in(3), b.r.one_in(4));
    if cat {
        l.show_category_name();
        b.put(format!("{k}/showCatName"), "1");
    }
    if b.r.one_in(3) {
        l.show_series_name();
        b.put(format!("{k}/showSerName"), "1");
    }
    if b.r.one_in(4) {
        l.show_legend_key();
        b.put(format!("{k}/showLegendKey"), "1");
    }
    if pct && !g.has_axes() {
        l.show_percentage();
        b.put(format!("{k}/showPercent"), "1");
    }
    // Something has to be shown.
    if !value && !custom {
        value = !cat && !(pct && !g.has_axes());
        if b.want.contains_key(&format!("{k}/showSerName")) {
            b.open(format!("{k}/showVal"));
        }
    }
    if value {
        b.put(format!("{k}/showVal"), "1");
    }
    if b.r.one_in(4) {
        l.show_leader_lines();
        // The lines belong to the labels of a series, not to a single label.
        if !custom {
            b.put(format!("{k}/leader"), "1");
        }
    }
    if b.r.one_in(3) {
        let t = *b.r.pick(&["0.00", "0%", "[Red]#,##0;\"<&>\"", "yyyy"]);
        l.set_num_format(t);
        b.put(format!("{k}/format"), format!("{t} 0"));
    }
    if b.r.one_in(3) {
        let mut f = b.format(k);
        l.set_format(&mut f);
    }
    if b.r.one_in(3) {
        let f = b.font(k);
        l.set_font(&f);
    }
    if b.r.one_in(3) {
        let c = *b.r.pick(&[';', '.', '\n', ' ']);
        l.set_separator(c);
        let after = if matches!(c, ';' | '.') { " " } else { "" };
        b.put(format!("{k}/separator"), format!("{c}{after}"));
    }
    if b.r.bool() {
        let (t, d) = g.positions();
        let p = pick(b.r, t);
        l.set_position(p.0);
        // The default may be left out.
        if p.1 != d {
            b.put(format!("{k}/pos"), p.1);
        } else {
            b.open(format!("{k}/pos"));
        }
    }
    l
}

/// Settings of the series which the chart calls `k`. Returns whether it is
/// left out of the legend, and for a trendline the same.
fn series(
    b: &mut B,
    s: &mut ChartSeries,
    k: &str,
    t: ChartType,
    g: Group,
) -> (bool, Option<bool>) {
    if b.r.bool() {
        let mut f = b.format(k);
        s.set_format(&mut f);
    }
    if t == ChartType::Scatter && !b.want.contains_key(&format!("{k}/line")) {
        // A Scatter chart has no lines unless there is a format for them.
        b.open(format!("{k}/line"));
    }
    if plain(t, g) {
        b.put(format!("{k}/marker"), "none");
    }
    if matches!(g, Group::Line | Group::Scatter | Group::Stock)
        || matches!(t, ChartType::Radar | ChartType::RadarWithMarkers)
    {
        let n = format!("{k}/marker");
        let mut m = ChartMarker::new();
        match b.r.below(6) {
            0 => {
                m.set_automatic();
                b.want.remove(&n);
                s.set_marker(&m);
            }
            1 => {
                m.set_none();
                b.put(&n, "none");
                s.set_marker(&m);
            }
            2 | 3 => {
                let t = pick(b.r, MARKERS);
                m.set_type(t.0);
                b.put(&n, t.1);
                if b.r.bool() {
                    let z = b.r.u8(2, 72);
                    m.set_size(z);
                    b.put(format!("{n}/size"), format!("{z}"));
                }
                if b.r.bool() {
                    let mut f = b.format(&n);
                    m.set_format(&mut f);
                }
                s.set_marker(&m);
            }
            _ => {}
        }
    }
    if g.bars() && b.r.one_in(5) {
        if b.r.bool() {
            s.set_invert_if_negative();
        } else {
            let (c, t) = color(b.r);
            s.set_invert_if_negative_color(c);
            b.put(format!("{k}/inverted"), format!("solid {t}"));
        }
        b.put(format!("{k}/invert"), "1");
    }
    if matches!(g, Group::Line | Group::Scatter) {
        let mut on = g == Group::Scatter && smooth(t);
        if b.r.one_in(4) {
            on = b.r.bool();
            s.set_smooth(on);
        }
        if on {
            b.put(format!("{k}/smooth"), "1");
        }
    }
    match b.r.below(8) {
        0 => {
            let mut v = vec![];
            for i in 0..b.r.usize(POINTS + 2) {
                let mut p = ChartPoint::new();
                if b.r.bool() {
                    let at = format!("{k}/point{i}");
                    let mut f = b.format(&at);
                    if i >= POINTS {
                        b.want.retain(|k, _| !k.starts_with(&at));
                    }
                    p = p.set_format(&mut f);
                }
                v.push(p);
            }
            s.set_points(&v);
        }
        1 => {
            let mut v = vec![];
            for i in 0..1 + b.r.usize(POINTS) {
                let (c, t) = color(b.r);
                v.push(c);
                b.put(format!("{k}/point{i}/fill"), format!("solid {t}"));
            }
            s.set_point_colors(&v);
        }
        _ => {}
    }
    if b.r.one_in(3) {
        let n = format!("{k}/labels");
        b.put(&n, "1");
        let l = label(b, &n, g);
        s.set_data_label(&l);
        if b.r.bool() {
            let mut v = vec![];
            for i in 0..b.r.usize(POINTS + 2) {
                let at = format!("{k}/label{i}");
                let l = custom(b, &at, g);
                if i >= POINTS {
                    b.want.retain(|k, _| !k.starts_with(&at));
                }
                v.push(l);
            }
            s.set_custom_data_labels(&v);
        }
    }
    let mut trend = None;
    if !matches!(g, Group::Pie | Group::Doughnut | Group::Radar) && b.r.one_in(4) {
        trend = Some(trendline(b, s, &format!("{k}/trend")));
    }
    if !matches!(g, Group::Pie | Group::Doughnut | Group::Radar) && b.r.one_in(4) {
        for dir in ["y", "x"] {
            // Only the direction of the values has a bar, but for Scatter.
            let there = match (g, dir) {
                (Group::Scatter, _) => dir,
                (Group::Bar, "x") | (Group::Column, "y") => "-",
                (Group::Bar, _) | (_, "x") => continue,
                _ => dir,
            };
            if b.r.one_in(4) {
                continue;
            }
            let n = format!("{k}/error {there}");
            let mut e = ChartErrorBars::new();
            let v = f64::from(b.r.u16(1, 900)) / 8.0;
            let (t, d, v) = match b.r.below(4) {
                0 => (ChartErrorBarsType::FixedValue(v), "fixedVal", num(v)),
                1 => (ChartErrorBarsType::Percentage(v), "percentage", num(v)),
                2 => (ChartErrorBarsType::StandardDeviation(v), "stdDev", num(v)),
                _ => (ChartErrorBarsType::StandardError, "stdErr", "-".into()),
            };
            e.set_type(t);
            let w = pick(
                b.r,
                &[
                    (ChartErrorBarsDirection::Both, "both"),
                    (ChartErrorBarsDirection::Plus, "plus"),
                    (ChartErrorBarsDirection::Minus, "minus"),
                ],
            );
            e.set_direction(w.0);
            b.put(&n, format!("{d} {} {v}", w.1));
            if b.r.one_in(3) {
                e.set_end_cap(false);
                b.put(format!("{n}/no cap"), "1");
            }
            if b.r.bool() {
                let mut f = b.format(&n);
                e.set_format(&mut f);
            }
            if dir == "y" {
                s.set_y_error_bars(&e);
            } else {
                s.set_x_error_bars(&e);
            }
        }
    }
    let gone = b.r.one_in(6);
    if gone {
        s.delete_from_legend(true);
    }
    (gone, trend)
}

fn custom(b: &mut B, k: &str, g: Group) -> ChartDataLabel {
    match b.r.below(5) {
        // Like the others.
        0 => ChartDataLabel::new(),
        1 => {
            b.put(k, "deleted");
            ChartDataLabel::new().set_hidden().to_custom()
        }
        n => {
            b.put(k, "1");
            let mut l = label(b, k, g);
            let named = n > 2;
            if named {
                if b.r.bool() {
                    let t = b.text(20);
                    l.set_value(t.as_str());
                    b.put(format!("{k}/text"), t);
                } else {
                    l.set_value(("Data", 3, 0));
                    b.put(format!("{k}/text"), "=Data!$A$4");
                }
                b.put(format!("{k}/showVal"), "1");
            } else if l == ChartDataLabel::new() {
                b.want.remove(k);
            }
            l.to_custom()
        }
    }
}

fn trendline(b: &mut B, s: &mut ChartSeries, k: &str) -> bool {
    let mut t = ChartTrendline::new();
    use ChartTrendlineType as T;
    let n = b.r.u8(2, 4);
    let v = match b.r.below(6) {
        0 => (T::Exponential, "exp"),
        1 => (T::Linear, "linear"),
        2 => (T::Logarithmic, "log"),
        3 => (T::Power, "power"),
        4 => {
            b.put(format!("{k}/order"), format!("{n}"));
            (T::Polynomial(n), "poly")
        }
        _ => {
            b.put(format!("{k}/period"), format!("{n}"));
            (T::MovingAverage(n), "movingAvg")
        }
    };
    t.set_type(v.0);
    b.put(k, v.1);
    if b.r.one_in(3) {
        let n = b.text(20);
        t.set_name(n.as_str());
        b.put(format!("{k}/name"), n);
    }
    let mut half = || f64::from(b.r.u8(1, 20)) / 2.0;
    let (fw, bw) = (half(), half());
    if b.r.one_in(3) {
        t.set_forward_period(fw);
        b.put(format!("{k}/forward"), num(fw));
    }
    if b.r.one_in(3) {
        t.set_backward_period(bw);
        b.put(format!("{k}/backward"), num(bw));
    }
    if b.r.one_in(4) {
        let n = b.value();
        t.set_intercept(n);
        b.put(format!("{k}/intercept"), num(n));
    }
    if b.r.one_in(3) {
        t.display_r_squared(true);
        b.put(format!("{k}/r2"), "1");
    }
    if b.r.bool() {
        let mut f = b.format(k);
        t.set_format(&mut f);
    }
    if b.r.bool() {
        t.display_equation(true);
        b.put(format!("{k}/equation"), "1");
        if b.r.bool() {
            let mut f = b.format(&format!("{k}/label"));
            t.set_label_format(&mut f);
        }
        if b.r.bool() {
            let f = b.font(&format!("{k}/label"));
            t.set_label_font(&f);
        }
    }
    let gone = b.r.one_in(3);
    if gone {
        t.delete_from_legend(true);
    }
    s.set_trendline(&t);
    gone
}

/// The kind of an axis.
#[derive(Clone, Copy, PartialEq)]
enum Ax {
    Cat,
    Date,
    Val,
}

fn title(b: &mut B, k: &str, mut set: impl FnMut(&str)) -> bool {
    let t = b.text(25);
    if b.r.one_in(3) {
        set("=Data!$A$3");
        b.put(format!("{k}/text"), "=Data!$A$3");
    } else {
        set(&t);
        b.put(format!("{k}/text"), t);
    }
    true
}

/// Settings of one axis. `other` is the axis which it crosses.
fn axis(b: &mut B, a: &mut ChartAxis, k: &str, other: &str, kind: Ax, g: Group, crossed: bool) {
    b.open(format!("{k}/title/font/rot"));
    b.open(format!("{k}/title/font/b"));
    b.open(format!("{k}/title/font/rtl"));
    if b.r.one_in(3) {
        let n = format!("{k}/title");
        title(b, &n, |t| {
            a.set_name(t);
        });
        if b.r.bool() {
            let f = b.font(&n);
            a.set_name_font(&f);
        }
        if b.r.one_in(4) {
            let l = b.layout(&n, false);
            a.set_label_layout(&l);
        }
    }
    if b.r.one_in(3) {
        let f = b.font(k);
        a.set_font(&f);
    }
    if b.r.one_in(3) {
        let mut f = b.format(k);
        a.set_format(&mut f);
    }
    if b.r.one_in(3) {
        let t = *b.r.pick(&["0.00", "0%", "[Red]#,##0;\"<&>\"", "yyyy", "General"]);
        a.set_num_format(t);
        b.put(format!("{k}/format"), t);
    }
    if b.r.one_in(4) {
        a.set_reverse();
        b.put(format!("{k}/reverse"), "maxMin");
    }
    if kind != Ax::Cat && b.r.one_in(3) {
        if b.r.bool() {
            let n = b.value();
            a.set_min(n);
            b.put(format!("{k}/min"), num(n));
        }
        if b.r.bool() {
            let n = b.value() + 100_000.0;
            a.set_max(n);
            b.put(format!("{k}/max"), num(n));
        }
        if kind == Ax::Date && b.r.bool() {
            let n = b.r.u16(1000, 60000);
            let d = ExcelDateTime::from_serial_datetime(n);
            if let Ok(d) = d {
                a.set_max_date(&d);
                b.put(format!("{k}/max"), format!("{n}"));
            }
        }
    }
    if kind != Ax::Cat {
        if b.r.one_in(4) {
            let n = f64::from(b.r.u16(1, 999)) / 8.0;
            a.set_major_unit(n);
            b.put(format!("{k}/major unit"), num(n));
        }
        if b.r.one_in(4) {
            let n = f64::from(b.r.u16(1, 999)) / 8.0;
            a.set_minor_unit(n);
            b.put(format!("{k}/minor unit"), num(n));
        }
    }
    if kind == Ax::Date {
        if b.r.one_in(3) {
            let t = pick(b.r, TIMES);
            a.set_major_unit_date_type(t.0);
            b.put(format!("{k}/major time"), t.1);
        }
        if b.r.one_in(3) {
            let t = pick(b.r, TIMES);
            a.set_minor_unit_date_type(t.0);
            b.put(format!("{k}/minor time"), t.1);
        }
    }
    if kind == Ax::Val {
        if b.r.one_in(6) {
            let n = b.r.u16(2, 1000);
            a.set_log_base(n);
            b.put(format!("{k}/log"), format!("{n}"));
        }
        if b.r.one_in(4) {
            let t = pick(b.r, UNITS);
            a.set_display_unit_type(t.0);
            b.put(format!("{k}/units"), t.1);
            let mut shown = true;
            if b.r.bool() {
                shown = b.r.bool();
                a.set_display_units_visible(shown);
            }
            if shown {
                b.put(format!("{k}/units shown"), "1");
            }
        }
    }
    if kind == Ax::Cat {
        if b.r.one_in(6) {
            a.set_text_axis(true);
            b.want.remove(&format!("{k}/auto"));
        }
        if b.r.one_in(4) {
            let t = pick(b.r, ALIGNS);
            a.set_label_alignment(t.0);
            if t.1 != "ctr" {
                b.put(format!("{k}/align"), t.1);
            }
        }
        if b.r.one_in(4) {
            let n = b.r.u16(2, 100);
            a.set_label_interval(n);
            b.put(format!("{k}/label interval"), format!("{n}"));
        }
        if b.r.one_in(4) {
            let n = b.r.u16(2, 100);
            a.set_tick_interval(n);
            b.put(format!("{k}/tick interval"), format!("{n}"));
        }
    }
    // The axis of values says where it crosses the categories.
    if (kind != Ax::Val || g == Group::Scatter) && b.r.one_in(3) {
        let on = b.r.bool();
        a.set_position_between_ticks(on);
        b.put(format!("{other}/between"), if on { "between" } else { "midCat" });
    }
    if crossed && b.r.one_in(3) {
        let n = b.value();
        let i = b.r.u32(1, 30);
        let (c, t) = match (b.r.below(4), kind) {
            (0, _) => (ChartAxisCrossing::Min, "min".to_string()),
            (1, _) => (ChartAxisCrossing::Max, "max".into()),
            (2, _) => (ChartAxisCrossing::Automatic, String::new()),
            (_, Ax::Cat) => (ChartAxisCrossing::CategoryNumber(i), format!("{i}")),
            _ => (ChartAxisCrossing::AxisValue(n), num(n)),
        };
        a.set_crossing(c);
        b.want.remove(&format!("{other}/crosses"));
        if !t.is_empty() {
            b.put(format!("{other}/crosses"), t);
        }
    }
    if b.r.one_in(4) {
        let t = pick(b.r, TICKS);
        a.set_major_tick_type(t.0);
        b.put(format!("{k}/major tick"), t.1);
    }
    if b.r.one_in(4) {
        let t = pick(b.r, TICKS);
        a.set_minor_tick_type(t.0);
        b.put(format!("{k}/minor tick"), t.1);
    }
    if b.r.one_in(4) {
        let t = pick(b.r, LABELS);
        a.set_label_position(t.0);
        b.want.remove(&format!("{k}/labels"));
        if t.1 != "nextTo" {
            b.put(format!("{k}/labels"), t.1);
        }
    }
    for major in [true, false] {
        let n = format!("{k}/{} grid", if major { "major" } else { "minor" });
        match b.r.below(6) {
            0 => {
                let on = b.r.bool();
                b.want.remove(&n);
                if on {
                    b.put(&n, "1");
                }
                if major {
                    a.set_major_gridlines(on);
                } else {
                    a.set_minor_gridlines(on);
                }
            }
            1 => {
                let l = b.line(&n);
                b.put(&n, "1");
                if major {
                    a.set_major_gridlines_line(&l);
                } else {
                    a.set_minor_gridlines_line(&l);
                }
            }
            _ => {}
        }
    }
    if b.r.one_in(6) {
        let on = b.r.bool();
        a.set_hidden(on);
        b.want.remove(&format!("{k}/deleted"));
        if on {
            b.put(format!("{k}/deleted"), "1");
            // Nothing to see.
            b.open(format!("{k}/crosses"));
        }
    }
}

/// The axes of a chart, and what they say by default.
fn axes(b: &mut B, c: &mut Chart, t: ChartType, g: Group, second: bool, date: bool) {
    // The second axis may be of dates when the first is not.
    let date2 = g != Group::Stock && second && (b.r.one_in(6) || date);
    let kinds = |two: bool| match g {
        Group::Scatter => (Ax::Val, Ax::Val),
        Group::Bar if if two { date2 } else { date } => (Ax::Val, Ax::Date),
        Group::Bar => (Ax::Val, Ax::Cat),
        _ if date || (two && date2) => (Ax::Date, Ax::Val),
        _ => (Ax::Cat, Ax::Val),
    };
    let _ = t;
    for two in [false, true] {
        if two && !second {
            continue;
        }
        let s = if two { "2" } else { "" };
        let (x, y) = (format!("x{s}"), format!("y{s}"));
        let (kx, ky) = kinds(two);
        for (k, kind) in [(&x, kx), (&y, ky)] {
            b.put(
                k,
                match kind {
                    Ax::Cat => "c:catAx",
                    Ax::Date => "c:dateAx",
                    Ax::Val => "c:valAx",
                },
            );
            if kind == Ax::Cat {
                b.put(format!("{k}/auto"), "1");
            }
            // Both kinds of a date axis are fine.
            if kind == Ax::Date {
                b.open(format!("{k}/auto"));
            }
        }
        let (cat, val) = if g == Group::Bar { (&y, &x) } else { (&x, &y) };
        if !two {
            b.put(format!("{val}/major grid"), "1");
        }
        let between = if matches!(g, Group::Area | Group::Scatter) {
            "midCat"
        } else {
            "between"
        };
        b.put(format!("{val}/between"), between);
        if g == Group::Scatter {
            b.put(format!("{cat}/between"), between);
        }
        if g == Group::Radar {
            b.put(format!("{cat}/major grid"), "1");
            b.put(format!("{val}/major tick"), "cross");
        }
        if two {
            // The second axis of categories is hidden, and the values are at
            // the far end of it.
            b.put(format!("{cat}/deleted"), "1");
            b.put(format!("{cat}/labels"), "none");
            b.put(format!("{val}/crosses"), "max");
            b.open(format!("{cat}/crosses"));
        }
        if g != Group::Stock && g != Group::Scatter {
            let on = if two { date2 } else { date };
            if on {
                let a = match (g == Group::Bar, two) {
                    (false, false) => c.x_axis(),
                    (false, true) => c.x2_axis(),
                    (true, false) => c.y_axis(),
                    (true, true) => c.y2_axis(),
                };
                a.set_date_axis(true);
            }
        }
        if b.r.one_in(5) {
            continue;
        }
        let a = if two { c.x2_axis() } else { c.x_axis() };
        axis(b, a, &x, &y, kx, g, true);
        let a = if two { c.y2_axis() } else { c.y_axis() };
        axis(b, a, &y, &x, ky, g, true);
        // It may be left out where a hidden axis crosses.
        for k in [&x, &y] {
            if b.want.contains_key(&format!("{k}/deleted")) {
                b.want.remove(&format!("{k}/crosses"));
                b.open(format!("{k}/crosses"));
            }
        }
    }
}

struct Made {
    chart: Chart,
    want: Facts,
    open: BTreeSet<String>,
    flip: bool,
    desc: String,
}

fn chart(r: &mut Rng) -> Made {
    let (t, g) = *r.pick(TYPES);
    let mut b = B {
        r,
        want: Facts::new(),
        open: BTreeSet::new(),
    };
    let b = &mut b;
    let mut c = match b.r.below(2) {
        0 => Chart::new(t),
        _ => match t {
            ChartType::Area => Chart::new_area(),
            ChartType::Bar => Chart::new_bar(),
            ChartType::Column => Chart::new_column(),
            ChartType::Line => Chart::new_line(),
            ChartType::Scatter => Chart::new_scatter(),
            ChartType::Stock => Chart::new_stock(),
            t => Chart::new(t),
        },
    };
    // A second chart on top, for the types whose axes agree.
    let top = match g {
        Group::Column | Group::Area | Group::Line if b.r.one_in(5) => {
            Some(*b.r.pick(&[(ChartType::Line, Group::Line), (ChartType::Column, Group::Column)]))
        }
        _ => None,
    };
    let two = g.has_axes() && g != Group::Radar && g != Group::Stock;
    let n = 1 + b.r.usize(3);
    let mut second: Vec<bool> = (0..n)
        .map(|i| i > 0 && two && top.is_none() && b.r.one_in(4))
        .collect();
    let top_second = top.is_some() && b.r.bool();
    let top_n = if top.is_some() { 1 + b.r.usize(2) } else { 0 };
    second.extend((0..top_n).map(|_| top_second));
    // The numbers of the series: those on the first axes come first.
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| second[*i]);
    order.extend(n..n + top_n);
    let number = |i: usize| order.iter().position(|x| *x == i).unwrap_or(0);
    let date = g == Group::Stock || (matches!(g, Group::Bar | Group::Column | Group::Line) && b.r.one_in(5));
    axes_or_none(b, &mut c, t, g, second.contains(&true), date);

    let mut over = top.map(|(t, _)| Chart::new(t));
    let mut gone = vec![];
    let mut trends = vec![];
    let mut gaps: BTreeMap<String, (Option<u16>, Option<i8>)> = BTreeMap::new();
    for i in 0..n + top_n {
        let (t, g) = if i < n { (t, g) } else { top.unwrap_or((t, g)) };
        let k = format!("series{}", number(i));
        let group = usize::from(second[i]) + usize::from(i >= n && !second[i]);
        let values = ("Data", 0u32, 1 + i as u16, POINTS as u32 - 1, 1 + i as u16);
        let mut s = ChartSeries::new();
        let target = match over.as_mut() {
            Some(o) if i >= n => o,
            _ => &mut c,
        };
        let pushed = b.r.one_in(3);
        let s: &mut ChartSeries = if pushed { &mut s } else { target.add_series() };
        s.set_values(values).set_categories(("Data", 0, 0, POINTS as u32 - 1, 0));
        let letter = char::from(b'B' + i as u8);
        b.put(format!("{k}/values"), format!("Data!${letter}$1:${letter}${POINTS}"));
        b.put(format!("{k}/group"), format!("{group}"));
        if second[i] {
            s.set_secondary_axis(true);
        }
        let (out, trend) = series(b, s, &k, t, g);
        if out {
            gone.push(number(i));
        }
        if let Some(out) = trend {
            trends.push((number(i), out));
        }
        if g.bars() {
            let e = gaps.entry(format!("group{group}")).or_default();
            if b.r.one_in(4) {
                let n = b.r.u16(0, 500);
                s.set_gap(n);
                if n != 150 {
                    e.0 = Some(n);
                }
            }
            if b.r.one_in(4) {
                let n = b.r.range(-100, 100) as i8;
                s.set_overlap(n);
                e.1 = Some(n);
            }
        }
        if pushed {
            let s = s.clone();
            match over.as_mut() {
                Some(o) if i >= n => o.push_series(&s),
                _ => c.push_series(&s),
            };
        }
    }
    // The groups of series.
    let mut groups: BTreeMap<usize, (ChartType, Group, bool)> = BTreeMap::new();
    for i in 0..n {
        groups.insert(usize::from(second[i]), (t, g, true));
    }
    if let Some((t, g)) = top {
        groups.insert(1, (t, g, false));
    }
    let whole = |f: &mut dyn FnMut(String, Group)| {
        for (n, (_, g, own)) in &groups {
            if *own {
                f(format!("group{n}"), *g);
            }
        }
    };
    for (n, (t, g, _)) in &groups {
        let k = format!("group{n}");
        b.put(&k, g.element());
        if g.bars() {
            let (gap, overlap) = gaps.get(&k).copied().unwrap_or_default();
            let stacked = matches!(
                t,
                ChartType::BarStacked
                    | ChartType::BarPercentStacked
                    | ChartType::ColumnStacked
                    | ChartType::ColumnPercentStacked
            );
            if let Some(n) = gap {
                b.put(format!("{k}/gap"), format!("{n}"));
            }
            let n = overlap.unwrap_or(if stacked { 100 } else { 0 });
            if n != 0 {
                b.put(format!("{k}/overlap"), format!("{n}"));
            }
        }
    }
    if !g.has_axes() && b.r.bool() {
        let n = b.r.u16(0, 360);
        c.set_rotation(n);
        if n != 0 {
            b.put("group0/angle", format!("{n}"));
        }
    }
    if g == Group::Doughnut && b.r.bool() {
        let n = b.r.u8(10, 90);
        c.set_hole_size(n);
        if n != 50 {
            b.put("group0/hole", format!("{n}"));
        }
    }
    if matches!(g, Group::Area | Group::Line | Group::Stock) && b.r.one_in(4) {
        let mut f = Facts::new();
        if b.r.bool() {
            c.set_drop_lines(true);
        } else {
            let mut l = b.line("*");
            f.extend(b.want.remove("*/line").map(|v| ("line".to_string(), v)));
            c.set_drop_lines_format(&mut l);
        }
        whole(&mut |k, _| {
            b.put(format!("{k}/drop"), "1");
            for (n, v) in &f {
                b.put(format!("{k}/drop/{n}"), v);
            }
        });
    }
    if matches!(g, Group::Line | Group::Stock) && b.r.one_in(4) {
        let mut f = Facts::new();
        if b.r.bool() {
            c.set_high_low_lines(true);
        } else {
            let mut l = b.line("*");
            f.extend(b.want.remove("*/line").map(|v| ("line".to_string(), v)));
            c.set_high_low_lines_format(&mut l);
        }
        whole(&mut |k, _| {
            b.put(format!("{k}/high low"), "1");
            for (n, v) in &f {
                b.put(format!("{k}/high low/{n}"), v);
            }
        });
    }
    if matches!(g, Group::Line | Group::Stock) && b.r.one_in(4) {
        let mut f = Facts::new();
        c.set_up_down_bars(true);
        for up in [true, false] {
            if b.r.bool() {
                let at = if up { "up" } else { "down" };
                let mut x = b.format("*");
                for n in ["fill", "line"] {
                    if let Some(v) = b.want.remove(&format!("*/{n}")) {
                        f.insert(format!("{at}/{n}"), v);
                    }
                }
                if up {
                    c.set_up_bar_format(&mut x);
                } else {
                    c.set_down_bar_format(&mut x);
                }
            }
        }
        whole(&mut |k, _| {
            b.put(format!("{k}/up down"), "1");
            for (n, v) in &f {
                b.put(format!("{k}/{n}"), v);
            }
        });
    }
    if g.has_axes() && !matches!(g, Group::Scatter | Group::Radar) && b.r.one_in(5) {
        let mut d = ChartDataTable::new();
        b.put("table", "1");
        let mut on = [true, true, true, false];
        for x in &mut on {
            if b.r.one_in(3) {
                *x = !*x;
            }
        }
        d = d
            .show_horizontal_borders(on[0])
            .show_vertical_borders(on[1])
            .show_outline_borders(on[2])
            .show_legend_keys(on[3]);
        for (n, x) in ["showHorzBorder", "showVertBorder", "showOutline", "showKeys"]
            .iter()
            .zip(on)
        {
            if x {
                b.put(format!("table/{n}"), "1");
            }
        }
        if b.r.bool() {
            let mut f = b.format("table");
            d = d.set_format(&mut f);
        }
        if b.r.bool() {
            let f = b.font("table");
            d = d.set_font(&f);
        }
        c.set_data_table(&d);
    }
    if b.r.one_in(4) {
        let n = b.r.u8(1, 48);
        c.set_style(n);
        if n != 2 {
            b.put("style", format!("{n}"));
        }
    }
    if b.r.one_in(3) {
        let mut f = b.format("area");
        c.chart_area().set_format(&mut f);
    }
    if b.r.one_in(3) {
        let mut f = b.format("plot");
        c.plot_area().set_format(&mut f);
    }
    if b.r.one_in(4) {
        let l = b.layout("plot", true);
        c.plot_area().set_layout(&l);
    }
    b.open("title/font/b");
    b.open("title/font/rot");
    b.open("title/font/rtl");
    match b.r.below(5) {
        0 => {
            c.title().set_hidden();
            b.put("title/deleted", "1");
        }
        1 | 2 => {
            title(b, "title", |t| {
                c.title().set_name(t);
            });
            if b.r.bool() {
                let f = b.font("title");
                c.title().set_font(&f);
            }
            if b.r.one_in(3) {
                let mut f = b.format("title");
                c.title().set_format(&mut f);
            }
            if b.r.one_in(3) {
                let l = b.layout("title", false);
                c.title().set_layout(&l);
            }
            if b.r.one_in(3) {
                c.title().set_overlay(true);
                b.put("title/overlay", "1");
            }
        }
        _ => {}
    }
    let mut deleted: Vec<usize> = gone;
    deleted.sort_unstable();
    trends.sort_unstable();
    for (i, (_, out)) in trends.iter().enumerate() {
        if *out {
            deleted.push(n + top_n + i);
        }
    }
    if b.r.one_in(6) {
        c.legend().set_hidden();
        b.put("legend/hidden", "1");
    } else {
        if b.r.one_in(4) {
            let t = pick(b.r, LEGENDS);
            c.legend().set_position(t.0);
            if t.1 != "r" {
                b.put("legend/pos", t.1);
            }
        }
        if b.r.one_in(4) {
            c.legend().set_overlay(true);
            b.put("legend/overlay", "1");
        }
        if b.r.one_in(4) {
            let l = b.layout("legend", true);
            c.legend().set_layout(&l);
        }
        if b.r.one_in(4) {
            let mut f = b.format("legend");
            c.legend().set_format(&mut f);
        }
        b.open("legend/font/rtl");
        if b.r.one_in(4) {
            let f = b.font("legend");
            c.legend().set_font(&f);
        }
        if b.r.one_in(8) {
            deleted = vec![b.r.usize(n)];
            c.legend().delete_entries(&deleted);
        }
        if !deleted.is_empty() {
            let t: Vec<String> = deleted.iter().map(|n| n.to_string()).collect();
            b.put("legend/deleted", t.join(" "));
        }
    }
    if b.r.one_in(4) {
        let t = pick(b.r, EMPTY);
        c.show_empty_cells_as(t.0);
        if t.1 != "gap" {
            b.put("blanks", t.1);
        }
    }
    if b.r.one_in(6) {
        c.show_hidden_data();
        b.put("show hidden", "1");
    }
    if b.r.one_in(6) {
        c.show_na_as_empty_cell();
        b.put("na as blank", "1");
    }
    if let Some(o) = &over {
        c.combine(o);
    }
    let desc = format!("type {} second {:?} top {:?} date {date} {order:?}", t as u8, second, top.is_some());
    Made {
        chart: c,
        want: std::mem::take(&mut b.want),
        open: std::mem::take(&mut b.open),
        flip: g == Group::Bar,
        desc,
    }
}

fn axes_or_none(b: &mut B, c: &mut Chart, t: ChartType, g: Group, second: bool, date: bool) {
    if g.has_axes() {
        axes(b, c, t, g, second, date);
    }
}

// ---------------------------------------------------------------- text boxes

fn text_box(r: &mut Rng) -> (Shape, Facts) {
    let mut w = Facts::new();
    let mut put = |k: &str, v: String| {
        w.insert(k.to_string(), v);
    };
    let mut s = Shape::textbox();
    let n = r.usize(4);
    let lines: Vec<String> = (0..n)
        .map(|_| gen::text(r, 20, gen::PLAIN))
        .filter(|t| !t.contains(['\n', '\r']))
        .collect();
    let text = lines.join("\n");
    let shown = if r.pct(80) {
        s = s.set_text(text.as_str());
        text
    } else {
        String::new()
    };
    let linked = r.one_in(4);
    let mut shown: Vec<&str> = if shown.is_empty() { vec![""] } else { shown.lines().collect() };
    if linked {
        let row = r.u32(1, 9);
        s = s.set_text_link(format!("=Data!$A${row}").as_str());
        put("text link", format!("Data!$A${row}"));
        for t in &mut shown {
            if t.is_empty() {
                *t = " ";
            }
        }
    }
    put("text", shown.join("\n"));
    // The format.
    put("fill", "solid lt1".into());
    put("line", "9525 lt1 -".into());
    if r.pct(70) {
        let mut f = ShapeFormat::new();
        match r.below(6) {
            0 | 1 | 2 => {
                let mut l = ShapeLine::new();
                let (mut lw, mut lc, mut ld) = ("9525".to_string(), "lt1".to_string(), "-");
                if r.bool() {
                    let n = f64::from(r.u8(1, 60)) / 4.0;
                    l = l.set_width(n);
                    lw = num(n * 12700.0);
                }
                if r.bool() {
                    let (x, t) = color(r);
                    l = l.set_color(x);
                    lc = t;
                    if r.one_in(3) {
                        let t = r.u8(0, 100);
                        l = l.set_transparency(t);
                        lc += &clear(t);
                    }
                }
                if r.one_in(3) {
                    let t = pick(r, SHAPE_DASHES);
                    l = l.set_dash_type(t.0);
                    ld = t.1;
                }
                let hidden = r.one_in(8);
                if hidden {
                    l = l.set_hidden(true);
                }
                f = f.set_line(&l);
                put("line", if hidden { "none".into() } else { format!("{lw} {lc} {ld}") });
            }
            3 => {
                f = f.set_no_line();
                put("line", "none".into());
            }
            _ => {}
        }
        match r.below(6) {
            0 => {
                f = f.set_no_fill();
                put("fill", "none".into());
            }
            1 | 2 => {
                let (c, mut t) = color(r);
                let mut x = ShapeSolidFill::new().set_color(c);
                if r.bool() {
                    let n = r.u8(0, 100);
                    x = x.set_transparency(n);
                    t += &clear(n);
                }
                f = f.set_solid_fill(&x);
                put("fill", format!("solid {t}"));
            }
            3 => {
                let p = pick(r, SHAPE_PATTERNS);
                let mut x = ShapePatternFill::new().set_pattern(p.0);
                let (mut fg, mut bg) = ("-".to_string(), "-".to_string());
                if r.bool() {
                    let (c, t) = color(r);
                    x = x.set_foreground_color(c);
                    fg = t;
                    bg = "FFFFFF".into();
                }
                if r.bool() {
                    let (c, t) = color(r);
                    x = x.set_background_color(c);
                    bg = t;
                }
                f = f.set_pattern_fill(&x);
                put("fill", format!("pattern {} {fg} {bg}", p.1));
            }
            4 => {
                let mut g = ShapeGradientFill::new();
                let n = 2 + r.usize(4);
                let (mut stops, mut t) = (vec![], String::new());
                for i in 0..n {
                    let (c, d) = color(r);
                    let p = (i * 100 / (n - 1)) as u8;
                    stops.push(ShapeGradientStop::new(c, p));
                    t += &format!(" {}:{d}", u32::from(p) * 1000);
                }
                g = g.set_gradient_stops(&stops);
                let k = match r.below(5) {
                    0 => {
                        g = g.set_type(ShapeGradientFillType::Radial);
                        "circle".into()
                    }
                    1 => {
                        g = g.set_type(ShapeGradientFillType::Rectangular);
                        "rect".into()
                    }
                    2 => {
                        g = g.set_type(ShapeGradientFillType::Path);
                        "shape".into()
                    }
                    3 => "5400000".to_string(),
                    _ => {
                        let a = r.u16(0, 359);
                        g = g.set_angle(a);
                        num(f64::from(a) * 60000.0)
                    }
                };
                f = f.set_gradient_fill(&g);
                put("fill", format!("gradient {k}{t}"));
            }
            _ => {}
        }
        s = s.set_format(&f);
    }
    put("font/sz", "1100".into());
    if r.pct(70) {
        let mut f = ShapeFont::new();
        if r.one_in(3) {
            f = f.set_bold();
            if r.one_in(4) {
                f = f.unset_bold();
            } else {
                put("font/b", "1".into());
            }
        }
        if r.one_in(3) {
            f = f.set_italic();
            put("font/i", "1".into());
        }
        if r.one_in(3) {
            f = f.set_underline();
            put("font/u", "sng".into());
        }
        if r.one_in(4) {
            f = f.set_strikethrough();
            put("font/strike", "sngStrike".into());
        }
        if r.bool() {
            let (c, t) = color(r);
            f = f.set_color(c);
            put("font/color", format!("solid {t}"));
        }
        if r.bool() {
            let n = f64::from(r.u8(2, 80)) / 2.0;
            f = f.set_size(n);
            put("font/sz", num(n * 100.0));
        }
        if r.one_in(3) {
            f = f.set_name("A&B \"Font\"");
            put("font/name", "A&B \"Font\"".into());
        }
        if r.one_in(6) {
            let n = r.u8(1, 50);
            f = f.set_pitch_family(n);
            put("font/pitch", format!("{n}"));
        }
        if r.one_in(6) {
            let n = r.u8(1, 250);
            f = f.set_character_set(n);
            put("font/charset", format!("{n}"));
        }
        if r.one_in(6) {
            let t = r.bool();
            f = f.set_right_to_left(t);
            if t {
                put("font/rtl", "1".into());
            }
        }
        s = s.set_font(&f);
    }
    put("anchor", "t 0".into());
    if r.bool() {
        let mut o = ShapeText::new();
        let (d, a, h) = (r.pick(DIRECTIONS), r.pick(ANCHORS), r.pick(SIDES));
        if r.bool() {
            o = o.set_direction(d.0.clone());
            if d.1 != "horz" {
                put("direction", d.1.into());
            }
        }
        if r.bool() {
            o = o.set_vertical_alignment(a.0.clone());
            put("anchor", a.1.into());
        }
        if r.bool() {
            o = o.set_horizontal_alignment(h.0.clone());
            if !h.1.is_empty() {
                put("align", h.1.into());
            }
        }
        s = s.set_text_options(&o);
    }
    if r.one_in(3) {
        let t = gen::text(r, 20, gen::PLAIN);
        if !t.is_empty() {
            s = s.set_alt_text(t.as_str());
            put("alt text", t);
        }
    }
    if r.one_in(4) {
        let u = format!("https://example.com/{}?a&b", r.u16(0, 4));
        if let Ok(x) = s.clone().set_url(u.as_str()) {
            s = x;
            put("url", u);
        }
    }
    (s, w)
}

fn d_text_box(e: &Elem, rels: &[crate::pkg::Rel]) -> Facts {
    let mut f = Facts::new();
    if let Some(p) = e.child("xdr:spPr") {
        if let Some(t) = d_fill(p) {
            f.insert("fill".into(), t);
        }
        if let Some(l) = p.child("a:ln") {
            f.insert("line".into(), d_line(l));
        }
    }
    let mut put = |k: &str, v: Option<String>| {
        if let Some(v) = v.filter(|v| !v.is_empty()) {
            if let Some(old) = f.insert(k.to_string(), v.clone()) {
                if old != v {
                    f.insert(k.to_string(), format!("{old} and {v}"));
                }
            }
        }
    };
    put("text link", Some(e.a("textlink").to_string()));
    if let Some(n) = e.path("xdr:nvSpPr/xdr:cNvPr") {
        put("alt text", Some(n.a("descr").to_string()));
        if let Some(h) = n.child("a:hlinkClick") {
            let id = h.a("r:id");
            put(
                "url",
                Some(
                    rels.iter()
                        .find(|r| r.id == id)
                        .map_or("no relationship".into(), |r| r.target.clone()),
                ),
            );
        }
    }
    let Some(t) = e.child("xdr:txBody") else {
        return f;
    };
    if let Some(b) = t.child("a:bodyPr") {
        put("direction", b.attr("vert").filter(|v| *v != "horz").map(str::to_string));
        put(
            "anchor",
            Some(format!("{} {}", b.a("anchor"), b.attr("anchorCtr").unwrap_or("0"))),
        );
    }
    let mut text = vec![];
    for p in t.children("a:p") {
        let mut line = String::new();
        for x in p.find_all("a:t") {
            line += &x.text();
        }
        text.push(line);
        let ppr = p.child("a:pPr");
        put("align", Some(ppr.map_or("", |x| x.a("algn")).to_string()));
        put("font/rtl", ppr.and_then(|x| x.attr("rtl")).filter(|v| *v == "1").map(str::to_string));
        let mut fonts = vec![];
        p.desc("a:rPr", &mut fonts);
        p.desc("a:endParaRPr", &mut fonts);
        for x in fonts {
            for k in ["b", "i", "u", "strike", "sz"] {
                put(&format!("font/{k}"), x.attr(k).map(str::to_string));
            }
            put("font/color", d_fill(x));
            if let Some(l) = x.child("a:latin") {
                put("font/name", l.attr("typeface").map(str::to_string));
                put("font/pitch", l.attr("pitchFamily").map(str::to_string).filter(|v| v != "0"));
                put("font/charset", l.attr("charset").map(str::to_string).filter(|v| v != "0"));
            }
        }
    }
    f.insert("text".into(), text.join("\n"));
    f
}

fn prefixed(f: &Facts) -> Facts {
    f.iter().map(|(k, v)| (format!("box/{k}"), v.clone())).collect()
}

fn compare(ctx: &mut Ctx, at: &str, want: &Facts, got: &Facts, open: &BTreeSet<String>) {
    let keys: BTreeSet<&String> = want.keys().chain(got.keys()).collect();
    for k in keys {
        let (w, g) = (want.get(k), got.get(k));
        if w.is_none() && open.contains(k) {
            continue;
        }
        ctx.observed += 1;
        if w != g {
            let sig: String = k.chars().filter(|c| !c.is_ascii_digit()).collect();
            ctx.fail(
                &sig,
                format!("{at}: {k} is {g:?}, asked for {w:?}"),
            );
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let mut ok = ws.set_name("Data").is_ok();
    for i in 0..POINTS as u32 {
        for c in 0..8u16 {
            ok &= ws.write(i, c, f64::from(i) + f64::from(c) / 4.0).is_ok();
        }
    }
    let mut made = vec![];
    let n = 1 + r.usize(3);
    for i in 0..n {
        let m = chart(&mut r);
        ctx.log(format!("chart {} {}", i + 1, m.desc));
        for (k, v) in &m.want {
            ctx.log(format!("  {k} = {v}"));
        }
        made.push(m);
    }
    for (i, m) in made.iter().enumerate() {
        let done = if r.one_in(5) {
            // The charts of chartsheets are numbered like the others.
            let s = wb.add_chartsheet();
            s.insert_chart(0, 0, &m.chart).is_ok()
        } else {
            let ws = wb.add_worksheet();
            ws.insert_chart(i as u32, 2, &m.chart).is_ok()
        };
        ok &= done;
    }
    // Text boxes have a sheet of their own.
    let mut boxes = vec![];
    if r.bool() {
        let ws = wb.add_worksheet();
        ok &= ws.set_name("Boxes").is_ok();
        for i in 0..1 + r.u32(0, 4) {
            let (s, w) = text_box(&mut r);
            ctx.log(format!("text box {i}"));
            for (k, v) in &w {
                ctx.log(format!("  {k} = {v}"));
            }
            ok &= ws.insert_shape(i * 8, 1, &s).is_ok();
            boxes.push(w);
        }
    }
    ctx.check(ok, "refused", || "a call was refused".into());
    let Some(b) = open_wb(ctx, &mut wb) else {
        return;
    };
    for (i, m) in made.iter().enumerate() {
        let part = format!("xl/charts/chart{}.xml", i + 1);
        match b.pkg.xml(&part) {
            Err(e) => ctx.fail("part", format!("{part}: {e}")),
            Ok(x) => {
                let got = d_chart(&x, m.flip);
                compare(ctx, &part, &m.want, &got, &m.open);
                ctx.add("facts", m.want.len() as u64);
                ctx.count(&format!("type {}", m.desc.split(' ').next().unwrap_or("")));
            }
        }
    }
    if !boxes.is_empty() {
        let d = b.sheet("Boxes").and_then(|s| b.drawing(s));
        let none = BTreeSet::new();
        let found: Vec<Facts> = d.map_or(vec![], |d| {
            let mut all = vec![];
            d.xml.desc("xdr:sp", &mut all);
            all.iter().map(|e| d_text_box(e, &d.rels)).collect()
        });
        ctx.eq(&found.len(), &boxes.len(), "boxes", "number of text boxes");
        for (i, (w, g)) in boxes.iter().zip(&found).enumerate() {
            compare(ctx, &format!("text box {i}"), &prefixed(w), &prefixed(g), &none);
            ctx.add("box facts", w.len() as u64);
        }
    }
    let total: usize = made.iter().map(|m| m.want.len()).sum();
    ctx.nontrivial = total > 30;
}
