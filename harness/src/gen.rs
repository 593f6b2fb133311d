//! Shared generators: hostile text, numbers, formats.

use crate::book::Facts;
use crate::rng::Rng;
use rust_xlsxwriter::{
    Color, Format, FormatAlign, FormatBorder, FormatDiagonalBorder, FormatPattern, FormatScript,
    FormatUnderline,
};

const WORDS: &[&str] = &[
    "alpha",
    "Beta",
    "gamma",
    "total",
    "Qty",
    "été",
    "naïve",
    "日本語",
    "Ωmega",
    "x",
    "Région",
    "data",
];
const MARK: &[&str] = &[
    "<", ">", "&", "\"", "'", "&amp;", "&lt;", "<b>", "</t>", "]]>", "<!--", "-->", "<?xml?>",
    "&#10;", "%", "#", "{", "}", "\\", "/", "$", "`", "=", "+", "@",
];
const ESC: &[&str] = &[
    "_x0041_",
    "_x000D_",
    "_x005F_",
    "_xABCD_",
    "_x00_",
    "_x0001_x0002_",
    "__x0041__",
    "_X0041_",
    "_xFFFE_",
];
const WS: &[&str] = &[
    " ", "  ", "\n", "\t", "\u{a0}", "\u{2028}", "\r", "\r\n", "\u{3000}",
];

#[derive(Clone, Copy)]
pub struct TextOpt {
    /// Control characters other than tab, newline and carriage return.
    pub ctrl: bool,
    /// Tabs, newlines, carriage returns.
    pub breaks: bool,
    /// U+FFFE and U+FFFF.
    pub nonchar: bool,
    /// Literal `_xHHHH_` sequences.
    pub esc: bool,
}
pub const ALL: TextOpt = TextOpt {
    ctrl: true,
    breaks: true,
    nonchar: true,
    esc: true,
};
pub const PLAIN: TextOpt = TextOpt {
    ctrl: false,
    breaks: false,
    nonchar: false,
    esc: false,
};

/// Hostile text of up to about `max` characters (never empty).
pub fn text(r: &mut Rng, max: usize, o: TextOpt) -> String {
    let mut s = String::new();
    let pieces = 1 + r.usize(6);
    for _ in 0..pieces {
        match r.below(14) {
            0..=2 => s.push_str(r.pick(WORDS)),
            3..=5 => s.push_str(r.pick(MARK)),
            6 => s.push(*r.pick(&[
                '😀',
                '𝒳',
                '\u{10FFFF}',
                '\u{FFFD}',
                'é',
                '中',
                '\u{301}',
                '\u{7f}',
                '\u{85}',
                '\u{200b}',
                '\u{feff}',
            ])),
            7 if o.esc => s.push_str(r.pick(ESC)),
            8 if o.breaks => s.push_str(r.pick(WS)),
            8 | 9 => s.push(' '),
            10 if o.ctrl => {
                let c = *r.pick(&[1u8, 2, 7, 8, 0xb, 0xc, 0xe, 0x10, 0x1b, 0x1f]);
                s.push(c as char);
            }
            11 if o.nonchar && r.one_in(2) => s.push(*r.pick(&['\u{FFFE}', '\u{FFFF}'])),
            12 => s.push_str(&r.range(-99, 99999).to_string()),
            _ => {
                for _ in 0..r.usize(6) + 1 {
                    s.push((b'a' + r.u8(0, 25)) as char);
                }
            }
        }
    }
    let t: String = s.chars().take(max).collect();
    if t.is_empty() {
        "z".into()
    } else {
        t
    }
}

pub fn word(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.usize(7) + 2 {
        s.push((b'a' + r.u8(0, 25)) as char);
    }
    s
}

/// A valid sheet name, quite hostile, unique by suffix.
pub fn sheet_name(r: &mut Rng, i: usize) -> String {
    let mut s: String = match r.below(8) {
        0 => word(r),
        1 => format!("My {}", word(r)),
        2 => format!("{}'s", word(r)),
        3 => format!("<{}&\">", word(r)),
        4 => format!("été {}", r.below(10)),
        5 => format!("{}-{}", r.below(10), word(r)),
        6 => format!("{}.{}!", word(r), r.below(9)),
        _ => format!("A{}", r.below(999)),
    };
    s.push_str(&format!("_{i}"));
    s.chars().take(31).collect()
}

/// Finite doubles with emphasis on awkward ones.
pub fn number(r: &mut Rng) -> f64 {
    const SPECIAL: &[f64] = &[
        0.0,
        -0.0,
        1.0,
        -1.0,
        0.1,
        0.2,
        0.3,
        1.0 / 3.0,
        2.0 / 3.0,
        f64::MAX,
        f64::MIN,
        f64::MIN_POSITIVE,
        5e-324,
        -5e-324,
        2.2250738585072011e-308,
        9007199254740991.0,
        9007199254740992.0,
        9007199254740993.0,
        1e15,
        1e16,
        1e17,
        1e21,
        1e22,
        1e23,
        1e-5,
        1e-6,
        1e-7,
        123456789012345680.0,
        4.35,
        0.000001,
        1.7976931348623157e308,
        100.0,
        1e100,
        4294967296.0,
        f64::EPSILON,
        9.999999999999999e22,
    ];
    match r.below(8) {
        0 | 1 => *r.pick(SPECIAL),
        2 => loop {
            let f = f64::from_bits(r.u64());
            if f.is_finite() {
                return f;
            }
        },
        3 => r.range(-1000, 1000) as f64,
        4 => r.range(-1_000_000_000, 1_000_000_000) as f64 / 100.0,
        5 => r.range(i64::MIN / 4, i64::MAX / 4) as f64,
        6 => r.f01(),
        _ => (r.f01() - 0.5) * 10f64.powi(r.range(-30, 30) as i32),
    }
}

pub fn color(r: &mut Rng) -> (Color, String) {
    match r.below(5) {
        0 => {
            let named: &[(Color, &str)] = &[
                (Color::Black, "FF000000"),
                (Color::Blue, "FF0000FF"),
                (Color::Brown, "FF800000"),
                (Color::Cyan, "FF00FFFF"),
                (Color::Gray, "FF808080"),
                (Color::Green, "FF008000"),
                (Color::Lime, "FF00FF00"),
                (Color::Magenta, "FFFF00FF"),
                (Color::Navy, "FF000080"),
                (Color::Orange, "FFFF6600"),
                (Color::Pink, "FFFFC0CB"),
                (Color::Purple, "FF800080"),
                (Color::Red, "FFFF0000"),
                (Color::Silver, "FFC0C0C0"),
                (Color::White, "FFFFFFFF"),
                (Color::Yellow, "FFFFFF00"),
            ];
            let (c, s) = r.pick(named);
            (*c, format!("rgb={s}"))
        }
        1 | 2 => {
            let v = r.u32(0, 0xFF_FFFF);
            (Color::RGB(v), format!("rgb=FF{v:06X}"))
        }
        3 => {
            let v = *r.pick(&[0u32, 1, 0x10, 0xFF_FFFF, 0x00_00FF]);
            (Color::RGB(v), format!("rgb=FF{v:06X}"))
        }
        _ => {
            let t = r.u8(0, 9);
            let sh = r.u8(0, 5);
            // Tints as Excel's palette defines them (see the Color docs).
            let tint = theme_tint(t, sh);
            let f = if tint.is_empty() {
                format!("theme={t}")
            } else {
                format!("theme={t} tint={tint}")
            };
            (Color::Theme(t, sh), f)
        }
    }
}

/// The tint that Excel stores for a palette (column, shade).
pub fn theme_tint(col: u8, shade: u8) -> &'static str {
    let t: [&str; 6] = match col {
        0 => [
            "",
            "-4.9989318521683403E-2",
            "-0.14999847407452621",
            "-0.249977111117893",
            "-0.34998626667073579",
            "-0.499984740745262",
        ],
        1 => [
            "",
            "0.499984740745262",
            "0.34998626667073579",
            "0.249977111117893",
            "0.14999847407452621",
            "4.9989318521683403E-2",
        ],
        2 => [
            "",
            "-9.9978637043366805E-2",
            "-0.249977111117893",
            "-0.499984740745262",
            "-0.749992370372631",
            "-0.89999084444715716",
        ],
        _ => [
            "",
            "0.79998168889431442",
            "0.59999389629810485",
            "0.39997558519241921",
            "-0.249977111117893",
            "-0.499984740745262",
        ],
    };
    t[usize::from(shade)]
}

pub const BORDERS: &[(FormatBorder, &str)] = &[
    (FormatBorder::Thin, "thin"),
    (FormatBorder::Medium, "medium"),
    (FormatBorder::Dashed, "dashed"),
    (FormatBorder::Dotted, "dotted"),
    (FormatBorder::Thick, "thick"),
    (FormatBorder::Double, "double"),
    (FormatBorder::Hair, "hair"),
    (FormatBorder::MediumDashed, "mediumDashed"),
    (FormatBorder::DashDot, "dashDot"),
    (FormatBorder::MediumDashDot, "mediumDashDot"),
    (FormatBorder::DashDotDot, "dashDotDot"),
    (FormatBorder::MediumDashDotDot, "mediumDashDotDot"),
    (FormatBorder::SlantDashDot, "slantDashDot"),
    (FormatBorder::None, ""),
];
pub const PATTERNS: &[(FormatPattern, &str)] = &[
    (FormatPattern::None, "none"),
    (FormatPattern::Solid, "solid"),
    (FormatPattern::MediumGray, "mediumGray"),
    (FormatPattern::DarkGray, "darkGray"),
    (FormatPattern::LightGray, "lightGray"),
    (FormatPattern::DarkHorizontal, "darkHorizontal"),
    (FormatPattern::DarkVertical, "darkVertical"),
    (FormatPattern::DarkDown, "darkDown"),
    (FormatPattern::DarkUp, "darkUp"),
    (FormatPattern::DarkGrid, "darkGrid"),
    (FormatPattern::DarkTrellis, "darkTrellis"),
    (FormatPattern::LightHorizontal, "lightHorizontal"),
    (FormatPattern::LightVertical, "lightVertical"),
    (FormatPattern::LightDown, "lightDown"),
    (FormatPattern::LightUp, "lightUp"),
    (FormatPattern::LightGrid, "lightGrid"),
    (FormatPattern::LightTrellis, "lightTrellis"),
    (FormatPattern::Gray125, "gray125"),
    (FormatPattern::Gray0625, "gray0625"),
];
pub const NUMFMTS: &[&str] = &[
    "0.000",
    "#,##0.00",
    "yyyy-mm-dd",
    "[Red]-0.0;\"<neg>\"",
    "\"é & '\" 0",
    "0.00%",
    "d mmm yyyy hh:mm:ss.000",
    "@",
    "0",
    "$#,##0.00;[Blue]($#,##0.00)",
];

/// A reference model of one format: what its setters should amount to.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct FModel {
    pub numfmt: Option<String>,
    pub numidx: Option<u8>,
    pub bold: bool,
    pub italic: bool,
    pub strike: bool,
    pub underline: String,
    pub size: String,
    pub name: String,
    pub family: u8,
    pub charset: u8,
    pub scheme: String,
    pub color: Option<String>,
    pub color_auto: bool,
    pub script: String,
    pub hyperlink: bool,
    pub halign: String,
    pub valign: String,
    pub valign_bottom: bool,
    pub wrap: bool,
    pub indent: u8,
    pub rotation: i16,
    pub reading: u8,
    pub shrink: bool,
    pub pattern: usize,
    pub fg: Option<String>,
    pub bg: Option<String>,
    /// left, right, top, bottom, diagonal
    pub border: [usize; 5],
    pub bcolor: [Option<String>; 5],
    pub diag: u8,
    pub unlocked: bool,
    pub hidden: bool,
    pub quote: bool,
    pub checkbox: bool,
}

pub const NOBORDER: usize = 13;
pub const SIDES: [&str; 5] = ["left", "right", "top", "bottom", "diagonal"];

impl FModel {
    pub fn new() -> FModel {
        FModel {
            size: "11".into(),
            name: "Calibri".into(),
            family: 2,
            scheme: "minor".into(),
            border: [NOBORDER; 5],
            ..FModel::default()
        }
    }
    pub fn is_default(&self) -> bool {
        *self == FModel::new()
    }

    /// Does the model have properties whose rendering the oracle leaves open?
    pub fn facts(&self) -> Facts {
        let mut m = Facts::new();
        let mut put = |k: &str, v: &str| {
            m.insert(k.to_string(), v.to_string());
        };
        // Number format.
        if let Some(i) = self.numidx {
            if i != 0 {
                match crate::book::builtin_numfmt(usize::from(i)) {
                    Some(c) => put("numfmt", &format!("code={c}")),
                    None => put("numfmt", &format!("id={i}")),
                }
            }
        } else if let Some(c) = &self.numfmt {
            if c != "General" && !c.is_empty() {
                put("numfmt", &format!("code={c}"));
            }
        }
        // Font.
        put("font.sz", &self.size);
        put("font.name", &self.name);
        if self.family > 0 {
            put("font.family", &self.family.to_string());
        }
        if self.charset > 0 {
            put("font.charset", &self.charset.to_string());
        }
        if !self.scheme.is_empty() {
            put("font.scheme", &self.scheme);
        }
        if self.bold {
            put("font.b", "1");
        }
        if self.italic {
            put("font.i", "1");
        }
        if self.strike {
            put("font.strike", "1");
        }
        if !self.underline.is_empty() {
            put("font.u", &self.underline);
        }
        if !self.script.is_empty() {
            put("font.vertAlign", &self.script);
        }
        if !self.color_auto {
            put("font.color", self.color.as_deref().unwrap_or("theme=1"));
        }
        // Fill. A background colour on its own is a solid fill; a foreground
        // colour on its own also implies solid.
        let mut pat = PATTERNS[self.pattern].1;
        let (mut fg, mut bg) = (self.fg.clone(), self.bg.clone());
        if pat == "none" && (fg.is_some() || bg.is_some()) {
            // Both colours and no pattern: nothing says how that is drawn.
            if fg.is_some() && bg.is_some() {
                fg = None;
                bg = None;
            } else {
                pat = "solid";
                if fg.is_none() {
                    fg = bg.take();
                }
            }
        } else if pat == "solid" && bg.is_some() {
            std::mem::swap(&mut fg, &mut bg);
        }
        put("fill.pattern", pat);
        if let Some(c) = &fg {
            put("fill.fg", c);
        }
        if let Some(c) = &bg {
            put("fill.bg", c);
        }
        // Borders.
        for i in 0..5 {
            let st = BORDERS[self.border[i]].1;
            if !st.is_empty() {
                put(&format!("border.{}", SIDES[i]), st);
                put(
                    &format!("border.{}.color", SIDES[i]),
                    self.bcolor[i].as_deref().unwrap_or("auto=1"),
                );
            }
        }
        if self.diag & 1 != 0 {
            put("border.diagonalUp", "1");
        }
        if self.diag & 2 != 0 {
            put("border.diagonalDown", "1");
        }
        // Alignment, following the documented adjustments of Excel.
        let mut h = self.halign.clone();
        if self.indent > 0
            && !matches!(h.as_str(), "left" | "right" | "distributed")
            && self.valign != "top"
            && !self.valign_bottom
        {
            h = "left".into();
        }
        let shrink =
            self.shrink && !self.wrap && !matches!(h.as_str(), "fill" | "justify" | "distributed");
        if !h.is_empty() {
            put("align.horizontal", &h);
        }
        if !self.valign.is_empty() {
            put("align.vertical", &self.valign);
        }
        if self.rotation != 0 {
            put("align.textRotation", &self.rotation.to_string());
        }
        if self.indent > 0 {
            put("align.indent", &self.indent.to_string());
        }
        if self.wrap {
            put("align.wrapText", "1");
        }
        if shrink {
            put("align.shrinkToFit", "1");
        }
        if self.reading > 0 {
            put("align.readingOrder", &self.reading.to_string());
        }
        if self.unlocked {
            put("prot.locked", "0");
        }
        if self.hidden {
            put("prot.hidden", "1");
        }
        if self.quote {
            put("quotePrefix", "1");
        }
        if self.hyperlink {
            put("xfId", "1");
        }
        if self.checkbox {
            put("checkbox", "0");
        }
        m
    }

    /// The differential style (tables, conditional formats) of the format.
    pub fn dxf_facts(&self) -> Facts {
        let mut m = Facts::new();
        for (k, v) in self.facts() {
            if matches!(
                k.as_str(),
                "numfmt" | "font.b" | "font.i" | "font.strike" | "font.u"
            ) || k.starts_with("border.") && !k.contains("diagonal")
            {
                m.insert(k, v);
            }
        }
        if let (Some(c), false) = (&self.color, self.color_auto) {
            m.insert("font.color".into(), c.clone());
        }
        let pat = PATTERNS[self.pattern].1;
        if self.fg.is_some() || self.bg.is_some() || pat != "none" {
            let plain = matches!(pat, "none" | "solid") && (self.fg.is_some() || self.bg.is_some());
            m.insert("fill.pattern".into(), if plain { "-" } else { pat }.into());
            if let Some(c) = &self.fg {
                m.insert("fill.fg".into(), c.clone());
            }
            if let Some(c) = &self.bg {
                m.insert("fill.bg".into(), c.clone());
            }
        }
        m
    }

    /// `self` combined with `other`, `self` winning conflicts.
    pub fn merge(&self, other: &FModel) -> FModel {
        let d = FModel::new();
        let mut m = self.clone();
        m.hidden |= other.hidden;
        m.checkbox |= other.checkbox;
        m.quote |= other.quote;
        m.unlocked |= other.unlocked;
        if m.numfmt.is_none() && m.numidx.is_none() {
            m.numfmt = other.numfmt.clone();
            m.numidx = other.numidx;
        }
        m.bold |= other.bold;
        m.italic |= other.italic;
        m.strike |= other.strike;
        if m.family == d.family {
            m.family = other.family;
        }
        if m.charset == d.charset {
            m.charset = other.charset;
        }
        if m.name == d.name {
            m.name = other.name.clone();
        }
        if m.size == d.size {
            m.size = other.size.clone();
        }
        if m.scheme == d.scheme {
            m.scheme = other.scheme.clone();
        }
        if m.color.is_none() && !m.color_auto {
            m.color = other.color.clone();
            m.color_auto = other.color_auto;
        }
        if m.script.is_empty() {
            m.script = other.script.clone();
        }
        if m.underline.is_empty() {
            m.underline = other.underline.clone();
        }
        if m.fg.is_none() {
            m.fg = other.fg.clone();
        }
        if m.bg.is_none() {
            m.bg = other.bg.clone();
        }
        if m.pattern == 0 {
            m.pattern = other.pattern;
        }
        for i in 0..5 {
            if m.border[i] == NOBORDER {
                m.border[i] = other.border[i];
            }
            if m.bcolor[i].is_none() {
                m.bcolor[i] = other.bcolor[i].clone();
            }
        }
        if m.diag == 0 {
            m.diag = other.diag;
        }
        m.shrink |= other.shrink;
        m.wrap |= other.wrap;
        if m.indent == 0 {
            m.indent = other.indent;
        }
        if m.rotation == 0 {
            m.rotation = other.rotation;
        }
        if m.reading == 0 {
            m.reading = other.reading;
        }
        if m.halign.is_empty() {
            m.halign = other.halign.clone();
        }
        if m.valign.is_empty() && !m.valign_bottom {
            m.valign = other.valign.clone();
            m.valign_bottom = other.valign_bottom;
        }
        m
    }
}

#[derive(Clone, Debug)]
pub struct Fmt {
    pub f: Format,
    pub m: FModel,
    pub desc: String,
}

impl Fmt {
    pub fn new() -> Fmt {
        Fmt {
            f: Format::new(),
            m: FModel::new(),
            desc: String::new(),
        }
    }
    fn d(&mut self, s: &str) {
        if !self.desc.is_empty() {
            self.desc.push('.');
        }
        self.desc.push_str(s);
    }
    /// Apply one random setter.
    pub fn step(&mut self, r: &mut Rng) {
        let f = std::mem::take(&mut self.f);
        let m = &mut self.m;
        let mut d = String::new();
        self.f = match r.below(38) {
            0 | 1 => {
                let c = *r.pick(NUMFMTS);
                m.numfmt = Some(c.into());
                m.numidx = None;
                d.push_str(&format!("num_format({c:?})"));
                f.set_num_format(c)
            }
            2 => {
                let i = if r.one_in(2) {
                    *r.pick(&[1u8, 2, 9, 10, 14, 22, 37, 49, 41, 44])
                } else {
                    // The ones between are reserved.
                    let i = r.u16(1, 35) as u8;
                    if i > 22 {
                        i + 14
                    } else {
                        i
                    }
                };
                m.numidx = Some(i);
                m.numfmt = None;
                d.push_str(&format!("num_format_index({i})"));
                f.set_num_format_index(i)
            }
            3 => {
                m.bold = true;
                d.push_str("bold");
                f.set_bold()
            }
            4 => {
                m.italic = true;
                d.push_str("italic");
                f.set_italic()
            }
            5 | 6 => {
                let (c, s) = color(r);
                d.push_str(&format!("font_color({s})"));
                m.color = Some(s);
                m.color_auto = false;
                f.set_font_color(c)
            }
            7 => {
                let n = *r.pick(&["Arial", "Times New Roman", "A&B <c>", "Calibri", "ＭＳ"]);
                m.name = n.into();
                if n != "Calibri" {
                    m.scheme = String::new();
                }
                d.push_str(&format!("font_name({n:?})"));
                f.set_font_name(n)
            }
            8 => {
                let s = *r.pick(&[8.0, 10.5, 11.0, 12.0, 72.0, 9.25]);
                m.size = format!("{s}");
                d.push_str(&format!("font_size({s})"));
                f.set_font_size(s)
            }
            9 => {
                let s = *r.pick(&["minor", "major"]);
                m.scheme = s.into();
                d.push_str(&format!("font_scheme({s})"));
                f.set_font_scheme(s)
            }
            10 => {
                let s = r.u8(0, 5);
                m.family = s;
                d.push_str(&format!("font_family({s})"));
                f.set_font_family(s)
            }
            11 => {
                let s = r.u8(0, 255);
                m.charset = s;
                d.push_str(&format!("font_charset({s})"));
                f.set_font_charset(s)
            }
            12 => {
                let (u, s) = *r.pick(&[
                    (FormatUnderline::None, ""),
                    (FormatUnderline::Single, "single"),
                    (FormatUnderline::Double, "double"),
                    (FormatUnderline::SingleAccounting, "singleAccounting"),
                    (FormatUnderline::DoubleAccounting, "doubleAccounting"),
                ]);
                m.underline = s.into();
                d.push_str(&format!("underline({s})"));
                f.set_underline(u)
            }
            13 => {
                m.strike = true;
                d.push_str("strike");
                f.set_font_strikethrough()
            }
            14 => {
                let (u, s) = *r.pick(&[
                    (FormatScript::None, ""),
                    (FormatScript::Superscript, "superscript"),
                    (FormatScript::Subscript, "subscript"),
                ]);
                m.script = s.into();
                d.push_str(&format!("script({s})"));
                f.set_font_script(u)
            }
            15 | 16 => {
                let (a, h, s) = *r.pick(&[
                    (FormatAlign::General, 2, ""),
                    (FormatAlign::Left, 0, "left"),
                    (FormatAlign::Center, 0, "center"),
                    (FormatAlign::Right, 0, "right"),
                    (FormatAlign::Fill, 0, "fill"),
                    (FormatAlign::Justify, 0, "justify"),
                    (FormatAlign::CenterAcross, 0, "centerContinuous"),
                    (FormatAlign::Distributed, 0, "distributed"),
                    (FormatAlign::Top, 1, "top"),
                    (FormatAlign::Bottom, 1, ""),
                    (FormatAlign::VerticalCenter, 1, "center"),
                    (FormatAlign::VerticalJustify, 1, "justify"),
                    (FormatAlign::VerticalDistributed, 1, "distributed"),
                ]);
                if h == 2 {
                    m.halign.clear();
                    m.valign.clear();
                    m.valign_bottom = false;
                } else if h == 0 {
                    m.halign = s.into();
                } else {
                    m.valign = s.into();
                    m.valign_bottom = s.is_empty();
                }
                d.push_str(&format!("align({a:?})"));
                f.set_align(a)
            }
            17 => {
                m.wrap = true;
                d.push_str("wrap");
                f.set_text_wrap()
            }
            18 => {
                let i = r.u8(0, 15);
                m.indent = i;
                d.push_str(&format!("indent({i})"));
                f.set_indent(i)
            }
            19 => {
                let a = *r.pick(&[-90i16, -45, -1, 0, 1, 30, 90, 270, 91, -91]);
                match a {
                    270 => m.rotation = 255,
                    -90..=-1 => m.rotation = 90 - a,
                    0..=90 => m.rotation = a,
                    _ => {}
                }
                d.push_str(&format!("rotation({a})"));
                f.set_rotation(a)
            }
            20 => {
                let a = r.u8(0, 3);
                if a <= 2 {
                    m.reading = a;
                }
                d.push_str(&format!("reading({a})"));
                f.set_reading_direction(a)
            }
            21 => {
                m.shrink = true;
                d.push_str("shrink");
                f.set_shrink()
            }
            22 => {
                let i = r.usize(PATTERNS.len());
                m.pattern = i;
                d.push_str(&format!("pattern({})", PATTERNS[i].1));
                f.set_pattern(PATTERNS[i].0)
            }
            23 | 24 => {
                let (c, s) = color(r);
                d.push_str(&format!("bg({s})"));
                m.bg = Some(s);
                f.set_background_color(c)
            }
            25 => {
                let (c, s) = color(r);
                d.push_str(&format!("fg({s})"));
                m.fg = Some(s);
                f.set_foreground_color(c)
            }
            26 => {
                let i = r.usize(BORDERS.len());
                for k in 0..4 {
                    m.border[k] = i;
                }
                d.push_str(&format!("border({})", BORDERS[i].1));
                f.set_border(BORDERS[i].0)
            }
            27 => {
                let (c, s) = color(r);
                for k in 0..4 {
                    m.bcolor[k] = Some(s.clone());
                }
                d.push_str(&format!("border_color({s})"));
                f.set_border_color(c)
            }
            28 | 29 => {
                let k = r.usize(5);
                let i = r.usize(BORDERS.len());
                m.border[k] = i;
                d.push_str(&format!("border_{}({})", SIDES[k], BORDERS[i].1));
                let b = BORDERS[i].0;
                match k {
                    0 => f.set_border_left(b),
                    1 => f.set_border_right(b),
                    2 => f.set_border_top(b),
                    3 => f.set_border_bottom(b),
                    _ => f.set_border_diagonal(b),
                }
            }
            30 => {
                let k = r.usize(5);
                let (c, s) = color(r);
                d.push_str(&format!("border_{}_color({s})", SIDES[k]));
                m.bcolor[k] = Some(s);
                match k {
                    0 => f.set_border_left_color(c),
                    1 => f.set_border_right_color(c),
                    2 => f.set_border_top_color(c),
                    3 => f.set_border_bottom_color(c),
                    _ => f.set_border_diagonal_color(c),
                }
            }
            31 => {
                let (t, v) = *r.pick(&[
                    (FormatDiagonalBorder::None, 0u8),
                    (FormatDiagonalBorder::BorderUp, 1),
                    (FormatDiagonalBorder::BorderDown, 2),
                    (FormatDiagonalBorder::BorderUpDown, 3),
                ]);
                m.diag = v;
                d.push_str(&format!("diag({v})"));
                f.set_border_diagonal_type(t)
            }
            32 => {
                m.unlocked = true;
                d.push_str("unlocked");
                f.set_unlocked()
            }
            33 => {
                m.hidden = true;
                d.push_str("hidden");
                f.set_hidden()
            }
            34 => {
                m.quote = true;
                d.push_str("quote");
                f.set_quote_prefix()
            }
            35 => match r.below(8) {
                0 => {
                    m.bold = false;
                    d.push_str("unbold");
                    f.unset_bold()
                }
                1 => {
                    m.italic = false;
                    d.push_str("unitalic");
                    f.unset_italic()
                }
                2 => {
                    m.strike = false;
                    d.push_str("unstrike");
                    f.unset_font_strikethrough()
                }
                3 => {
                    m.wrap = false;
                    d.push_str("unwrap");
                    f.unset_text_wrap()
                }
                4 => {
                    m.shrink = false;
                    d.push_str("unshrink");
                    f.unset_shrink()
                }
                5 => {
                    m.unlocked = false;
                    d.push_str("locked");
                    f.set_locked()
                }
                6 => {
                    m.hidden = false;
                    d.push_str("unhidden");
                    f.unset_hidden()
                }
                _ => {
                    m.quote = false;
                    d.push_str("unquote");
                    f.unset_quote_prefix()
                }
            },
            36 => {
                d.push_str("color_auto");
                m.color = None;
                m.color_auto = true;
                f.set_font_color(Color::Automatic)
            }
            _ => {
                // Invalid colours are ignored.
                d.push_str("bad_color");
                f.set_font_color(Color::RGB(0x100_0000))
                    .set_background_color(Color::Theme(10, 0))
            }
        };
        self.d(&d);
    }
    pub fn random(r: &mut Rng, max: usize) -> Fmt {
        let mut f = Fmt::new();
        for _ in 0..r.usize(max) + 1 {
            f.step(r);
        }
        f
    }
    /// Guaranteed not to equal the default format.
    pub fn nondefault(r: &mut Rng, max: usize) -> Fmt {
        loop {
            let f = Fmt::random(r, max);
            if !f.m.is_default() {
                return f;
            }
        }
    }
}

/// Compare-ready facts of a decoded differential style.
pub fn dxf_norm(f: &Facts) -> Facts {
    let mut m = norm(f);
    m.retain(|k, _| k != "font.vertAlign" && !k.contains("diagonal") && k != "font.scheme");
    m
}

/// Normalise decoded facts for comparison: representation choices that mean
/// the same in every consumer are dropped.
pub fn norm(f: &Facts) -> Facts {
    let mut m = f.clone();
    // Bottom is the default vertical alignment.
    if m.get("align.vertical").map(String::as_str) == Some("bottom") {
        m.remove("align.vertical");
    }
    // No pattern draws no colours.
    if m.get("fill.pattern").map(String::as_str) == Some("none") {
        m.remove("fill.fg");
        m.remove("fill.bg");
    }
    // Background "indexed=64" is the system default.
    if m.get("fill.bg").map(String::as_str) == Some("indexed=64") {
        m.remove("fill.bg");
    }
    if m.get("prot.locked").map(String::as_str) == Some("1") {
        m.remove("prot.locked");
    }
    if m.get("prot.hidden").map(String::as_str) == Some("0") {
        m.remove("prot.hidden");
    }
    if m.get("numfmt").map(String::as_str) == Some("code=General") {
        m.remove("numfmt");
    }
    // A diagonal flag without a diagonal style draws nothing.
    m
}

pub fn diff(got: &Facts, want: &Facts) -> String {
    let mut s = vec![];
    for (k, v) in want {
        match got.get(k) {
            Some(g) if g == v => {}
            g => s.push(format!("{k}: got {g:?} want {v:?}")),
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            s.push(format!("{k}: got {v:?} want nothing"));
        }
    }
    s.join("; ")
}
