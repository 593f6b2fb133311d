//! Arguments that are at, beyond and far from what the API expects, for the
//! calls of api.rs.

use crate::api::*;
use crate::kit;
use crate::rng::Rng;
use crate::run::Ctx;
use rust_xlsxwriter::*;
use serde::{Deserialize, Serialize};

pub struct G<'a> {
    pub r: Rng,
    pub ctx: &'a mut Ctx,
    depth: usize,
    args: String,
    /// Whether the last fallible call of a worksheet or workbook succeeded.
    pub ok: Option<bool>,
    /// Keep row numbers in order for constant memory.
    pub current: u32,
    pub calls: u64,
    pub refused: u64,
    /// Leave out objects that need much memory or time.
    pub modest: bool,
    pub clean: bool,
}

const TEXTS: &[&str] = &[
    "", " ", "'", "''", "\"", "!", "=", "==", "{", "}", "{}", "{=", "[", "]", "[]", "[[", "@", "#", "$", "&", "<", ">",
    ",", ";", ":", "::", ".", "-", "/", "\\", "\0", "\u{1}", "\t", "\n", "\r\n", "\u{fffe}", "\u{7f}", "😀", "é", "\u{301}",
    "_x0041_", "_x", "A1", "$A$1", "A0", "a", "XFD1048576", "XFE1", "A1048577", "A1:B2", "B2:A1", "A:A", "1:1", ":", "A1:",
    "Sheet1", "Sheet1!", "!A1", "Sheet1!A1", "Sheet1!$A$1:$B$5", "Sheet1!$B$5:$A$1", "=Sheet1!A1:A5", "'Sheet1'!A1", "'Sheet1!A1",
    "'It''s'!A1", "Missing!$A$1:$A$9", "Sheet1!$A$1:$XFD$1048576", "Sheet2!$A$1:$A$5", "Sheet1!A1:A", "#REF!", "#N/A", "0", "-1", "1e999",
    "12345678901234567890", "NaN", "inf", "true", "TRUE", "General", "0.00", "yyyy-mm-dd", "[Red]0;[", "@@", "%", "%%", "&G", "&L&G&C&G",
    "&&", "&C&\"Arial,Bold\"x", "https://example.com", "http://", "mailto:", "mailto:a@b", "internal:", "internal:Sheet1!A1", "internal:#",
    "file://", "file:///C:/x", "external:", "external:\\\\a\\b#c", "ftp://x", "x:", "#RRGGBB", "#12", "#12345", "#GGGGGG", "#FF7F50", "red",
    "1900-01-01", "2024-02-30", "9999-12-31T23:59:59.999", "T", "24:00", "12:60", "-", "--", "1899-12-31", "25:61:61", "2024-01-01T", "Z",
    "=SUM(", "=SUM(A1:A2)", "SUM(A1", "=A1#", "=Table1[#All]", "=Table1[@Col]", "=IF(\"", "=\"", "=LET(x,1,x)", "=_xlfn._xlws.SORT(A1)",
    "=SORT(", "=ANCHORARRAY(A1)", "{=A1:A2}", "{=", "=}", "Table1", "Column1", "Total", "_xlnm.Print_Area", "Print_Area", "Sheet1!Name", "Sheet9!Name",
    "A B", "1A", "R1C1", "é名", "name", "History", "Sheet3", "%s", "../x", "C:\\", "ThisWorkbook",
];

impl<'a> G<'a> {
    pub fn new(ctx: &'a mut Ctx) -> G<'a> {
        G {
            r: ctx.rng.fork(),
            ctx,
            depth: 0,
            args: String::new(),
            ok: None,
            current: 0,
            calls: 0,
            refused: 0,
            modest: true,
            clean: false,
        }
    }
    fn put<T: std::fmt::Debug>(&mut self, v: T) -> T {
        if self.args.len() < 300 {
            let s = format!("{v:?} ");
            self.args.extend(s.chars().take(60));
        }
        v
    }
    pub fn call(&mut self, name: &str) {
        let a = std::mem::take(&mut self.args);
        self.calls += 1;
        self.ctx.log(format!("{name}({})", a.trim_end()));
    }
    pub fn result(&mut self, ok: bool) {
        self.ok = Some(ok);
        if !ok {
            self.refused += 1;
            self.ctx.log("  refused");
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.r.usize(n.max(1))
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.r.one_in(n as u64)
    }
    pub fn deeper(&mut self, f: impl FnOnce(&mut G<'a>, usize)) {
        if self.depth > 4 {
            return;
        }
        let n = match self.depth {
            0 | 1 => self.r.usize(6),
            2 => self.r.usize(3),
            _ => self.r.usize(2),
        };
        self.depth += 1;
        f(self, n);
        self.depth -= 1;
    }
    pub fn list<T>(&mut self, f: impl Fn(&mut G<'a>) -> T) -> Vec<T> {
        let n = match self.r.below(8) {
            0 => 0,
            7 if self.depth < 2 => self.r.usize(30),
            _ => self.r.usize(4),
        };
        self.depth += 1;
        let v = (0..n).map(|_| f(self)).collect();
        self.depth -= 1;
        v
    }
    pub fn bool(&mut self) -> bool {
        let v = self.r.bool();
        self.put(v)
    }
    pub fn u8(&mut self) -> u8 {
        let v = match self.r.below(4) {
            0 => *self.r.pick(&[0, 1, 2, 7, 8, 9, 10, 15, 48, 49, 99, 100, 127, 128, 255]),
            1 => self.r.u8(0, 255),
            _ => self.r.u8(0, 12),
        };
        self.put(v)
    }
    pub fn i8(&mut self) -> i8 {
        let v = self.r.u8(0, 255) as i8;
        self.put(v)
    }
    pub fn u16(&mut self) -> u16 {
        let v = match self.r.below(3) {
            0 => *self.r.pick(&[
                0, 1, 2, 9, 10, 100, 255, 256, 359, 360, 361, 400, 401, 409, 500, 501, 1000, 1001, 16383, 16384, 32767,
                32768, 65534, 65535,
            ]),
            1 => self.r.u16(0, 65535),
            _ => self.r.u16(0, 30),
        };
        self.put(v)
    }
    pub fn i16(&mut self) -> i16 {
        let v = *self.r.pick(&[0, 1, -1, 45, 90, -90, 91, -91, 180, 255, 270, 271, 360, 32767, -32768]);
        self.put(v)
    }
    pub fn u32(&mut self) -> u32 {
        let v = match self.r.below(3) {
            0 => *self.r.pick(&[
                0,
                1,
                2,
                64,
                255,
                256,
                0xFF_FFFF,
                0x100_0000,
                16383,
                16384,
                1_048_575,
                1_048_576,
                i32::MAX as u32,
                1 << 31,
                u32::MAX - 1,
                u32::MAX,
            ]),
            1 => self.r.u32(0, 5000),
            _ => self.r.u32(0, 30),
        };
        self.put(v)
    }
    pub fn i32(&mut self) -> i32 {
        let v = *self.r.pick(&[0, 1, -1, 100, -100, i32::MAX, i32::MIN, 123_456]);
        self.put(v)
    }
    pub fn i64(&mut self) -> i64 {
        let v = *self.r.pick(&[
            0,
            1,
            -1,
            i64::MAX,
            i64::MIN,
            -2_209_161_600,
            -2_209_161_601,
            253_402_300_799,
            253_402_300_800,
            1_700_000_000,
        ]);
        self.put(v)
    }
    pub fn u64(&mut self) -> u64 {
        let v = self.i64() as u64;
        self.put(v)
    }
    pub fn usize(&mut self) -> usize {
        let v = *self.r.pick(&[0, 1, 2, 3, 10, 255, 70_000, usize::MAX]);
        self.put(v)
    }
    pub fn char(&mut self) -> char {
        let v = *self.r.pick(&[',', ';', '\n', ' ', '&', '<', '\0', '😀', '"', '\u{fffe}']);
        self.put(v)
    }
    pub fn f64(&mut self) -> f64 {
        let v = match self.r.below(3) {
            0 => *self.r.pick(&[
                0.0,
                -0.0,
                f64::NAN,
                f64::INFINITY,
                f64::NEG_INFINITY,
                f64::MAX,
                f64::MIN,
                f64::MIN_POSITIVE,
                5e-324,
                -1.0,
                -1e10,
                1e10,
                1e17,
                4294967295.0,
                4294967296.0,
            ]),
            1 => *self.r.pick(&[
                0.01, 0.1, 0.5, 1.0, 1.5, 8.43, 10.0, 15.0, 72.0, 99.99, 100.0, 255.0, 255.5, 256.0, 409.0, 410.0, 500.0,
                1000.0, 1048576.0,
            ]),
            _ => (self.r.f01() * 200.0).round() / 4.0,
        };
        self.put(v)
    }
    pub fn row(&mut self) -> u32 {
        let v = match self.r.below(8) {
            0 => *self.r.pick(&[1_048_574, 1_048_575, 1_048_576, 1_048_577, u32::MAX - 1, u32::MAX, 1 << 31]),
            1 => 0,
            2 => self.r.u32(0, 2000),
            3 => self.current.saturating_add(self.r.u32(0, 2)),
            _ => self.r.u32(0, 12),
        };
        self.put(v)
    }
    pub fn col(&mut self) -> u16 {
        let v = match self.r.below(8) {
            0 => *self.r.pick(&[16_382, 16_383, 16_384, 16_385, u16::MAX - 1, u16::MAX]),
            1 => 0,
            2 => self.r.u16(0, 300),
            _ => self.r.u16(0, 9),
        };
        self.put(v)
    }
    /// The corners of a range, in any order.
    pub fn range4(&mut self) -> (u32, u16, u32, u16) {
        if self.r.one_in(if self.modest { 60 } else { 12 }) {
            return (self.row(), self.col(), self.row(), self.col());
        }
        self.small()
    }
    /// A range of few cells, also across the edges of the sheet.
    pub fn small(&mut self) -> (u32, u16, u32, u16) {
        let (r, c) = (self.row(), self.col());
        let (h, w) = (self.r.u32(0, 8), self.r.u16(0, 5));
        let v = match self.r.below(10) {
            0 => (r.saturating_add(h), c, r, c.saturating_add(w)),
            1 => (r, c.saturating_add(w), r.saturating_add(h), c),
            2 => (r, c, r, c),
            _ => (r, c, r.saturating_add(h), c.saturating_add(w)),
        };
        self.put(v)
    }
    pub fn string(&mut self, kind: usize) -> String {
        let s = match self.r.below(12) {
            0 => {
                let n = *self.r.pick(&[15, 16, 30, 31, 32, 51, 52, 53, 254, 255, 256, 257, 2080, 2081, 2084]);
                self.filler(n)
            }
            1 if self.r.one_in(12) => {
                let n = *self.r.pick(&[32_700, 32_766, 32_767, 32_768, 70_000]);
                self.filler(n)
            }
            2..=6 => (*self.r.pick(TEXTS)).to_string(),
            7 => {
                let (a, b) = (*self.r.pick(TEXTS), *self.r.pick(TEXTS));
                format!("{a}{b}")
            }
            8 => {
                let (a, b, c) = (*self.r.pick(TEXTS), *self.r.pick(TEXTS), *self.r.pick(TEXTS));
                format!("{a}{b}{c}")
            }
            _ => match kind {
                1 => self.good_range(),
                2 => "=SUM(A1:A3)".into(),
                3 => {
                    let n = self.r.below(6);
                    format!("Name{n}")
                }
                4 => "https://example.com/a".into(),
                5 => "0.00".into(),
                _ => {
                    let n = self.r.below(50);
                    format!("text {n}")
                }
            },
        };
        self.put(s)
    }
    fn filler(&mut self, n: usize) -> String {
        let c = *self.r.pick(&["a", "a", "é", "😀", "&", "'", "\"", "_x0041_", "[", " "]);
        let mut s: String = c.repeat(n);
        if self.r.bool() {
            s = s.chars().take(n).collect();
        }
        s
    }
    fn good_range(&mut self) -> String {
        let n = self.r.u32(1, 4);
        let (a, b) = (self.r.u32(1, 9), self.r.u32(1, 9));
        let (c, d) = (*self.r.pick(&["A", "B", "AA"]), *self.r.pick(&["A", "B", "C"]));
        match self.r.below(4) {
            0 => format!("{c}{a}"),
            1 => format!("{c}{a}:{d}{b}"),
            2 => format!("Sheet{n}!${c}${a}:${c}${b}"),
            _ => format!("=Sheet{n}!{c}{a}:{d}{a}"),
        }
    }
    pub fn range(&mut self) -> String {
        self.string(1)
    }
    pub fn color(&mut self) -> Color {
        match self.r.below(6) {
            0 => Color::from(self.string(0).as_str()),
            1 => Color::from(self.u32()),
            2 => Color::RGB(self.u32()),
            3 => Color::Theme(self.u8(), self.u8()),
            4 => Color::Automatic,
            _ => *self.r.pick(&[Color::Default, Color::Red, Color::Gray, Color::White]),
        }
    }
    pub fn date(&mut self) -> ExcelDateTime {
        let ok = ExcelDateTime::from_ymd(2024, 1, 2).unwrap_or_default();
        match self.r.below(6) {
            0 => ExcelDateTime::parse_from_str(&self.string(0)).unwrap_or(ok),
            1 => {
                let (y, m, d) = (self.u16(), self.u8(), self.u8());
                ExcelDateTime::from_ymd(y, m, d).unwrap_or(ok)
            }
            2 => {
                let (h, m, s) = (self.u16(), self.u8(), self.f64());
                ExcelDateTime::from_hms(h, m, s).unwrap_or(ok)
            }
            3 => ExcelDateTime::from_serial_datetime(self.f64()).unwrap_or(ok),
            4 => ExcelDateTime::from_timestamp(self.i64()).unwrap_or(ok),
            _ => ok,
        }
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let (mut b, _, _) = kit::image_bytes(&mut self.r);
        match self.r.below(5) {
            _ if self.clean => {}
            0 => b.truncate(self.r.usize(b.len() + 1)),
            1 => {
                for _ in 0..1 + self.r.usize(6) {
                    let n = self.r.usize(b.len().min(80));
                    b[n] = *self.r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
                }
            }
            2 => {
                b.truncate(8);
                for _ in 0..self.r.usize(40) {
                    b.push(self.r.u8(0, 255));
                }
            }
            _ => {}
        }
        b
    }
    pub fn image(&mut self) -> Image {
        let b = self.bytes();
        self.args = format!("{:02x?}", &b[..b.len().min(200)]);
        self.call("Image::new_from_buffer");
        match Image::new_from_buffer(&b) {
            Ok(i) => i,
            Err(_) => kit::image(&mut self.r).0,
        }
    }
    /// A file in the scratch directory, which may be missing.
    pub fn path(&mut self) -> std::path::PathBuf {
        let d = self.ctx.scratch.join(format!("c10_{}", self.ctx.index));
        match self.r.below(5) {
            0 => d.join("missing").join("x"),
            1 => d,
            2 => {
                let f = d.join("noise.bin");
                let b = self.bytes();
                let _ = std::fs::write(&f, b);
                f
            }
            3 => std::path::PathBuf::new(),
            _ => d.join("out.xlsx"),
        }
    }
    pub fn cf_value(&mut self) -> ConditionalFormatValue {
        match self.r.below(4) {
            0 => self.f64().into(),
            1 => self.string(0).into(),
            2 => g_formula(self).into(),
            _ => (&self.date()).into(),
        }
    }
    pub fn cell_rule(&mut self) -> ConditionalFormatCellRule<ConditionalFormatValue> {
        use ConditionalFormatCellRule as R;
        let (a, b) = (self.cf_value(), self.cf_value());
        match self.r.below(8) {
            0 => R::EqualTo(a),
            1 => R::NotEqualTo(a),
            2 => R::GreaterThan(a),
            3 => R::GreaterThanOrEqualTo(a),
            4 => R::LessThan(a),
            5 => R::LessThanOrEqualTo(a),
            6 => R::Between(a, b),
            _ => R::NotBetween(a, b),
        }
    }
    pub fn dv_rule<T: IntoDataValidationValue>(&mut self, f: impl Fn(&mut G<'a>) -> T) -> DataValidationRule<T> {
        use DataValidationRule as R;
        let (a, b) = (f(self), f(self));
        match self.r.below(8) {
            0 => R::EqualTo(a),
            1 => R::NotEqualTo(a),
            2 => R::GreaterThan(a),
            3 => R::GreaterThanOrEqualTo(a),
            4 => R::LessThan(a),
            5 => R::LessThanOrEqualTo(a),
            6 => R::Between(a, b),
            _ => R::NotBetween(a, b),
        }
    }
    /// Text runs.
    pub fn runs(&mut self) -> Vec<(Format, String)> {
        self.list(|g| (g_format(g), g.string(0)))
    }
}

pub fn add_conditional_format(g: &mut G, ws: &mut Worksheet) {
    let (r0, c0, r1, c1) = g.range4();
    macro_rules! add {
        ($f:ident, $n:expr) => {{
            let f = $f(g);
            g.call(concat!("Worksheet::add_conditional_format ", $n));
            let ok = ws.add_conditional_format(r0, c0, r1, c1, &f).is_ok();
            g.result(ok);
        }};
    }
    match g.below(14) {
        0 => add!(g_conditional_format2_color_scale, "2 colors"),
        1 => add!(g_conditional_format3_color_scale, "3 colors"),
        2 => add!(g_conditional_format_average, "average"),
        3 => add!(g_conditional_format_blank, "blank"),
        4 => add!(g_conditional_format_cell, "cell"),
        5 => add!(g_conditional_format_data_bar, "bar"),
        6 => add!(g_conditional_format_date, "date"),
        7 => add!(g_conditional_format_duplicate, "duplicate"),
        8 => add!(g_conditional_format_error, "error"),
        9 => add!(g_conditional_format_formula, "formula"),
        10 => add!(g_conditional_format_icon_set, "icons"),
        11 => add!(g_conditional_format_text, "text"),
        12 => add!(g_conditional_format_top, "top"),
        _ => add!(g_conditional_format_average, "average"),
    }
}

#[derive(Serialize, Deserialize, Clone, Default)]
struct Row {
    a: String,
    b: f64,
    c: Option<i8>,
}

#[derive(Serialize, Deserialize, Clone, Default)]
struct Empty {}

#[derive(Serialize, Deserialize, XlsxSerialize, Clone, Default)]
struct Attr {
    #[xlsx(rename = "x")]
    a: String,
    #[xlsx(column_width = 10.0)]
    b: u32,
}

fn fields(g: &mut G) -> SerializeFieldOptions {
    let mut o = SerializeFieldOptions::new();
    let n = g.below(4);
    let mut cs = vec![];
    for _ in 0..n {
        let mut c = CustomSerializeField::new(if g.bool() { "a".into() } else { g.string(3) });
        if g.bool() {
            c = c.rename(g.string(0));
        }
        if g.bool() {
            c = c.skip(g.bool());
        }
        if g.bool() {
            c = c.set_column_width(g.f64());
        }
        if g.bool() {
            c = c.set_column_format(g_format(g));
        }
        if g.bool() {
            c = c.set_header_format(g_format(g));
        }
        if g.bool() {
            c = c.set_value_format(g_format(g));
        }
        if g.bool() {
            c = c.set_column_width_pixels(g.u16());
        }
        cs.push(c);
    }
    o = o.set_custom_headers(&cs);
    for _ in 0..g.below(4) {
        o = match g.below(5) {
            0 => o.hide_headers(g.bool()),
            1 => o.set_header_format(g_format(g)),
            2 => o.use_custom_headers_only(g.bool()),
            3 => o.set_struct_name(g.string(3)),
            _ => o.set_table(g_table(g)),
        };
    }
    o
}

pub fn worksheet_more(g: &mut G, ws: &mut Worksheet) {
    let (r, c) = (g.row(), g.col());
    let row = Row {
        a: g.string(0),
        b: g.f64(),
        c: None,
    };
    let attr = Attr {
        a: g.string(0),
        b: g.u32(),
    };
    let k = g.below(16);
    g.call(&format!("more {k}"));
    let ok = match k {
        0 => ws.serialize(&row).is_ok(),
        1 => ws.serialize(&vec![row.clone(), row]).is_ok(),
        2 => ws.serialize_headers(r, c, &row).is_ok(),
        3 => ws.serialize_headers_with_format(r, c, &row, &g_format(g)).is_ok(),
        4 => ws.serialize_headers_with_options(r, c, &row, &fields(g)).is_ok(),
        5 => ws.deserialize_headers::<Row>(r, c).is_ok(),
        6 => ws.deserialize_headers_with_format::<Row>(r, c, &g_format(g)).is_ok(),
        7 => ws.deserialize_headers_with_options::<Row>(r, c, &fields(g)).is_ok(),
        8 => ws.set_serialize_headers::<Attr>(r, c).is_ok(),
        9 => ws.serialize(&attr).is_ok(),
        10 => ws.serialize_headers(r, c, &Empty {}).is_ok(),
        11 => ws.serialize(&Empty {}).is_ok(),
        12 => ws.serialize(&7u8).is_ok(),
        13 => ws.deserialize_headers::<u8>(r, c).is_ok(),
        14 => {
            let v = g.runs();
            let v: Vec<(&Format, &str)> = v.iter().map(|(f, s)| (f, s.as_str())).collect();
            ws.write_rich_string(r, c, &v).is_ok()
        }
        _ => {
            let v = g.runs();
            let v: Vec<(&Format, &str)> = v.iter().map(|(f, s)| (f, s.as_str())).collect();
            ws.write_rich_string_with_format(r, c, &v, &g_format(g)).is_ok()
        }
    };
    g.result(ok);
}

pub fn workbook_more(g: &mut G, wb: &mut Workbook) {
    let k = g.below(5);
    g.call(&format!("workbook {k}"));
    match k {
        0 => {
            let mut ws = Worksheet::new();
            for _ in 0..g.below(6) {
                m_worksheet(g, &mut ws);
            }
            wb.push_worksheet(ws);
        }
        1 => {
            let mut ws = wb.new_worksheet_with_constant_memory();
            for _ in 0..g.below(6) {
                m_worksheet(g, &mut ws);
            }
            wb.push_worksheet(ws);
        }
        2 => {
            let mut ws = wb.new_worksheet_with_low_memory();
            for _ in 0..g.below(6) {
                m_worksheet(g, &mut ws);
            }
            if g.bool() {
                wb.push_worksheet(ws);
            }
        }
        3 => {
            let ok = wb.save_to_writer(std::io::Cursor::new(vec![])).is_ok();
            g.result(ok);
        }
        _ => {
            let n = wb.worksheets_mut().len();
            if n > 1 && g.one_in(4) {
                let k = g.below(n);
                wb.worksheets_mut().remove(k);
            } else if n > 1 && g.bool() {
                let k = g.below(n);
                wb.worksheets_mut().swap(0, k);
            } else {
                let _ = wb.worksheets().len();
            }
        }
    }
}
