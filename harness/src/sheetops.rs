//! A reference model of the cell grid of a worksheet, and operations that can
//! be applied both to the model and to a real `Worksheet`.

use crate::book::{a1_range, Book, Facts, Sheet, F, V};
use crate::gen::{self, diff, norm, FModel, Fmt};
use crate::rng::Rng;
use crate::run::Ctx;
use rust_xlsxwriter::{Formula, Worksheet, XlsxError};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Val {
    Num(f64),
    /// Number through one of the integer/float types of the generic writer.
    Typed(u8, i64),
    Str(String),
    Bool(bool),
    Blank,
    Formula(String, Option<String>),
    /// (last_row, last_col, text, result)
    Array(u32, u16, String, Option<String>),
    DynArray(u32, u16, String, Option<String>),
    Checkbox(bool),
    OptNone,
}

#[derive(Clone, Debug)]
pub enum Op {
    /// Write at a cell; `fmt` is an index into the format list; `how` picks
    /// among equivalent entry points.
    Write {
        r: u32,
        c: u16,
        v: Val,
        fmt: Option<usize>,
        how: u8,
    },
    Row {
        r: u32,
        c: u16,
        v: Vec<f64>,
        fmt: Option<usize>,
    },
    Column {
        r: u32,
        c: u16,
        v: Vec<String>,
        fmt: Option<usize>,
    },
    RowMatrix {
        r: u32,
        c: u16,
        v: Vec<Vec<i32>>,
    },
    ColMatrix {
        r: u32,
        c: u16,
        v: Vec<Vec<i32>>,
    },
    Clear(u32, u16),
    ClearFormat(u32, u16),
    CellFormat(u32, u16, usize),
    RangeFormat(u32, u16, u32, u16, usize),
    FormulaResult(u32, u16, String),
    DefaultResult(String),
    RowFormat(u32, usize),
    ColFormat(u16, usize),
    RowHeight(u32, f64),
    ColWidth(u16, f64),
    NanValue(String),
    InfValue(String),
    NegInfValue(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MCell {
    pub v: V,
    pub f: Option<F>,
    pub dynamic: bool,
    /// Own format; None means inherit.
    pub fmt: Option<FModel>,
}

#[derive(Clone, Debug)]
pub struct Grid {
    pub cells: BTreeMap<(u32, u16), MCell>,
    pub row_fmt: BTreeMap<u32, FModel>,
    pub col_fmt: BTreeMap<u16, FModel>,
    pub nan: String,
    pub inf: String,
    pub ninf: String,
    pub default_result: String,
}

pub fn result_value(s: &str) -> V {
    // A formula result is typed by its text.
    match s {
        "TRUE" => return V::Bool(true),
        "FALSE" => return V::Bool(false),
        "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
        | "#GETTING_DATA" => return V::Err(s.to_string()),
        _ => {}
    }
    match s.parse::<f64>() {
        Ok(f) if f.is_finite() => V::num(f),
        _ => V::Str(s.to_string()),
    }
}

impl Default for Grid {
    fn default() -> Self {
        Grid {
            cells: BTreeMap::new(),
            row_fmt: BTreeMap::new(),
            col_fmt: BTreeMap::new(),
            nan: "NAN".into(),
            inf: "INF".into(),
            ninf: "-INF".into(),
            default_result: "0".into(),
        }
    }
}

fn formula_text(s: &str) -> String {
    s.strip_prefix('=').unwrap_or(s).to_string()
}

impl Grid {
    fn own(&self, r: u32, c: u16, fmt: Option<&FModel>) -> Option<FModel> {
        match fmt {
            Some(f) => Some(f.clone()),
            None => match (self.row_fmt.get(&r), self.col_fmt.get(&c)) {
                (Some(rf), Some(cf)) => Some(rf.merge(cf)),
                _ => None,
            },
        }
    }
    pub fn put(&mut self, r: u32, c: u16, v: V, f: Option<F>, dynamic: bool, fmt: Option<&FModel>) {
        let fmt = self.own(r, c, fmt);
        self.cells.insert((r, c), MCell { v, f, dynamic, fmt });
    }
    pub fn put_num(&mut self, r: u32, c: u16, f: f64, fmt: Option<&FModel>) {
        let v = if f.is_nan() {
            V::Str(self.nan.clone())
        } else if f == f64::INFINITY {
            V::Str(self.inf.clone())
        } else if f == f64::NEG_INFINITY {
            V::Str(self.ninf.clone())
        } else {
            V::num(f)
        };
        if v == V::Str(String::new()) {
            self.put_str(r, c, "", fmt);
            return;
        }
        self.put(r, c, v, None, false, fmt);
    }
    pub fn put_str(&mut self, r: u32, c: u16, s: &str, fmt: Option<&FModel>) {
        if s.is_empty() {
            if fmt.is_some() {
                self.put_blank(r, c, fmt);
            }
            return;
        }
        self.put(r, c, V::Str(s.into()), None, false, fmt);
    }
    pub fn put_blank(&mut self, r: u32, c: u16, fmt: Option<&FModel>) {
        let fmt = fmt.filter(|f| !f.is_default());
        self.put(r, c, V::Blank, None, false, fmt);
    }

    pub fn apply(&mut self, op: &Op, fmts: &[Fmt]) {
        let fm = |i: &Option<usize>| i.map(|i| fmts[i].m.clone());
        match op {
            Op::Write { r, c, v, fmt, .. } => {
                let f = fm(fmt);
                let f = f.as_ref();
                match v {
                    Val::Num(n) => self.put_num(*r, *c, *n, f),
                    Val::Typed(k, n) => self.put_num(*r, *c, typed_value(*k, *n), f),
                    Val::Str(s) => self.put_str(*r, *c, s, f),
                    Val::Bool(b) => self.put(*r, *c, V::Bool(*b), None, false, f),
                    Val::Blank => {
                        let d = FModel::new();
                        self.put_blank(*r, *c, Some(f.unwrap_or(&d)));
                    }
                    Val::OptNone => {
                        if f.is_some() {
                            self.put_blank(*r, *c, f);
                        }
                    }
                    Val::Checkbox(b) => {
                        let mut m = f.cloned().unwrap_or_else(FModel::new);
                        m.checkbox = true;
                        self.put(*r, *c, V::Bool(*b), None, false, Some(&m));
                    }
                    Val::Formula(t, res) => {
                        let res = match res {
                            Some(x) if !x.is_empty() => x.clone(),
                            _ => self.default_result.clone(),
                        };
                        let ff = F {
                            text: formula_text(t),
                            array_ref: None,
                        };
                        self.put(*r, *c, result_value(&res), Some(ff), false, f);
                    }
                    Val::Array(lr, lc, t, res) | Val::DynArray(lr, lc, t, res) => {
                        let res = match res {
                            Some(x) if !x.is_empty() => x.clone(),
                            _ => self.default_result.clone(),
                        };
                        let ff = F {
                            text: formula_text(t),
                            array_ref: Some(a1_range(*r, *c, *lr, *lc)),
                        };
                        let dy = matches!(v, Val::DynArray(..));
                        self.put(*r, *c, result_value(&res), Some(ff), dy, f);
                        for rr in *r..=*lr {
                            for cc in *c..=*lc {
                                if (rr, cc) != (*r, *c) {
                                    self.put(rr, cc, V::num(0.0), None, false, f);
                                }
                            }
                        }
                    }
                }
            }
            Op::Row { r, c, v, fmt } => {
                let f = fm(fmt);
                for (i, x) in v.iter().enumerate() {
                    self.put_num(*r, *c + i as u16, *x, f.as_ref());
                }
            }
            Op::Column { r, c, v, fmt } => {
                let f = fm(fmt);
                for (i, x) in v.iter().enumerate() {
                    self.put_str(*r + i as u32, *c, x, f.as_ref());
                }
            }
            Op::RowMatrix { r, c, v } => {
                for (i, row) in v.iter().enumerate() {
                    for (j, x) in row.iter().enumerate() {
                        self.put_num(*r + i as u32, *c + j as u16, f64::from(*x), None);
                    }
                }
            }
            Op::ColMatrix { r, c, v } => {
                for (i, col) in v.iter().enumerate() {
                    for (j, x) in col.iter().enumerate() {
                        self.put_num(*r + j as u32, *c + i as u16, f64::from(*x), None);
                    }
                }
            }
            Op::Clear(r, c) => {
                self.cells.remove(&(*r, *c));
            }
            Op::ClearFormat(r, c) => {
                if let Some(m) = self.cells.get_mut(&(*r, *c)) {
                    m.fmt = None;
                }
            }
            Op::CellFormat(r, c, i) => self.set_fmt(*r, *c, &fmts[*i].m),
            Op::RangeFormat(r1, c1, r2, c2, i) => {
                for r in *r1..=*r2 {
                    for c in *c1..=*c2 {
                        self.set_fmt(r, c, &fmts[*i].m);
                    }
                }
            }
            Op::FormulaResult(r, c, s) => {
                if let Some(m) = self.cells.get_mut(&(*r, *c)) {
                    if m.f.is_some() {
                        m.v = result_value(s);
                    }
                }
            }
            Op::DefaultResult(s) => self.default_result = s.clone(),
            Op::RowFormat(r, i) => {
                self.row_fmt.insert(*r, fmts[*i].m.clone());
            }
            Op::ColFormat(c, i) => {
                self.col_fmt.insert(*c, fmts[*i].m.clone());
            }
            Op::RowHeight(..) | Op::ColWidth(..) => {}
            Op::NanValue(s) => self.nan = s.clone(),
            Op::InfValue(s) => self.inf = s.clone(),
            Op::NegInfValue(s) => self.ninf = s.clone(),
        }
    }

    /// Format-only update of a cell.
    pub fn set_fmt(&mut self, r: u32, c: u16, m: &FModel) {
        let own = if m.is_default() {
            None
        } else {
            Some(m.clone())
        };
        match self.cells.get_mut(&(r, c)) {
            Some(x) => x.fmt = own,
            None => {
                if own.is_some() {
                    self.cells.insert(
                        (r, c),
                        MCell {
                            v: V::Blank,
                            f: None,
                            dynamic: false,
                            fmt: own,
                        },
                    );
                }
            }
        }
    }

    pub fn effective(&self, r: u32, c: u16) -> FModel {
        if let Some(m) = self.cells.get(&(r, c)) {
            if let Some(f) = &m.fmt {
                if !f.is_default() {
                    return f.clone();
                }
            }
        }
        if let Some(f) = self.row_fmt.get(&r) {
            if !f.is_default() {
                return f.clone();
            }
        }
        if let Some(f) = self.col_fmt.get(&c) {
            return f.clone();
        }
        FModel::new()
    }
}

pub fn typed_value(k: u8, n: i64) -> f64 {
    match k {
        0 => f64::from(n as u8),
        1 => f64::from(n as i8),
        2 => f64::from(n as u16),
        3 => f64::from(n as i16),
        4 => f64::from(n as u32),
        5 => f64::from(n as i32),
        6 => n as u64 as f64,
        7 => n as f64,
        _ => f64::from(n as f32 / 7.0),
    }
}

pub type R<'a> = Result<&'a mut Worksheet, XlsxError>;

fn mk_formula(t: &str, res: &Option<String>) -> Formula {
    let f = Formula::new(t);
    match res {
        Some(r) => f.set_result(r.clone()),
        None => f,
    }
}

/// Apply an operation to the real worksheet.
pub fn real<'a>(ws: &'a mut Worksheet, op: &Op, fmts: &[Fmt]) -> R<'a> {
    match op {
        Op::Write { r, c, v, fmt, how } => {
            let (r, c) = (*r, *c);
            let f = fmt.map(|i| &fmts[i].f);
            match v {
                Val::Num(n) => match (f, how % 2) {
                    (None, 0) => ws.write_number(r, c, *n),
                    (None, _) => ws.write(r, c, *n),
                    (Some(f), 0) => ws.write_number_with_format(r, c, *n, f),
                    (Some(f), _) => ws.write_with_format(r, c, *n, f),
                },
                Val::Typed(k, n) => {
                    let n = *n;
                    macro_rules! w {
                        ($x:expr) => {
                            match f {
                                None => ws.write(r, c, $x),
                                Some(f) => ws.write_with_format(r, c, $x, f),
                            }
                        };
                    }
                    match k {
                        0 => w!(n as u8),
                        1 => w!(n as i8),
                        2 => w!(n as u16),
                        3 => w!(n as i16),
                        4 => w!(n as u32),
                        5 => w!(n as i32),
                        6 => w!(n as u64),
                        7 => w!(n),
                        _ => w!(n as f32 / 7.0),
                    }
                }
                Val::Str(s) => match (f, how % 4) {
                    (None, 0) => ws.write_string(r, c, s.clone()),
                    (None, 1) => ws.write(r, c, s),
                    (None, 2) => ws.write(r, c, s.as_str()),
                    (None, _) => ws.write(r, c, Some(s.clone())),
                    (Some(f), 0) => ws.write_string_with_format(r, c, s.clone(), f),
                    (Some(f), 1) => ws.write_with_format(r, c, s, f),
                    (Some(f), 2) => {
                        ws.write_with_format(r, c, std::borrow::Cow::from(s.as_str()), f)
                    }
                    (Some(f), _) => {
                        let x: Result<&str, f64> = Ok(s.as_str());
                        ws.write_with_format(r, c, x, f)
                    }
                },
                Val::Bool(b) => match (f, how % 2) {
                    (None, 0) => ws.write_boolean(r, c, *b),
                    (None, _) => ws.write(r, c, *b),
                    (Some(f), 0) => ws.write_boolean_with_format(r, c, *b, f),
                    (Some(f), _) => ws.write_with_format(r, c, *b, f),
                },
                Val::Blank => {
                    let d = rust_xlsxwriter::Format::new();
                    ws.write_blank(r, c, f.unwrap_or(&d))
                }
                Val::OptNone => {
                    let x: Option<&str> = None;
                    match f {
                        None => ws.write(r, c, x),
                        Some(f) => ws.write_with_format(r, c, x, f),
                    }
                }
                Val::Checkbox(b) => match f {
                    None => ws.insert_checkbox(r, c, *b),
                    Some(f) => ws.insert_checkbox_with_format(r, c, *b, f),
                },
                Val::Formula(t, res) => {
                    let fo = mk_formula(t, res);
                    match (f, how % 3) {
                        (None, 0) => ws.write_formula(r, c, fo),
                        (None, 1) => ws.write(r, c, fo),
                        (None, _) => ws.write(r, c, &fo),
                        (Some(f), 0) => ws.write_formula_with_format(r, c, fo, f),
                        (Some(f), 1) => ws.write_with_format(r, c, fo, f),
                        (Some(f), _) => ws.write_with_format(r, c, &fo, f),
                    }
                }
                Val::Array(lr, lc, t, res) => {
                    let fo = mk_formula(t, res);
                    match f {
                        None => ws.write_array_formula(r, c, *lr, *lc, fo),
                        Some(f) => ws.write_array_formula_with_format(r, c, *lr, *lc, fo, f),
                    }
                }
                Val::DynArray(lr, lc, t, res) => {
                    let fo = mk_formula(t, res);
                    match f {
                        None => {
                            if (*lr, *lc) == (r, c) && how % 2 == 0 {
                                ws.write_dynamic_formula(r, c, fo)
                            } else {
                                ws.write_dynamic_array_formula(r, c, *lr, *lc, fo)
                            }
                        }
                        Some(f) => {
                            if (*lr, *lc) == (r, c) && how % 2 == 0 {
                                ws.write_dynamic_formula_with_format(r, c, fo, f)
                            } else {
                                ws.write_dynamic_array_formula_with_format(r, c, *lr, *lc, fo, f)
                            }
                        }
                    }
                }
            }
        }
        Op::Row { r, c, v, fmt } => match fmt {
            None => ws.write_row(*r, *c, v.clone()),
            Some(i) => ws.write_row_with_format(*r, *c, v.clone(), &fmts[*i].f),
        },
        Op::Column { r, c, v, fmt } => match fmt {
            None => ws.write_column(*r, *c, v.clone()),
            Some(i) => ws.write_column_with_format(*r, *c, v.clone(), &fmts[*i].f),
        },
        Op::RowMatrix { r, c, v } => ws.write_row_matrix(*r, *c, v.clone()),
        Op::ColMatrix { r, c, v } => ws.write_column_matrix(*r, *c, v.clone()),
        Op::Clear(r, c) => Ok(ws.clear_cell(*r, *c)),
        Op::ClearFormat(r, c) => Ok(ws.clear_cell_format(*r, *c)),
        Op::CellFormat(r, c, i) => ws.set_cell_format(*r, *c, &fmts[*i].f),
        Op::RangeFormat(r1, c1, r2, c2, i) => ws.set_range_format(*r1, *c1, *r2, *c2, &fmts[*i].f),
        Op::FormulaResult(r, c, s) => Ok(ws.set_formula_result(*r, *c, s.clone())),
        Op::DefaultResult(s) => Ok(ws.set_formula_result_default(s.clone())),
        Op::RowFormat(r, i) => ws.set_row_format(*r, &fmts[*i].f),
        Op::ColFormat(c, i) => ws.set_column_format(*c, &fmts[*i].f),
        Op::RowHeight(r, h) => ws.set_row_height(*r, *h),
        Op::ColWidth(c, w) => ws.set_column_width(*c, *w),
        Op::NanValue(s) => Ok(ws.set_nan_value(s.clone())),
        Op::InfValue(s) => Ok(ws.set_infinity_value(s.clone())),
        Op::NegInfValue(s) => Ok(ws.set_neg_infinity_value(s.clone())),
    }
}

/// Formulas with nothing that needs rewriting; C31 covers the rest.
pub fn simple_formula(r: &mut Rng) -> String {
    let body = match r.below(7) {
        0 => format!("A{}+{}", r.range(1, 99), r.range(0, 9)),
        1 => "SUM(A1:B2)".into(),
        2 => "\"<a&b>\"&C3".into(),
        3 => "IF(A1>1,\"x\",\"y\")".into(),
        4 => "'My Sheet'!A1*2".into(),
        5 => "1/0".into(),
        _ => format!("LEN(\"{}\")", gen::word(r)),
    };
    if r.bool() {
        format!("={body}")
    } else {
        body
    }
}

pub fn result_text(r: &mut Rng) -> Option<String> {
    match r.below(10) {
        0..=2 => None,
        3 => Some("TRUE".into()),
        4 => Some("FALSE".into()),
        5 => Some(
            (*r.pick(&[
                "#N/A", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#NULL!",
            ]))
            .into(),
        ),
        6 => Some(format!("{}", gen::number(r))),
        7 => Some(
            (*r.pick(&[
                "inf", "NaN", "infinity", "-inf", "1e400", "nan", "true", "", "0x10", "1_000",
                "12abc",
            ]))
            .into(),
        ),
        _ => Some(
            gen::text(
                r,
                20,
                gen::TextOpt {
                    breaks: false,
                    ..gen::ALL
                },
            )
            .trim()
            .to_string(),
        ),
    }
}

pub struct OpGen {
    pub max_r: u32,
    pub max_c: u16,
    pub far: bool,
    pub rowcol_formats: bool,
    pub text: gen::TextOpt,
}

impl OpGen {
    pub fn cell(&self, r: &mut Rng) -> (u32, u16) {
        if self.far && r.one_in(25) {
            (
                *r.pick(&[1_048_575u32, 1_048_574, 70_000, 65_536, 1000]),
                *r.pick(&[16383u16, 16382, 701, 702, 255, 256, 25, 26, 27]),
            )
        } else {
            (r.u32(0, self.max_r), r.u16(0, self.max_c))
        }
    }
    pub fn op(&self, r: &mut Rng, nf: usize) -> Op {
        let (row, col) = self.cell(r);
        let fmt = if nf > 0 && r.pct(35) {
            Some(r.usize(nf))
        } else {
            None
        };
        let k = r.below(100);
        let how = r.u8(0, 11);
        let w = |v| Op::Write {
            r: row,
            c: col,
            v,
            fmt,
            how,
        };
        match k {
            0..=19 => {
                let n = if r.one_in(20) {
                    *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
                } else {
                    gen::number(r)
                };
                w(Val::Num(n))
            }
            20..=25 => {
                let n = r.u64() as i64;
                let n = if r.bool() { n } else { n >> 40 };
                w(Val::Typed(r.u8(0, 8), n))
            }
            26..=45 => {
                let s = match r.below(12) {
                    0 => String::new(),
                    1 => (*r.pick(&[
                        "<r>x</r>",
                        "<r><t>a</t></r>",
                        "<r></r>",
                        "TRUE",
                        "123",
                        "=1+1",
                        " lead",
                        "trail ",
                        "\n",
                        " ",
                    ]))
                    .to_string(),
                    2 => {
                        let n = *r.pick(&[32767usize, 32766, 1000]);
                        let c = *r.pick(&['x', '&', 'é', '😀']);
                        if r.one_in(8) {
                            std::iter::repeat(c).take(n).collect()
                        } else {
                            gen::text(r, 60, self.text)
                        }
                    }
                    _ => gen::text(r, 60, self.text),
                };
                w(Val::Str(s))
            }
            46..=51 => w(Val::Bool(r.bool())),
            52..=56 => w(Val::Blank),
            57..=64 => {
                let t = simple_formula(r);
                let res = result_text(r);
                w(Val::Formula(t, res))
            }
            65..=67 => {
                let t = simple_formula(r);
                let res = result_text(r);
                let lr = (row + r.u32(0, 2)).min(1_048_575);
                let lc = (col + r.u16(0, 2)).min(16383);
                w(if r.bool() {
                    Val::Array(lr, lc, t, res)
                } else {
                    Val::DynArray(lr, lc, t, res)
                })
            }
            68 => w(Val::Checkbox(r.bool())),
            69 => w(Val::OptNone),
            70..=72 => {
                let n = r.usize(4);
                Op::Row {
                    r: row,
                    c: col.min(16000),
                    v: (0..n).map(|_| gen::number(r)).collect(),
                    fmt,
                }
            }
            73..=75 => {
                let n = r.usize(4);
                Op::Column {
                    r: row.min(1_048_000),
                    c: col,
                    v: (0..n).map(|_| gen::text(r, 12, self.text)).collect(),
                    fmt,
                }
            }
            76 | 77 => {
                let (a, b) = (r.usize(3), r.usize(3));
                let v = (0..a)
                    .map(|_| (0..b).map(|_| r.range(-99, 99) as i32).collect())
                    .collect();
                let (row, col) = (row.min(1_048_000), col.min(16000));
                if r.bool() {
                    Op::RowMatrix { r: row, c: col, v }
                } else {
                    Op::ColMatrix { r: row, c: col, v }
                }
            }
            78..=82 => Op::Clear(row, col),
            83..=85 => Op::ClearFormat(row, col),
            86..=88 if nf > 0 => Op::CellFormat(row, col, r.usize(nf)),
            89..=91 if nf > 0 => {
                let lr = (row + r.u32(0, 3)).min(1_048_575);
                let lc = (col + r.u16(0, 3)).min(16383);
                Op::RangeFormat(row, col, lr, lc, r.usize(nf))
            }
            92 => {
                let s = result_text(r).unwrap_or_default();
                if s.is_empty() {
                    Op::FormulaResult(row, col, "42".into())
                } else {
                    Op::FormulaResult(row, col, s)
                }
            }
            93 => Op::DefaultResult((*r.pick(&["0", "1.5", "x", "TRUE"])).into()),
            94 if self.rowcol_formats && nf > 0 => Op::RowFormat(row, r.usize(nf)),
            95 if self.rowcol_formats && nf > 0 => Op::ColFormat(col, r.usize(nf)),
            96 => match r.below(4) {
                0 => Op::NanValue(gen::text(r, 8, gen::PLAIN)),
                1 => Op::InfValue(gen::text(r, 8, gen::PLAIN)),
                _ => Op::NegInfValue(gen::text(r, 8, gen::PLAIN)),
            },
            97 if self.rowcol_formats => Op::RowHeight(row, r.range(1, 200) as f64 / 2.0),
            98 if self.rowcol_formats => Op::ColWidth(col, r.range(1, 60) as f64),
            _ => w(Val::Str(gen::text(r, 30, self.text))),
        }
    }
}

/// Effective style facts of a cell position in a decoded sheet.
pub fn effective_facts(b: &Book, s: &Sheet, r: u32, c: u16) -> Facts {
    let mut xf = 0;
    if let Some(cell) = s.cells.get(&(r, c)) {
        xf = cell.s;
    } else {
        let row = s.rows.get(&r).and_then(|x| x.s);
        if let Some(x) = row {
            xf = x;
        } else if let Some(col) = s.col(c) {
            xf = col.s;
        }
    }
    norm(b.style(xf))
}

/// Compare a decoded sheet with the model.
pub fn compare(ctx: &mut Ctx, b: &Book, s: &Sheet, g: &Grid, values: bool, formats: bool) {
    for ((r, c), m) in &g.cells {
        let at = crate::book::a1(*r, *c);
        match s.cells.get(&(*r, *c)) {
            None => {
                if values {
                    ctx.check(m.v == V::Blank && m.f.is_none(), "cell-missing", || {
                        format!("{}!{at} missing, expected {:?}", s.name, m)
                    });
                }
            }
            Some(cell) => {
                if values {
                    ctx.check(cell.v == m.v, "cell-value", || {
                        format!("{}!{at}: got {:?}, expected {:?}", s.name, cell.v, m.v)
                    });
                    ctx.check(cell.f == m.f, "cell-formula", || {
                        format!("{}!{at}: got {:?}, expected {:?}", s.name, cell.f, m.f)
                    });
                    ctx.check(cell.cm.is_some() == m.dynamic, "cell-dynamic", || {
                        format!("{}!{at}: cm {:?}, dynamic {}", s.name, cell.cm, m.dynamic)
                    });
                }
            }
        }
        if formats {
            let got = effective_facts(b, s, *r, *c);
            let want = norm(&g.effective(*r, *c).facts());
            ctx.check(got == want, "cell-format", || {
                format!("{}!{at}: {}", s.name, diff(&got, &want))
            });
        }
    }
    if values {
        for ((r, c), cell) in &s.cells {
            // A blank that looks like its row or column is no cell at all.
            let invisible = cell.v == V::Blank
                && cell.f.is_none()
                && norm(b.style(cell.s)) == norm(&g.effective(*r, *c).facts());
            ctx.check(
                g.cells.contains_key(&(*r, *c)) || invisible,
                "cell-extra",
                || {
                    format!(
                        "{}!{}: unexpected {:?}",
                        s.name,
                        crate::book::a1(*r, *c),
                        cell
                    )
                },
            );
        }
        // The declared dimension covers every cell.
        if let Some((r1, c1, r2, c2)) = crate::book::parse_range(&s.dimension) {
            for (r, c) in s.cells.keys() {
                if !(r1 <= *r && *r <= r2 && c1 <= *c && *c <= c2) {
                    ctx.fail(
                        "dimension",
                        format!(
                            "{}: {} outside {}",
                            s.name,
                            crate::book::a1(*r, *c),
                            s.dimension
                        ),
                    );
                }
            }
        } else {
            ctx.fail(
                "dimension-ref",
                format!("{}: bad dimension {:?}", s.name, s.dimension),
            );
        }
    }
    ctx.add("cells", g.cells.len() as u64);
}

/// How a worksheet is created and attached to its workbook.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Std,
    Low,
    Const,
    Push,
    PushLow,
    PushConst,
}

impl Mode {
    pub fn any(r: &mut Rng) -> Mode {
        *r.pick(&[
            Mode::Std,
            Mode::Std,
            Mode::Low,
            Mode::Const,
            Mode::Push,
            Mode::PushLow,
            Mode::PushConst,
        ])
    }
    /// Modes that allow writing rows in any order.
    pub fn random_access(r: &mut Rng) -> Mode {
        *r.pick(&[Mode::Std, Mode::Push])
    }
    /// Rows are flushed as they are passed.
    pub fn constant(self) -> bool {
        !matches!(self, Mode::Std | Mode::Push)
    }
}

impl Mode {
    pub fn low(self) -> bool {
        matches!(self, Mode::Low | Mode::PushLow)
    }
}

/// Several worksheets of different modes, addressed by number.
pub struct Sheets {
    pub wb: rust_xlsxwriter::Workbook,
    own: Vec<Option<Worksheet>>,
    at: Vec<usize>,
    pub names: Vec<String>,
    pub modes: Vec<Mode>,
}

impl Sheets {
    pub fn new(modes: &[Mode]) -> Sheets {
        let mut wb = rust_xlsxwriter::Workbook::new();
        let mut own = vec![];
        let mut at = vec![];
        let mut names = vec![];
        let mut n = 0;
        for (i, m) in modes.iter().enumerate() {
            let name = format!("S{i}");
            let mut o = None;
            match m {
                Mode::Std => {
                    let _ = wb.add_worksheet().set_name(&name);
                }
                Mode::Low => {
                    let _ = wb.add_worksheet_with_low_memory().set_name(&name);
                }
                Mode::Const => {
                    let _ = wb.add_worksheet_with_constant_memory().set_name(&name);
                }
                Mode::Push => o = Some(Worksheet::new()),
                Mode::PushLow => o = Some(wb.new_worksheet_with_low_memory()),
                Mode::PushConst => o = Some(wb.new_worksheet_with_constant_memory()),
            }
            if let Some(ws) = &mut o {
                let _ = ws.set_name(&name);
                at.push(usize::MAX);
            } else {
                at.push(n);
                n += 1;
            }
            own.push(o);
            names.push(name);
        }
        Sheets {
            wb,
            own,
            at,
            names,
            modes: modes.to_vec(),
        }
    }
    pub fn ws(&mut self, i: usize) -> &mut Worksheet {
        if self.own[i].is_some() {
            self.own[i].as_mut().unwrap()
        } else {
            let k = self.at[i];
            self.wb.worksheet_from_index(k).unwrap()
        }
    }
    /// Attach every sheet that is still owned here.
    pub fn attach(&mut self) {
        for i in 0..self.own.len() {
            if let Some(w) = self.own[i].take() {
                self.wb.push_worksheet(w);
                self.at[i] = self.wb.worksheets().len() - 1;
            }
        }
    }
    pub fn save(&mut self) -> Result<Vec<u8>, XlsxError> {
        self.attach();
        self.wb.save_to_buffer()
    }
}

/// Save and decode, reporting failures.
pub fn save_open(ctx: &mut Ctx, s: &mut Sheets) -> Option<Book> {
    let r = s.save();
    open_result(ctx, r)
}

pub fn open_wb(ctx: &mut Ctx, wb: &mut rust_xlsxwriter::Workbook) -> Option<Book> {
    let r = wb.save_to_buffer();
    open_result(ctx, r)
}

pub fn open_result(ctx: &mut Ctx, r: Result<Vec<u8>, XlsxError>) -> Option<Book> {
    let buf = match r {
        Ok(b) => b,
        Err(e) => {
            ctx.fail("save", format!("save failed: {e}"));
            return None;
        }
    };
    ctx.artifact = Some(buf.clone());
    match Book::open(&buf) {
        Ok(b) => Some(b),
        Err(e) => {
            ctx.fail("decode", e);
            None
        }
    }
}
