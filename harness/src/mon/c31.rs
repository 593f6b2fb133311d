//! C31 formulas.

use crate::book::{a1, a1_range, Book, V};
use crate::gen::{self, FModel, Fmt};
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::{open_wb, result_value, Mode, Sheets};
use rust_xlsxwriter::{
    ConditionalFormatFormula, DataValidation, Format, Formula, Table, TableColumn, TableFunction, XlsxError,
};
use std::collections::{BTreeMap, BTreeSet};

/// Functions newer than the file format, from the documentation of the library.
const FUTURE: &[&str] = &[
    "_xlfn.ACOTH",
    "_xlfn.ACOT",
    "_xlfn.AGGREGATE",
    "_xlfn.ARABIC",
    "_xlfn.ARRAYTOTEXT",
    "_xlfn.BASE",
    "_xlfn.BETA.DIST",
    "_xlfn.BETA.INV",
    "_xlfn.BINOM.DIST.RANGE",
    "_xlfn.BINOM.DIST",
    "_xlfn.BINOM.INV",
    "_xlfn.BITAND",
    "_xlfn.BITLSHIFT",
    "_xlfn.BITOR",
    "_xlfn.BITRSHIFT",
    "_xlfn.BITXOR",
    "_xlfn.CEILING.MATH",
    "_xlfn.CEILING.PRECISE",
    "_xlfn.CHISQ.DIST.RT",
    "_xlfn.CHISQ.DIST",
    "_xlfn.CHISQ.INV.RT",
    "_xlfn.CHISQ.INV",
    "_xlfn.CHISQ.TEST",
    "_xlfn.COMBINA",
    "_xlfn.CONCAT",
    "_xlfn.CONFIDENCE.NORM",
    "_xlfn.CONFIDENCE.T",
    "_xlfn.COTH",
    "_xlfn.COT",
    "_xlfn.COVARIANCE.P",
    "_xlfn.COVARIANCE.S",
    "_xlfn.CSCH",
    "_xlfn.CSC",
    "_xlfn.DAYS",
    "_xlfn.DECIMAL",
    "_xlfn.ERF.PRECISE",
    "_xlfn.ERFC.PRECISE",
    "_xlfn.EXPON.DIST",
    "_xlfn.F.DIST.RT",
    "_xlfn.F.DIST",
    "_xlfn.F.INV.RT",
    "_xlfn.F.INV",
    "_xlfn.F.TEST",
    "_xlfn.FIELDVALUE",
    "_xlfn.FILTERXML",
    "_xlfn.FLOOR.MATH",
    "_xlfn.FLOOR.PRECISE",
    "_xlfn.FORECAST.ETS.CONFINT",
    "_xlfn.FORECAST.ETS.SEASONALITY",
    "_xlfn.FORECAST.ETS.STAT",
    "_xlfn.FORECAST.ETS",
    "_xlfn.FORECAST.LINEAR",
    "_xlfn.FORMULATEXT",
    "_xlfn.GAMMA.DIST",
    "_xlfn.GAMMA.INV",
    "_xlfn.GAMMALN.PRECISE",
    "_xlfn.GAMMA",
    "_xlfn.GAUSS",
    "_xlfn.HYPGEOM.DIST",
    "_xlfn.IFNA",
    "_xlfn.IFS",
    "_xlfn.IMAGE",
    "_xlfn.IMCOSH",
    "_xlfn.IMCOT",
    "_xlfn.IMCSCH",
    "_xlfn.IMCSC",
    "_xlfn.IMSECH",
    "_xlfn.IMSEC",
    "_xlfn.IMSINH",
    "_xlfn.IMTAN",
    "_xlfn.ISFORMULA",
    "_xlfn.ISOMITTED",
    "_xlfn.ISOWEEKNUM",
    "_xlfn.LET",
    "_xlfn.LOGNORM.DIST",
    "_xlfn.LOGNORM.INV",
    "_xlfn.MAXIFS",
    "_xlfn.MINIFS",
    "_xlfn.MODE.MULT",
    "_xlfn.MODE.SNGL",
    "_xlfn.MUNIT",
    "_xlfn.NEGBINOM.DIST",
    "_xlfn.NORM.DIST",
    "_xlfn.NORM.INV",
    "_xlfn.NORM.S.DIST",
    "_xlfn.NORM.S.INV",
    "_xlfn.NUMBERVALUE",
    "_xlfn.PDURATION",
    "_xlfn.PERCENTILE.EXC",
    "_xlfn.PERCENTILE.INC",
    "_xlfn.PERCENTRANK.EXC",
    "_xlfn.PERCENTRANK.INC",
    "_xlfn.PERMUTATIONA",
    "_xlfn.PHI",
    "_xlfn.POISSON.DIST",
    "_xlfn.PQSOURCE",
    "_xlfn.PYTHON_STR",
    "_xlfn.PYTHON_TYPE",
    "_xlfn.PYTHON_TYPENAME",
    "_xlfn.QUARTILE.EXC",
    "_xlfn.QUARTILE.INC",
    "_xlfn.QUERYSTRING",
    "_xlfn.RANK.AVG",
    "_xlfn.RANK.EQ",
    "_xlfn.RRI",
    "_xlfn.SECH",
    "_xlfn.SEC",
    "_xlfn.SHEETS",
    "_xlfn.SHEET",
    "_xlfn.SKEW.P",
    "_xlfn.STDEV.P",
    "_xlfn.STDEV.S",
    "_xlfn.T.DIST.2T",
    "_xlfn.T.DIST.RT",
    "_xlfn.T.DIST",
    "_xlfn.T.INV.2T",
    "_xlfn.T.INV",
    "_xlfn.T.TEST",
    "_xlfn.TEXTAFTER",
    "_xlfn.TEXTBEFORE",
    "_xlfn.TEXTJOIN",
    "_xlfn.UNICHAR",
    "_xlfn.UNICODE",
    "_xlfn.VALUETOTEXT",
    "_xlfn.VAR.P",
    "_xlfn.VAR.S",
    "_xlfn.WEBSERVICE",
    "_xlfn.WEIBULL.DIST",
    "_xlfn.XMATCH",
    "_xlfn.XOR",
    "_xlfn.Z.TEST",
];

const DYNAMIC: &[&str] = &[
    "_xlfn.ANCHORARRAY",
    "_xlfn.BYCOL",
    "_xlfn.BYROW",
    "_xlfn.CHOOSECOLS",
    "_xlfn.CHOOSEROWS",
    "_xlfn.DROP",
    "_xlfn.EXPAND",
    "_xlfn._xlws.FILTER",
    "_xlfn.HSTACK",
    "_xlfn.LAMBDA",
    "_xlfn.MAKEARRAY",
    "_xlfn.MAP",
    "_xlfn._xlws.PY",
    "_xlfn.RANDARRAY",
    "_xlfn.REDUCE",
    "_xlfn.SCAN",
    "_xlfn.SINGLE",
    "_xlfn.SEQUENCE",
    "_xlfn._xlws.SORT",
    "_xlfn.SORTBY",
    "_xlfn.SWITCH",
    "_xlfn.TAKE",
    "_xlfn.TEXTSPLIT",
    "_xlfn.TOCOL",
    "_xlfn.TOROW",
    "_xlfn.UNIQUE",
    "_xlfn.VSTACK",
    "_xlfn.WRAPCOLS",
    "_xlfn.WRAPROWS",
    "_xlfn.XLOOKUP",
];

const OLD: &[&str] = &[
    "SUM", "IF", "MAX", "INDEX", "LOG10", "ATAN2", "VLOOKUP", "SUMPRODUCT", "ISO.CEILING", "NETWORKDAYS.INTL",
    "WORKDAY.INTL", "T", "N", "FLOOR", "RANK", "NOW", "DAYS360", "ERF", "FORECAST", "SUBTOTAL", "PERCENTILE",
];

/// A formula as written and as it should be stored.
#[derive(Clone, Debug, Default)]
struct Text {
    given: String,
    stored: String,
    dynamic: bool,
    kinds: BTreeSet<&'static str>,
}

impl Text {
    fn both(&mut self, s: &str) {
        self.given.push_str(s);
        self.stored.push_str(s);
    }
}

fn base(f: &str) -> &str {
    let f = f.strip_prefix("_xlfn.").unwrap_or(f);
    f.strip_prefix("_xlws.").unwrap_or(f)
}

/// Text that would be a call of a new function were it not quoted.
fn bait(r: &mut Rng) -> String {
    let f = base(if r.bool() { *r.pick(FUTURE) } else { *r.pick(DYNAMIC) });
    match r.below(6) {
        0 => format!("{f}("),
        1 => format!(" {f}(A1)"),
        2 => format!("x{f}(1)"),
        3 => format!("{f}"),
        4 => format!("_xlfn.{f}(A1)"),
        _ => format!("é{f}(a) <&> {f}(b)"),
    }
}

fn string_literal(r: &mut Rng) -> String {
    let mut s = String::from("\"");
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 => s.push_str("\"\""),
            1 => s.push_str(&bait(r)),
            2 => s.push('\''),
            3 => s.push_str("[x"),
            4 => s.push_str("{}="),
            _ => s.push_str(&gen::word(r)),
        }
    }
    s.push('"');
    s
}

fn quoted_sheet(r: &mut Rng) -> String {
    let mut s = String::from("'");
    if r.one_in(4) {
        s.push_str("[Book 1.xlsx]");
    }
    for _ in 0..r.u16(1, 3) {
        match r.below(5) {
            0 => s.push_str("it''s"),
            1 | 2 => s.push_str(&bait(r)),
            3 => s.push_str("say \"x"),
            _ => s.push_str(&gen::word(r)),
        }
    }
    s.push_str("'!");
    s
}

/// A call of a function that isn't one of Excel's.
fn user_function(r: &mut Rng) -> String {
    let f = base(if r.bool() { *r.pick(FUTURE) } else { *r.pick(DYNAMIC) });
    match r.below(11) {
        0 => format!("my_{f}"),
        1 => format!("_{f}"),
        2 => format!("X{f}"),
        3 => format!("{f}.X"),
        4 => format!("{f}_2"),
        5 => format!("{f}2X"),
        6 => format!("é{f}"),
        7 => format!("{f}é"),
        8 => format!("my{f}"),
        9 => format!("MY.{f}"),
        _ => format!("\\{f}"),
    }
}

fn piece(r: &mut Rng, t: &mut Text, depth: u32, escaped: bool) {
    match r.below(if depth > 3 { 9 } else { 15 }) {
        0 => t.both(&format!("{}", r.u32(0, 100_000))),
        1 => t.both(*r.pick(&["1.5", "0.25", "1E+10", ".5", "5%", "TRUE", "#N/A", "-3", "2^3"])),
        2 => {
            let s = a1(r.u32(0, 1_048_575), r.u16(0, 16_383));
            t.both(&s);
        }
        3 => t.both(*r.pick(&["$A$1", "B$2", "$C3", "A1:B2", "A:A", "1:3", "Sheet1!A1", "S0!$A$1:$B$2", "(A1,B2)"])),
        4 => {
            let s = string_literal(r);
            t.both(&s);
            t.kinds.insert("string literals");
        }
        5 => {
            let s = quoted_sheet(r);
            t.both(&s);
            t.both("A1");
            t.kinds.insert("quoted sheets");
        }
        6 => {
            let s = match r.below(5) {
                0 => format!("Table1[{}]", bait(r).replace(['[', ']', '#', '@'], "")),
                1 => format!("Table1[[#All],[{}]]", gen::word(r)),
                2 => format!("Table1[[#Data],[{}]:[{}]]", bait(r), gen::word(r)),
                3 => format!("Table1[a'[{}'] b]", bait(r)),
                _ => format!("[Book1.xlsx]Sheet1!A{}", r.u32(1, 9)),
            };
            t.both(&s);
            t.kinds.insert("bracketed references");
        }
        7 => t.both(*r.pick(&["{1,2,3}", "{1;2;3}", "{\"SORT(\",2;3,4}", "{TRUE}", "{#N/A,-1}"])),
        8 => {
            let f = base(if r.bool() { *r.pick(FUTURE) } else { *r.pick(DYNAMIC) });
            // The name alone isn't a call.
            t.both(&format!("{f}"));
            t.both(*r.pick(&["", "_1", ".A"]));
            t.kinds.insert("names");
        }
        9 | 10 => {
            let f = *r.pick(OLD);
            t.both(f);
            args(r, t, depth, escaped);
        }
        11 => {
            let f = user_function(r);
            t.both(&f);
            args(r, t, depth, escaped);
            t.kinds.insert("user functions");
        }
        12 | 13 => {
            let f = *r.pick(FUTURE);
            t.given.push_str(if escaped { f } else { base(f) });
            t.stored.push_str(f);
            args(r, t, depth, escaped);
            t.kinds.insert("new functions");
        }
        _ => {
            let f = *r.pick(DYNAMIC);
            t.given.push_str(if escaped { f } else { base(f) });
            t.stored.push_str(f);
            t.dynamic = true;
            args(r, t, depth, escaped);
            t.kinds.insert("dynamic functions");
        }
    }
}

fn args(r: &mut Rng, t: &mut Text, depth: u32, escaped: bool) {
    t.both("(");
    let n = r.below(4);
    for k in 0..n {
        if k > 0 {
            t.both(*r.pick(&[",", ", ", ",\n"]));
        }
        if !r.one_in(8) {
            expr(r, t, depth + 1, escaped);
        }
    }
    t.both(")");
}

fn expr(r: &mut Rng, t: &mut Text, depth: u32, escaped: bool) {
    if r.one_in(10) {
        t.both(*r.pick(&["-", "+", "@", "--"]));
    }
    piece(r, t, depth, escaped);
    for _ in 0..r.below(3) {
        t.both(*r.pick(&["+", "-", "*", "/", "&", "=", "<>", ">=", "^", " + ", "&"]));
        if r.one_in(6) && depth < 4 {
            t.both("(");
            expr(r, t, depth + 1, escaped);
            t.both(")");
        } else {
            piece(r, t, depth, escaped);
        }
    }
}

/// A formula without the decorations that are removed. Formulas of every
/// entry point start with something other than a brace.
fn formula(r: &mut Rng) -> Text {
    loop {
        let mut t = Text::default();
        let escaped = r.one_in(5);
        expr(r, &mut t, 0, escaped);
        if t.given.len() < 4000 && !t.given.starts_with(['{', '=', ' ', '\n']) {
            return t;
        }
    }
}

/// Adds what is removed from a formula.
fn decorate(r: &mut Rng, t: &mut Text) {
    match r.below(4) {
        0 => t.given.insert(0, '='),
        1 => {
            t.given.insert_str(0, "{=");
            t.given.push('}');
            t.kinds.insert("braces");
        }
        2 if t.given.ends_with('}') => t.given.insert(0, '='),
        _ => {}
    }
}

#[derive(Clone, Debug)]
struct Want {
    text: String,
    range: Option<String>,
    dynamic: bool,
    result: Option<String>,
    fmt: Option<FModel>,
}

#[derive(Default)]
struct Model {
    formulas: BTreeMap<(u32, u16), Want>,
    pads: BTreeMap<(u32, u16), Option<FModel>>,
    used: BTreeSet<(u32, u16)>,
    /// Stored text of the formulas of validations, conditional formats and
    /// table columns.
    validations: BTreeMap<String, String>,
    conditions: BTreeMap<String, String>,
    columns: Vec<(String, String)>,
    default: String,
    row: u32,
}

fn result(r: &mut Rng) -> String {
    match r.below(6) {
        0 => format!("{}", r.u32(0, 1000)),
        1 => (*r.pick(&["TRUE", "FALSE", "#N/A", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#NULL!"])).to_string(),
        2 => (*r.pick(&["-1.5", "1e3", "true", "#n/a", "TRUE ", "nan", "inf", "NaN", "1,5", "0x10", "- 1"])).to_string(),
        _ => loop {
            let t = gen::text(r, 10, gen::ALL);
            if !t.trim().is_empty() {
                return t;
            }
        },
    }
}

fn verify(ctx: &mut Ctx, b: &Book, name: &str, m: &Model) {
    let Some(s) = b.sheet(name) else {
        ctx.fail("sheet", format!("{name} is missing"));
        return;
    };
    for ((r, c), w) in &m.formulas {
        let at = format!("{name}!{}", a1(*r, *c));
        let Some(cell) = s.cells.get(&(*r, *c)) else {
            ctx.fail("missing", at);
            continue;
        };
        let Some(f) = &cell.f else {
            ctx.fail("no formula", format!("{at}: {cell:?}"));
            continue;
        };
        ctx.eq(&f.text.trim(), &w.text.trim(), "text", &at);
        ctx.eq(&f.array_ref, &w.range, "range", &at);
        ctx.eq(&cell.cm.is_some(), &w.dynamic, "dynamic", &at);
        let want = result_value(w.result.as_deref().unwrap_or(&m.default));
        ctx.eq(&cell.v, &want, "result", &at);
        let want = gen::norm(&w.fmt.clone().unwrap_or_else(FModel::new).facts());
        let got = gen::norm(b.style(cell.s));
        ctx.check(got == want, "format", || format!("{at}: {}", gen::diff(&got, &want)));
    }
    for ((r, c), f) in &m.pads {
        let at = format!("{name}!{}", a1(*r, *c));
        let Some(cell) = s.cells.get(&(*r, *c)) else {
            ctx.fail("array cell", at);
            continue;
        };
        ctx.check(cell.v == V::num(0.0) && cell.f.is_none(), "array cell", || format!("{at}: {cell:?}"));
        let want = gen::norm(&f.clone().unwrap_or_else(FModel::new).facts());
        let got = gen::norm(b.style(cell.s));
        ctx.check(got == want, "format", || format!("{at}: {}", gen::diff(&got, &want)));
    }
    let mut dv = BTreeMap::new();
    if let Some(t) = s.xml.child("dataValidations") {
        for e in t.children("dataValidation") {
            dv.insert(e.attr("sqref").unwrap_or("").to_string(), e.child_text("formula1").unwrap_or_default());
        }
    }
    ctx.eq(&dv, &m.validations, "validation", name);
    let mut cf = BTreeMap::new();
    for e in s.xml.children("conditionalFormatting") {
        for rule in e.children("cfRule") {
            cf.insert(e.attr("sqref").unwrap_or("").to_string(), rule.child_text("formula").unwrap_or_default());
        }
    }
    ctx.eq(&cf, &m.conditions, "condition", name);
    let mut columns = vec![];
    for p in b.related(&s.rels, "table") {
        if let Ok(t) = b.pkg.xml(&p) {
            for c in t.path("tableColumns").map(|c| c.children("tableColumn").collect::<Vec<_>>()).unwrap_or_default() {
                columns.push((c.child_text("calculatedColumnFormula").unwrap_or_default(), c.child_text("totalsRowFormula").unwrap_or_default()));
            }
        }
    }
    ctx.eq(&columns, &m.columns, "table formulas", name);
}

pub fn case(ctx: &mut Ctx) {
    let n = ctx.rng.u16(1, 3) as usize;
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let mut ms: Vec<Model> = (0..n).map(|_| Model::default()).collect();
    let mut kinds = BTreeSet::new();
    let mut total = 0u64;
    for i in 0..n {
        let m = &mut ms[i];
        m.default = "0".to_string();
        if ctx.rng.one_in(4) {
            let d = result(&mut ctx.rng);
            ctx.log(format!("{}: default result {d:?}", sh.names[i]));
            sh.ws(i).set_formula_result_default(d.as_str());
            m.default = d;
        }
    }
    for _ in 0..ctx.rng.u16(3, 30) {
        let i = ctx.rng.usize(n);
        let constant = modes[i].constant();
        let name = sh.names[i].clone();
        let mut t = formula(&mut ctx.rng);
        let m = &mut ms[i];
        // The other places for formulas.
        match ctx.rng.below(12) {
            0 => {
                decorate(&mut ctx.rng, &mut t);
                if t.stored.chars().count() > 250 || t.given.contains('"') {
                    continue;
                }
                let at = (ctx.rng.u32(100, 160), ctx.rng.u16(0, 3));
                ctx.log(format!("{name}: validation {} {:?}", a1(at.0, at.1), t.given));
                let dv = DataValidation::new().allow_custom(Formula::new(&t.given));
                if let Err(e) = sh.ws(i).add_data_validation(at.0, at.1, at.0, at.1, &dv) {
                    ctx.fail("validation result", format!("{e}"));
                    return;
                }
                m.validations.insert(a1(at.0, at.1), t.stored);
                continue;
            }
            1 => {
                decorate(&mut ctx.rng, &mut t);
                let at = (ctx.rng.u32(100, 160), ctx.rng.u16(4, 6));
                if m.conditions.contains_key(&a1(at.0, at.1)) {
                    continue;
                }
                ctx.log(format!("{name}: condition {} {:?}", a1(at.0, at.1), t.given));
                let cf = ConditionalFormatFormula::new().set_rule(t.given.as_str());
                if let Err(e) = sh.ws(i).add_conditional_format(at.0, at.1, at.0, at.1, &cf) {
                    ctx.fail("condition result", format!("{e}"));
                    return;
                }
                m.conditions.insert(a1(at.0, at.1), t.stored);
                continue;
            }
            2 if !constant && m.columns.len() < 8 => {
                if t.given.contains('@') || t.given.contains('\n') {
                    continue;
                }
                decorate(&mut ctx.rng, &mut t);
                let mut u = formula(&mut ctx.rng);
                if u.given.contains('@') || u.given.contains('\n') {
                    continue;
                }
                decorate(&mut ctx.rng, &mut u);
                ctx.log(format!("{name}: table {:?} {:?}", t.given, u.given));
                let k = 200 + 10 * m.columns.len() as u32;
                let cols = vec![
                    TableColumn::new().set_formula(t.given.as_str()),
                    TableColumn::new().set_total_function(TableFunction::Custom(Formula::new(&u.given))),
                ];
                let table = Table::new().set_columns(&cols).set_total_row(true);
                if let Err(e) = sh.ws(i).add_table(k, 0, k + 3, 1, &table) {
                    ctx.fail("table result", format!("{e}"));
                    return;
                }
                m.columns.push((t.stored.clone(), String::new()));
                m.columns.push((String::new(), u.stored.clone()));
                for r in 1..3 {
                    m.formulas.insert(
                        (k + r, 0),
                        Want {
                            text: t.stored.clone(),
                            range: None,
                            dynamic: false,
                            result: None,
                            fmt: None,
                        },
                    );
                }
                m.formulas.insert(
                    (k + 3, 1),
                    Want {
                        text: u.stored.clone(),
                        range: None,
                        dynamic: false,
                        result: None,
                        fmt: None,
                    },
                );
                if t.dynamic || u.dynamic {
                    // A dynamic formula in a table isn't valid in Excel.
                    ctx.log("left out");
                    return;
                }
                continue;
            }
            _ => {}
        }
        decorate(&mut ctx.rng, &mut t);
        // A cell or a range.
        if constant {
            m.row += u32::from(ctx.rng.one_in(3));
        } else {
            m.row = ctx.rng.u32(0, 30);
        }
        let (r1, c1) = (m.row, ctx.rng.u16(0, 12));
        let entry = ctx.rng.below(8);
        let array = entry >= 4 && entry < 7;
        let (r2, c2) = if array && ctx.rng.bool() {
            (r1 + ctx.rng.u32(0, 3), c1 + ctx.rng.u16(0, 3))
        } else {
            (r1, c1)
        };
        let mut cells = vec![];
        for r in r1..=r2 {
            for c in c1..=c2 {
                cells.push((r, c));
            }
        }
        if cells.iter().any(|p| m.used.contains(p)) {
            continue;
        }
        let fmt = ctx.rng.one_in(4).then(|| Fmt::nondefault(&mut ctx.rng, 3));
        let mut f = Formula::new(&t.given);
        let mut res = None;
        if ctx.rng.one_in(3) {
            let v = result(&mut ctx.rng);
            f = f.set_result(v.as_str());
            res = Some(v);
        }
        ctx.log(format!(
            "{name}!{}: entry {entry} {:?} result {res:?} format {:?}",
            a1_range(r1, c1, r2, c2),
            t.given,
            fmt.as_ref().map(|f| &f.desc)
        ));
        let ff: Option<&Format> = fmt.as_ref().map(|f| &f.f);
        let ws = sh.ws(i);
        let done: Result<(), XlsxError> = match (entry, ff) {
            (0, None) => ws.write_formula(r1, c1, f),
            (0, Some(x)) => ws.write_formula_with_format(r1, c1, f, x),
            (1 | 2, None) => ws.write(r1, c1, f),
            (1 | 2, Some(x)) => ws.write_with_format(r1, c1, f, x),
            (3, None) => ws.write_dynamic_formula(r1, c1, f),
            (3, Some(x)) => ws.write_dynamic_formula_with_format(r1, c1, f, x),
            (4 | 5, None) => ws.write_array_formula(r1, c1, r2, c2, f),
            (4 | 5, Some(x)) => ws.write_array_formula_with_format(r1, c1, r2, c2, f, x),
            (6, None) => ws.write_dynamic_array_formula(r1, c1, r2, c2, f),
            (6, Some(x)) => ws.write_dynamic_array_formula_with_format(r1, c1, r2, c2, f, x),
            (_, None) => ws.write_formula(r1, c1, &f),
            (_, Some(x)) => ws.write_formula_with_format(r1, c1, &f, x),
        }
        .map(|_| ());
        if let Err(e) = done {
            ctx.fail("result", format!("formula refused: {e}"));
            return;
        }
        let dynamic = t.dynamic || entry == 3 || entry == 6;
        let range = (array || dynamic).then(|| a1_range(r1, c1, r2, c2));
        let fm = fmt.map(|f| f.m);
        for p in &cells {
            m.used.insert(*p);
            if *p != (r1, c1) {
                m.pads.insert(*p, fm.clone());
            }
        }
        m.formulas.insert(
            (r1, c1),
            Want {
                text: t.stored,
                range,
                dynamic,
                result: res,
                fmt: fm,
            },
        );
        kinds.extend(t.kinds);
        total += 1;
        // A later result, for this or another formula.
        if ctx.rng.one_in(5) {
            let at = if ctx.rng.bool() {
                (r1, c1)
            } else {
                let k: Vec<_> = m.formulas.keys().copied().collect();
                *ctx.rng.pick(&k)
            };
            let v = result(&mut ctx.rng);
            // Rows that were passed in constant memory mode are written already,
            // and their results would go to the current row.
            if constant && at.0 < m.row {
                continue;
            }
            ctx.log(format!("{name}!{}: set result {v:?}", a1(at.0, at.1)));
            sh.ws(i).set_formula_result(at.0, at.1, v.as_str());
            if let Some(w) = m.formulas.get_mut(&at) {
                w.result = Some(v);
            }
        }
    }
    sh.attach();
    let Some(b) = open_wb(ctx, &mut sh.wb) else { return };
    let dynamic = ms.iter().any(|m| m.formulas.values().any(|w| w.dynamic));
    let meta = b.pkg.parts.keys().any(|k| k == "xl/metadata.xml");
    ctx.eq(&meta, &dynamic, "metadata part", "workbook");
    for (i, m) in ms.iter().enumerate() {
        let name = sh.names[i].clone();
        verify(ctx, &b, &name, m);
    }
    ctx.add("formulas", total);
    for k in &kinds {
        ctx.count(k);
    }
    if total > 2 {
        ctx.nontrivial = true;
    }
}
