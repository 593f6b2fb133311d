//! C21 data validations.

use crate::book::{a1_range, Book, Sheet};
use crate::gen::{self, TextOpt};
use crate::mon::c20::{place, same_text};
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use crate::xml::xstring;
use rust_xlsxwriter::{
    DataValidation, DataValidationErrorStyle, DataValidationRule, ExcelDateTime, Formula,
    XlsxError,
};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
struct Want {
    kind: &'static str,
    op: &'static str,
    f: Vec<String>,
    style: &'static str,
    blank: bool,
    drop: bool,
    show_in: bool,
    show_err: bool,
    texts: [String; 4],
}

const NAMES: [&str; 4] = ["promptTitle", "prompt", "errorTitle", "error"];

fn rule<T: rust_xlsxwriter::IntoDataValidationValue>(
    k: u64,
    x: T,
    y: T,
) -> (DataValidationRule<T>, &'static str, bool) {
    use DataValidationRule as R;
    match k {
        0 => (R::EqualTo(x), "equal", false),
        1 => (R::NotEqualTo(x), "notEqual", false),
        2 => (R::GreaterThan(x), "greaterThan", false),
        3 => (R::GreaterThanOrEqualTo(x), "greaterThanOrEqual", false),
        4 => (R::LessThan(x), "lessThan", false),
        5 => (R::LessThanOrEqualTo(x), "lessThanOrEqual", false),
        6 => (R::Between(x, y), "between", true),
        _ => (R::NotBetween(x, y), "notBetween", true),
    }
}

fn formula(r: &mut Rng) -> (Formula, String) {
    let f = match r.below(3) {
        0 => format!("$A${}&\"<x>\"", r.u16(1, 99)),
        1 => format!("SUM(B1:B{})", r.u16(2, 99)),
        _ => format!("'My, sheet'!C{}", r.u16(1, 99)),
    };
    let g = if r.bool() { format!("={f}") } else { f.clone() };
    (Formula::new(g), f)
}

/// Text of exactly, or about, a number of characters.
fn text(r: &mut Rng, limit: usize) -> String {
    let n = match r.below(8) {
        0 => limit,
        1 => limit + 1,
        2 => limit.saturating_sub(1),
        3 => 0,
        _ => r.usize(limit.min(20)) + 1,
    };
    let o = TextOpt {
        ctrl: false,
        breaks: true,
        nonchar: false,
        esc: true,
    };
    let mut t: Vec<char> = vec![];
    while t.len() < n {
        t.extend(gen::text(r, 12, o).chars());
        t.push('é');
    }
    t.truncate(n);
    t.into_iter().collect()
}

fn item(r: &mut Rng) -> String {
    match r.below(7) {
        0 => format!("it's <{}>", gen::word(r)),
        1 => "a\"b".into(),
        2 => format!("é{}", gen::word(r)),
        3 => format!(" {} ", gen::word(r)),
        4 => r.u16(0, 999).to_string(),
        _ => gen::word(r),
    }
}

fn one(ctx: &mut Ctx) -> Option<(DataValidation, Want)> {
    let mut dv = DataValidation::new();
    let mut w = Want {
        kind: "any",
        op: "between",
        f: vec![],
        style: "stop",
        blank: true,
        drop: true,
        show_in: true,
        show_err: true,
        texts: Default::default(),
    };
    // The last rule given counts.
    for _ in 0..if ctx.rng.one_in(5) { 2 } else { 1 } {
        let r = &mut ctx.rng;
        let k = r.below(8);
        let (fx, fxs) = formula(r);
        let (fy, fys) = formula(r);
        macro_rules! set {
            ($m:ident, $kind:expr, $x:expr, $y:expr, $xs:expr, $ys:expr) => {{
                let (c, op, two) = rule(k, $x, $y);
                dv = dv.$m(c);
                w.kind = $kind;
                w.op = op;
                w.f = vec![$xs];
                if two {
                    w.f.push($ys);
                }
            }};
        }
        match r.below(13) {
            0 => {
                let (x, y) = (r.u32(0, u32::MAX) as i32, r.u16(0, 100) as i32);
                set!(
                    allow_whole_number,
                    "whole",
                    x,
                    y,
                    x.to_string(),
                    y.to_string()
                );
            }
            1 => set!(allow_whole_number_formula, "whole", fx, fy, fxs, fys),
            2 => {
                let (x, y) = (gen::number(r), r.f01() * 1e6);
                let (x, y) = (if x.is_finite() { x } else { 0.1 }, y);
                set!(
                    allow_decimal_number,
                    "decimal",
                    x,
                    y,
                    format!("{x}"),
                    format!("{y}")
                );
            }
            3 => set!(allow_decimal_number_formula, "decimal", fx, fy, fxs, fys),
            4 => {
                let n = r.usize(9) + 1;
                let mut l: Vec<String> = (0..n).map(|_| item(r)).collect();
                if r.one_in(6) {
                    // Pad to about the limit, commas included.
                    let have = l.join(",").replace('"', "\"\"").chars().count();
                    let goal = 253 + r.usize(5);
                    if have + 1 < goal {
                        l.push("é".repeat(goal - have - 1));
                    }
                }
                let all = l.join(",").replace('"', "\"\"");
                let n = all.chars().count();
                ctx.log(format!("list of {n} characters"));
                match (dv.clone().allow_list_strings(&l), n <= 255) {
                    (Ok(x), true) => {
                        dv = x;
                        w.kind = "list";
                        w.f = vec![format!("\"{all}\"")];
                    }
                    (Err(XlsxError::DataValidationError(_)), false) => ctx.count("lists refused"),
                    (g, ok) => {
                        ctx.fail(
                            "list-limit",
                            format!("list of {n}: {:?}, expected {ok}", g.map(|_| ())),
                        );
                        return None;
                    }
                }
            }
            5 => {
                dv = dv.allow_list_formula(fx);
                w.kind = "list";
                w.f = vec![fxs];
            }
            6 | 7 => {
                let date = r.bool();
                let mut v = || {
                    let s = if date {
                        f64::from(r.u32(1, 2_958_465))
                    } else {
                        f64::from(r.u32(0, 1439)) / 1440.0
                    };
                    ExcelDateTime::from_serial_datetime(s)
                        .ok()
                        .map(|d| (d, s.to_string()))
                };
                let (Some((x, xs)), Some((y, ys))) = (v(), v()) else {
                    continue;
                };
                if date {
                    set!(allow_date, "date", &x, &y, xs, ys);
                } else {
                    set!(allow_time, "time", x, y, xs, ys);
                }
            }
            8 => set!(allow_date_formula, "date", fx, fy, fxs, fys),
            9 => set!(allow_time_formula, "time", fx, fy, fxs, fys),
            10 => {
                let (x, y) = (r.u32(0, 300), r.u32(0, u32::MAX));
                set!(
                    allow_text_length,
                    "textLength",
                    x,
                    y,
                    x.to_string(),
                    y.to_string()
                );
            }
            11 => set!(allow_text_length_formula, "textLength", fx, fy, fxs, fys),
            _ => {
                if r.bool() {
                    dv = dv.allow_custom(fx);
                    w.kind = "custom";
                    w.f = vec![fxs];
                } else {
                    dv = dv.allow_any_value();
                    w.kind = "any";
                    w.f = vec![];
                }
            }
        }
        if matches!(w.kind, "list" | "custom" | "any") {
            w.op = "between";
        }
    }
    for _ in 0..ctx.rng.usize(7) {
        let b = ctx.rng.bool();
        match ctx.rng.below(9) {
            0 => {
                dv = dv.ignore_blank(b);
                w.blank = b;
            }
            1 => {
                dv = dv.show_dropdown(b);
                w.drop = b;
            }
            2 => {
                dv = dv.show_input_message(b);
                w.show_in = b;
            }
            3 => {
                dv = dv.show_error_message(b);
                w.show_err = b;
            }
            4 => {
                let (s, n) = match ctx.rng.below(3) {
                    0 => (DataValidationErrorStyle::Stop, "stop"),
                    1 => (DataValidationErrorStyle::Warning, "warning"),
                    _ => (DataValidationErrorStyle::Information, "information"),
                };
                dv = dv.set_error_style(s);
                w.style = n;
            }
            _ => {
                let i = ctx.rng.usize(4);
                let limit = if i % 2 == 0 { 32 } else { 255 };
                let t = text(&mut ctx.rng, limit);
                let n = t.chars().count();
                let got = match i {
                    0 => dv.clone().set_input_title(&t),
                    1 => dv.clone().set_input_message(&t),
                    2 => dv.clone().set_error_title(&t),
                    _ => dv.clone().set_error_message(&t),
                };
                match (got, n <= limit) {
                    (Ok(x), true) => {
                        dv = x;
                        w.texts[i] = t;
                    }
                    (Err(XlsxError::DataValidationError(_)), false) => ctx.count("texts refused"),
                    (g, ok) => {
                        ctx.fail(
                            "text-limit",
                            format!(
                                "{} of {n} characters: {:?}, expected {ok}",
                                NAMES[i],
                                g.map(|_| ())
                            ),
                        );
                        return None;
                    }
                }
            }
        }
    }
    Some((dv, w))
}

fn verify(ctx: &mut Ctx, s: &Sheet, want: &BTreeMap<String, Want>, at: &str) {
    let mut got: BTreeMap<String, usize> = BTreeMap::new();
    let none = vec![];
    let top = s.xml.child("dataValidations");
    let list: Vec<_> = top
        .map(|t| t.children("dataValidation").collect())
        .unwrap_or(none);
    if let Some(t) = top {
        ctx.eq(&t.int("count"), &Some(list.len() as i64), "count", at);
        ctx.check(!t.flag("disablePrompts", false), "prompts", || {
            format!("{at}: prompts are disabled")
        });
    }
    for e in &list {
        let range = e.a("sqref").to_string();
        *got.entry(range.clone()).or_default() += 1;
        let me = format!("{at} {range}");
        let Some(w) = want.get(&range) else {
            ctx.fail("extra", format!("{me}: validation on a range of none"));
            continue;
        };
        let kind = e.attr("type").unwrap_or("none");
        let kind = if kind == "none" { "any" } else { kind };
        ctx.eq(&kind, &w.kind, "type", &me);
        if w.kind != "any" {
            ctx.eq(
                &e.attr("errorStyle").unwrap_or("stop"),
                &w.style,
                "style",
                &me,
            );
            if !matches!(w.kind, "list" | "custom") {
                ctx.eq(
                    &e.attr("operator").unwrap_or("between"),
                    &w.op,
                    "operator",
                    &me,
                );
            }
        }
        ctx.eq(&e.flag("allowBlank", false), &w.blank, "blank", &me);
        // The attribute says the opposite of its name.
        ctx.eq(&e.flag("showDropDown", false), &!w.drop, "dropdown", &me);
        ctx.eq(
            &e.flag("showInputMessage", false),
            &w.show_in,
            "show-input",
            &me,
        );
        ctx.eq(
            &e.flag("showErrorMessage", false),
            &w.show_err,
            "show-error",
            &me,
        );
        for (n, t) in NAMES.iter().zip(&w.texts) {
            let g = e.attr(n).map(xstring).unwrap_or_default();
            ctx.eq(&g, t, "text", &format!("{me} {n}"));
        }
        let f: Vec<String> = ["formula1", "formula2"]
            .iter()
            .filter_map(|n| e.child_text(n))
            .collect();
        let ok = f.len() == w.f.len() && f.iter().zip(&w.f).all(|(a, b)| same_text(a, b));
        ctx.check(ok, "operands", || {
            format!("{me}: operands {f:?}, want {:?}", w.f)
        });
        ctx.count(&format!("type {}", w.kind));
    }
    for k in want.keys() {
        let n = got.get(k).copied().unwrap_or(0);
        ctx.check(n == 1, "missing", || {
            format!("{at}: {n} validations on {k}")
        });
    }
    ctx.add("validations", want.len() as u64);
}

pub fn case(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.usize(3);
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let mut want: Vec<BTreeMap<String, Want>> = vec![BTreeMap::new(); n];
    for _ in 0..1 + ctx.rng.usize(10) {
        let k = ctx.rng.usize(n);
        let used: Vec<String> = want[k].keys().cloned().collect();
        let p = place(&mut ctx.rng, &used);
        let Some((mut dv, w)) = one(ctx) else {
            return;
        };
        if let Some(m) = &p.multi {
            dv = dv.set_multi_range(m);
        }
        let (mut r1, mut c1, r2, c2) = p.at;
        let mut bad = false;
        if ctx.rng.one_in(15) {
            match ctx.rng.below(3) {
                0 => r1 = r2 + 1,
                1 => c1 = c2 + 1,
                _ => r1 = 1_048_576,
            }
            bad = true;
        }
        ctx.log(format!(
            "S{k} {} multi {:?}: {w:?}",
            a1_range(r1, c1, r2, c2),
            p.multi
        ));
        let got = sh
            .ws(k)
            .add_data_validation(r1, c1, r2, c2, &dv)
            .map(|_| ());
        match (&got, bad) {
            (Ok(()), false) => {
                // One that says nothing at all is left out.
                if w.kind != "any" || w.texts.iter().any(|t| !t.is_empty()) {
                    want[k].insert(p.sqref, w);
                } else {
                    ctx.count("empty ones");
                }
            }
            (Err(_), true) => ctx.count("ranges refused"),
            _ => {
                ctx.fail(
                    "verdict",
                    format!("add_data_validation: {got:?}, bad range: {bad}"),
                );
                return;
            }
        }
        if ctx.rng.one_in(6) {
            let _ = sh.ws(k).write_string(50, 0, "x");
        }
    }
    let names = sh.names.clone();
    let Some(b): Option<Book> = save_open(ctx, &mut sh) else {
        return;
    };
    for (k, want) in want.iter().enumerate() {
        match b.sheet(&names[k]) {
            Some(s) => verify(ctx, s, want, &format!("S{k}")),
            None => ctx.fail("sheet", format!("no sheet {}", names[k])),
        }
    }
    ctx.nontrivial = want.iter().any(|w| w.len() > 1);
}
