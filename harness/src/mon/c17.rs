//! C17 autofilters.

use crate::book::{a1, parse_range, parse_sheet_range};
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use rust_xlsxwriter::{ExcelDateTime, FilterCondition, FilterCriteria, Format, Formula, Worksheet};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum D {
    Num(f64),
    Date(f64),
    Str(String),
    Rich(String),
    Blank,
    Other,
}

#[derive(Clone, Debug)]
enum Fv {
    N(f64),
    S(String),
}

const CRIT: &[(FilterCriteria, &str, &str)] = &[
    (FilterCriteria::EqualTo, "eq", "equal"),
    (FilterCriteria::NotEqualTo, "ne", "notEqual"),
    (FilterCriteria::GreaterThan, "gt", "greaterThan"),
    (
        FilterCriteria::GreaterThanOrEqualTo,
        "ge",
        "greaterThanOrEqual",
    ),
    (FilterCriteria::LessThan, "lt", "lessThan"),
    (FilterCriteria::LessThanOrEqualTo, "le", "lessThanOrEqual"),
    (FilterCriteria::BeginsWith, "begins", "equal"),
    (FilterCriteria::DoesNotBeginWith, "nbegins", "notEqual"),
    (FilterCriteria::EndsWith, "ends", "equal"),
    (FilterCriteria::DoesNotEndWith, "nends", "notEqual"),
    (FilterCriteria::Contains, "has", "equal"),
    (FilterCriteria::DoesNotContain, "nhas", "notEqual"),
];

#[derive(Clone, Debug)]
enum Cond {
    List(Vec<Fv>, bool),
    Custom(Vec<(usize, Fv)>, bool),
}

fn word(r: &mut Rng) -> String {
    let w = *r.pick(&[
        "East", "west", "NORTH", "south", "Éa", "éa", "a&b", "<x>", "10", "10.5", "-3", "eastern",
        "ea", "st", "ThE East", "\"q\"",
    ]);
    match r.below(6) {
        0 => w.to_uppercase(),
        1 => format!(" {w}"),
        2 => format!("{w} "),
        _ => w.to_string(),
    }
}

fn num(r: &mut Rng) -> f64 {
    *r.pick(&[10.0, 10.5, -3.0, 0.0, 1.0, 2.0, 1e6, 0.1, 5.0, 44000.0])
}

fn lower(s: &str) -> String {
    s.to_lowercase().trim().to_string()
}

fn show(f: &Fv) -> String {
    match f {
        Fv::N(n) => n.to_string(),
        Fv::S(s) => s.clone(),
    }
}

/// Whether a cell passes one custom condition; None where the library's
/// documentation leaves the meaning open.
fn custom(d: &D, k: usize, v: &Fv) -> Option<bool> {
    let name = CRIT[k].1;
    // Excel's spelling of "non blanks".
    if name == "ne" && matches!(v, Fv::S(s) if s == " ") {
        return Some(match d {
            D::Blank => false,
            D::Str(s) | D::Rich(s) => {
                if s.trim().is_empty() {
                    return None;
                }
                true
            }
            _ => true,
        });
    }
    match d {
        D::Str(s) | D::Rich(s) => {
            let order = matches!(name, "gt" | "ge" | "lt" | "le");
            if order && matches!(v, Fv::N(_)) {
                return None;
            }
            let (a, b) = (lower(s), lower(&show(v)));
            Some(match name {
                "eq" => a == b,
                "ne" => a != b,
                "gt" => a > b,
                "ge" => a >= b,
                "lt" => a < b,
                "le" => a <= b,
                "begins" => a.starts_with(&b),
                "nbegins" => !a.starts_with(&b),
                "ends" => a.ends_with(&b),
                "nends" => !a.ends_with(&b),
                "has" => a.contains(&b),
                _ => !a.contains(&b),
            })
        }
        D::Num(x) | D::Date(x) => {
            let Fv::N(n) = v else {
                // Text never equals a number; how Excel orders them is open.
                return match name {
                    "eq" if show(v).trim().parse::<f64>().is_err() => Some(false),
                    _ => None,
                };
            };
            match name {
                "eq" => Some(x == n),
                "ne" => Some(x != n),
                "gt" => Some(x > n),
                "ge" => Some(x >= n),
                "lt" => Some(x < n),
                "le" => Some(x <= n),
                _ => None,
            }
        }
        D::Blank => match name {
            "eq" | "begins" | "has" | "ends" => Some(false),
            _ => None,
        },
        D::Other => None,
    }
}

fn passes(d: &D, c: &Cond) -> Option<bool> {
    match c {
        Cond::List(l, blanks) => match d {
            D::Str(s) | D::Rich(s) => {
                if s.trim().is_empty() {
                    return None;
                }
                Some(l.iter().any(|f| lower(&show(f)) == lower(s)))
            }
            D::Num(n) => {
                let mut open = false;
                for f in l {
                    match f {
                        Fv::N(x) if x == n => return Some(true),
                        Fv::S(s) if s.trim().parse::<f64>().is_ok() => open = true,
                        _ => {}
                    }
                }
                if open {
                    None
                } else {
                    Some(false)
                }
            }
            D::Blank => Some(*blanks),
            D::Date(_) | D::Other => None,
        },
        Cond::Custom(v, or) => {
            let r: Vec<Option<bool>> = v.iter().map(|(k, f)| custom(d, *k, f)).collect();
            if *or && r.contains(&Some(true)) {
                return Some(true);
            }
            if !*or && r.contains(&Some(false)) {
                return Some(false);
            }
            if r.contains(&None) {
                return None;
            }
            Some(!*or || v.len() == 1 && r[0] == Some(true))
        }
    }
}

fn cond(r: &mut Rng, text: bool) -> Cond {
    let fv = |r: &mut Rng| {
        if r.pct(if text { 85 } else { 15 }) {
            Fv::S(word(r))
        } else {
            Fv::N(num(r))
        }
    };
    if r.bool() {
        let n = r.usize(4);
        let l: Vec<Fv> = (0..n).map(|_| fv(r)).collect();
        let b = l.is_empty() || r.one_in(4);
        Cond::List(l, b)
    } else {
        let n = 1 + r.usize(2);
        let v = (0..n)
            .map(|_| {
                if r.one_in(10) {
                    (1, Fv::S(" ".into()))
                } else {
                    let f = fv(r);
                    let k = match f {
                        Fv::N(_) => r.usize(6),
                        Fv::S(_) => r.usize(CRIT.len()),
                    };
                    (k, f)
                }
            })
            .collect();
        Cond::Custom(v, n == 1 || r.bool())
    }
}

fn build(c: &Cond) -> FilterCondition {
    let mut f = FilterCondition::new();
    match c {
        Cond::List(l, b) => {
            for x in l {
                f = match x {
                    Fv::N(n) if n.fract() == 0.0 && n.abs() < 1e5 => f.add_list_filter(*n as i32),
                    Fv::N(n) => f.add_list_filter(*n),
                    Fv::S(s) => f.add_list_filter(s.as_str()),
                };
            }
            if *b {
                f = f.add_list_blanks_filter();
            }
        }
        Cond::Custom(v, or) => {
            for (k, x) in v {
                f = match x {
                    Fv::N(n) => f.add_custom_filter(CRIT[*k].0, *n),
                    Fv::S(s) => f.add_custom_filter(CRIT[*k].0, s.as_str()),
                };
            }
            if *or && v.len() > 1 {
                f = f.add_custom_boolean_or();
            }
        }
    }
    f
}

/// What the file must say about one column.
fn said(c: &Cond) -> String {
    match c {
        Cond::List(l, b) => format!(
            "filters blank={b} {:?}",
            l.iter().map(show).collect::<Vec<_>>()
        ),
        Cond::Custom(v, or) => {
            let x: Vec<(String, String)> = v
                .iter()
                .map(|(k, f)| {
                    let s = show(f);
                    let t = match CRIT[*k].1 {
                        "begins" | "nbegins" => format!("{s}*"),
                        "ends" | "nends" => format!("*{s}"),
                        "has" | "nhas" => format!("*{s}*"),
                        _ => s,
                    };
                    (CRIT[*k].2.to_string(), t)
                })
                .collect();
            format!("custom and={} {x:?}", v.len() > 1 && !*or)
        }
    }
}

struct M {
    data: BTreeMap<(u32, u16), D>,
    range: Option<(u32, u16, u32, u16)>,
    conds: BTreeMap<u16, Cond>,
    user: BTreeSet<u32>,
    off: bool,
}

fn write(ctx: &mut Ctx, ws: &mut Worksheet, m: &mut M, k: usize, r: u32, c: u16) {
    let text = c % 2 == 0;
    let (d, res) = match ctx.rng.below(16) {
        0 => (D::Blank, {
            let f = Format::new().set_bold();
            ws.write_blank(r, c, &f).map(|_| ())
        }),
        1 => (
            D::Other,
            ws.write_formula(r, c, Formula::new("=1").set_result("10"))
                .map(|_| ()),
        ),
        2 => (D::Other, ws.write_boolean(r, c, true).map(|_| ())),
        3 => {
            let s = word(&mut ctx.rng);
            let b = Format::new().set_bold();
            let d = Format::default();
            let i = s.char_indices().nth(1).map_or(s.len(), |x| x.0);
            let (p, q) = s.split_at(i);
            let mut seg = vec![(&b, p)];
            if !q.is_empty() {
                seg.push((&d, q));
            }
            (
                D::Rich(s.clone()),
                ws.write_rich_string(r, c, &seg).map(|_| ()),
            )
        }
        4 if !text => {
            let t = ExcelDateTime::from_serial_datetime(44000.0);
            match t {
                Ok(t) => (D::Date(44000.0), ws.write_datetime(r, c, &t).map(|_| ())),
                Err(e) => (D::Blank, Err(e)),
            }
        }
        x => {
            if (x < 13) == text {
                let s = word(&mut ctx.rng);
                let r = ws.write_string(r, c, s.as_str()).map(|_| ());
                (D::Str(s), r)
            } else {
                let n = num(&mut ctx.rng);
                (D::Num(n), ws.write_number(r, c, n).map(|_| ()))
            }
        }
    };
    ctx.log(format!("S{k} {} = {d:?}", a1(r, c)));
    if let Err(e) = res {
        ctx.fail("rejected", e.to_string());
    }
    m.data.insert((r, c), d);
}

pub fn case(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.usize(2);
    let modes: Vec<Mode> = (0..n).map(|_| Mode::random_access(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let mut ms: Vec<M> = (0..n)
        .map(|_| M {
            data: BTreeMap::new(),
            range: None,
            conds: BTreeMap::new(),
            user: BTreeSet::new(),
            off: false,
        })
        .collect();
    let rounds = 1 + ctx.rng.usize(3);
    let (mut decided, mut open) = (0u64, 0u64);
    for round in 0..rounds {
        for k in 0..n {
            let m = &mut ms[k];
            let (h, w) = (ctx.rng.u32(1, 14), ctx.rng.u16(0, 4));
            if m.range.is_none() || ctx.rng.one_in(4) {
                let (r, c) = (ctx.rng.u32(0, 4), ctx.rng.u16(0, 3));
                let q = (r, c, r + h, c + w);
                ctx.log(format!("S{k} autofilter {q:?}"));
                if let Err(e) = sh.ws(k).autofilter(q.0, q.1, q.2, q.3) {
                    ctx.fail("rejected", e.to_string());
                }
                // A new range drops the old conditions.
                m.range = Some(q);
                m.conds.clear();
            }
            let q = m.range.unwrap_or_default();
            let ops = if round == 0 { 30 } else { 8 };
            for _ in 0..ctx.rng.usize(ops) {
                let r = ctx.rng.u32(q.0.saturating_sub(1), q.2 + 2);
                let c = ctx.rng.u16(q.1, q.3);
                write(ctx, sh.ws(k), m, k, r, c);
            }
            if round == 0 && ctx.rng.one_in(3) {
                // A dense column.
                let c = ctx.rng.u16(q.1, q.3);
                for r in q.0..=q.2 {
                    write(ctx, sh.ws(k), m, k, r, c);
                }
            }
            for _ in 0..ctx.rng.usize(4) {
                let c = ctx.rng.u16(q.1, q.3);
                let f = cond(&mut ctx.rng, c % 2 == 0);
                ctx.log(format!("S{k} filter column {c} {f:?}"));
                if let Err(e) = sh.ws(k).filter_column(c, &build(&f)) {
                    ctx.fail("rejected", e.to_string());
                }
                m.conds.insert(c, f);
            }
            for _ in 0..ctx.rng.usize(3) {
                let r = ctx.rng.u32(0, q.2 + 2);
                if ctx.rng.bool() {
                    ctx.log(format!("S{k} hide row {r}"));
                    m.user.insert(r);
                    let _ = sh.ws(k).set_row_hidden(r);
                } else {
                    ctx.log(format!("S{k} row {r} height or unhide"));
                    if ctx.rng.bool() {
                        m.user.remove(&r);
                        let _ = sh.ws(k).set_row_unhidden(r);
                    } else {
                        let _ = sh.ws(k).set_row_height(r, 22);
                    }
                }
            }
            if ctx.rng.one_in(25) {
                ctx.log(format!("S{k} automatic off"));
                m.off = true;
                sh.ws(k).filter_automatic_off();
            }
        }
        ctx.log("save");
        let Some(b) = save_open(ctx, &mut sh) else {
            return;
        };
        for (k, m) in ms.iter().enumerate() {
            let Some(s) = b.sheets.iter().find(|s| s.name == format!("S{k}")) else {
                return ctx.fail("sheet-missing", "");
            };
            let q = m.range.unwrap_or_default();
            let af = s.xml.child("autoFilter");
            let got = af.and_then(|e| parse_range(e.a("ref")));
            ctx.eq(&got, &Some(q), "filter-range", &format!("S{k} autoFilter"));
            let mut cols = BTreeMap::new();
            for e in af
                .map(|e| e.elems().collect::<Vec<_>>())
                .unwrap_or_default()
            {
                let mut t = vec![];
                for x in e.elems() {
                    match x.local() {
                        "filters" => {
                            let l: Vec<String> =
                                x.elems().map(|f| crate::xml::xstring(f.a("val"))).collect();
                            t.push(format!("filters blank={} {l:?}", x.flag("blank", false)));
                        }
                        "customFilters" => {
                            let l: Vec<(String, String)> = x
                                .elems()
                                .map(|f| {
                                    (
                                        f.attr("operator").unwrap_or("equal").to_string(),
                                        crate::xml::xstring(f.a("val")),
                                    )
                                })
                                .collect();
                            t.push(format!("custom and={} {l:?}", x.flag("and", false)));
                        }
                        other => t.push(other.to_string()),
                    }
                }
                cols.insert(e.int("colId").unwrap_or(-1) + i64::from(q.1), t.join(" + "));
            }
            let want: BTreeMap<i64, String> = m
                .conds
                .iter()
                .map(|(c, f)| (i64::from(*c), said(f)))
                .collect();
            ctx.eq(&cols, &want, "filter-conditions", &format!("S{k}"));
            let on = s
                .xml
                .child("sheetPr")
                .is_some_and(|e| e.flag("filterMode", false));
            ctx.eq(&on, &!m.conds.is_empty(), "filter-mode", &format!("S{k}"));
            let i = b.sheets.iter().position(|x| x.name == s.name);
            let names: Vec<_> = b
                .names
                .iter()
                .filter(|d| d.name == "_xlnm._FilterDatabase" && d.local == i)
                .collect();
            let nm = names.first().and_then(|d| parse_sheet_range(&d.text));
            ctx.check(
                names.len() == 1
                    && names[0].hidden
                    && nm
                        .as_ref()
                        .is_some_and(|x| x.0 == s.name && x.1 == q && x.2),
                "filter-name",
                || format!("S{k}: {names:?}"),
            );
            for r in 0..q.2 + 6 {
                let hidden = s.rows.get(&r).is_some_and(|x| x.hidden);
                let at = format!("S{k} row {}", r + 1);
                if m.user.contains(&r) {
                    ctx.check(hidden, "user-hidden", || at);
                    continue;
                }
                if r <= q.0 || r > q.2 || m.off {
                    ctx.check(!hidden, "outside-hidden", || at);
                    continue;
                }
                let mut v = Some(true);
                let mut why = String::new();
                for (c, f) in &m.conds {
                    let d = m.data.get(&(r, *c)).unwrap_or(&D::Blank);
                    match passes(d, f) {
                        Some(false) => {
                            v = Some(false);
                            why = format!("{d:?} fails {f:?}");
                            break;
                        }
                        None => v = None,
                        Some(true) => why.push_str(&format!("{d:?} passes {f:?}; ")),
                    }
                }
                match v {
                    None => open += 1,
                    Some(p) => {
                        decided += u64::from(!m.conds.is_empty());
                        ctx.check(hidden != p, "row-visibility", || {
                            format!("{at} hidden {hidden}: {why}")
                        });
                    }
                }
            }
        }
    }
    ctx.add("rows decided", decided);
    ctx.add("rows left open", open);
    ctx.nontrivial = decided > 5;
}
