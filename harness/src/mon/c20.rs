//! C20 conditional formats.

use crate::book::{a1, a1_range, Book, Sheet};
use crate::gen::{self, dxf_norm, FModel, Fmt};
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::{
    Color, ConditionalFormat, ConditionalFormat2ColorScale, ConditionalFormat3ColorScale,
    ConditionalFormatAverage, ConditionalFormatAverageRule, ConditionalFormatBlank,
    ConditionalFormatCell, ConditionalFormatCellRule, ConditionalFormatCustomIcon,
    ConditionalFormatDataBar, ConditionalFormatDataBarAxisPosition,
    ConditionalFormatDataBarDirection, ConditionalFormatDate, ConditionalFormatDateRule,
    ConditionalFormatDuplicate, ConditionalFormatError, ConditionalFormatFormula,
    ConditionalFormatIconSet, ConditionalFormatIconType, ConditionalFormatText,
    ConditionalFormatTextRule, ConditionalFormatTop, ConditionalFormatTopRule,
    ConditionalFormatType, ConditionalFormatValue, ExcelDateTime, Formula, Worksheet, XlsxError,
};
use std::collections::{BTreeMap, HashSet};

/// A rule as Excel sees it: everything but its range and priority.
#[derive(Clone, Debug, Default, PartialEq)]
struct Rule {
    kind: String,
    stop: bool,
    attrs: BTreeMap<String, String>,
    formulas: Vec<String>,
    cfvo: Vec<String>,
    colors: Vec<String>,
    icons: Vec<String>,
    /// Extended settings of a data bar.
    ext: BTreeMap<String, String>,
}

impl Rule {
    fn new(kind: &str) -> Rule {
        Rule {
            kind: kind.into(),
            ..Default::default()
        }
    }
    fn attr(mut self, k: &str, v: impl Into<String>) -> Rule {
        self.attrs.insert(k.into(), v.into());
        self
    }
    fn opt(self, on: bool, k: &str, v: &str) -> Rule {
        if on {
            self.attr(k, v)
        } else {
            self
        }
    }
    fn f(mut self, f: impl Into<String>) -> Rule {
        self.formulas.push(f.into());
        self
    }
}

/// A requested conditional format.
struct Want {
    range: String,
    rule: Rule,
    fmt: Option<usize>,
}

type Adder = Box<dyn Fn(&mut Worksheet, (u32, u16, u32, u16)) -> Result<(), XlsxError>>;

fn boxed<T: ConditionalFormat + Send + Sync + 'static>(cf: T) -> Adder {
    Box::new(move |ws, (r1, c1, r2, c2)| {
        ws.add_conditional_format(r1, c1, r2, c2, &cf).map(|_| ())
    })
}

fn text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "a\"b".into(),
        1 => "é".repeat(r.usize(4) + 1),
        2 => format!("<&>'{}", gen::word(r)),
        3 => format!("日本 {}", gen::word(r)),
        _ => gen::word(r),
    }
}

fn number(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => f64::from(r.u16(0, 100)),
        1 => -f64::from(r.u16(0, 9999)) / 8.0,
        2 => f64::from(r.u32(0, 10_000_000)) / 1000.0,
        _ => r.f01() * 100.0,
    }
}

/// An operand and the text it has in the file.
fn operand(r: &mut Rng, strings: bool) -> (ConditionalFormatValue, String) {
    match r.below(if strings { 8 } else { 6 }) {
        0 | 1 => {
            let n = number(r);
            (n.into(), format!("{n}"))
        }
        2 => {
            let n = r.u32(0, 70_000) as i32 - 35_000;
            (n.into(), format!("{n}"))
        }
        3 => {
            let f = format!("$B${}+SUM(C1:C3)", r.u16(1, 99));
            (Formula::new(format!("={f}")).into(), f)
        }
        4 => {
            let d = r.u16(1, 50_000);
            let t = ExcelDateTime::from_serial_datetime(f64::from(d) + 0.5);
            match t {
                Ok(t) => ((&t).into(), format!("{d}.5")),
                Err(_) => (1.into(), "1".into()),
            }
        }
        5 => {
            let b = r.bool();
            (b.into(), b.to_string().to_uppercase())
        }
        _ => {
            let t = match r.below(12) {
                0 => String::new(),
                1 => "\"".to_string(),
                _ => text(r),
            };
            (
                ConditionalFormatValue::from(t.as_str()),
                format!("\"{}\"", t.replace('"', "\"\"")),
            )
        }
    }
}

/// A cell position type, with its value, for scales, bars and icons.
fn bound(r: &mut Rng) -> (ConditionalFormatType, ConditionalFormatValue, String) {
    match r.below(4) {
        0 => {
            let n = number(r);
            (ConditionalFormatType::Number, n.into(), format!("num {n}"))
        }
        1 => {
            let n = r.u16(0, 100);
            (
                ConditionalFormatType::Percent,
                n.into(),
                format!("percent {n}"),
            )
        }
        2 => {
            let n = f64::from(r.u16(0, 200)) / 2.0;
            (
                ConditionalFormatType::Percentile,
                n.into(),
                format!("percentile {n}"),
            )
        }
        _ => {
            let f = format!("$M${}", r.u16(1, 99));
            (
                ConditionalFormatType::Formula,
                Formula::new(&f).into(),
                format!("formula {f}"),
            )
        }
    }
}

/// A request the library documents as ignored.
fn refused_bound(r: &mut Rng) -> (ConditionalFormatType, ConditionalFormatValue) {
    match r.below(3) {
        0 => (ConditionalFormatType::Percent, 101.into()),
        1 => (ConditionalFormatType::Percentile, (-0.5).into()),
        _ => (ConditionalFormatType::Number, "text".into()),
    }
}

fn rgb(r: &mut Rng) -> (Color, String) {
    let n = match r.below(4) {
        0 => 0xFF0000,
        1 => 0x638EC6,
        _ => r.u32(0, 0xFF_FFFF),
    };
    (Color::RGB(n), format!("FF{n:06X}"))
}

const ICONS: &[(ConditionalFormatIconType, &str, usize, bool)] = &[
    (ConditionalFormatIconType::ThreeArrows, "3Arrows", 3, false),
    (
        ConditionalFormatIconType::ThreeArrowsGray,
        "3ArrowsGray",
        3,
        false,
    ),
    (ConditionalFormatIconType::ThreeFlags, "3Flags", 3, false),
    (
        ConditionalFormatIconType::ThreeTrafficLights,
        "3TrafficLights1",
        3,
        false,
    ),
    (
        ConditionalFormatIconType::ThreeTrafficLightsWithRim,
        "3TrafficLights2",
        3,
        false,
    ),
    (ConditionalFormatIconType::ThreeSigns, "3Signs", 3, false),
    (
        ConditionalFormatIconType::ThreeSymbolsCircled,
        "3Symbols",
        3,
        false,
    ),
    (
        ConditionalFormatIconType::ThreeSymbols,
        "3Symbols2",
        3,
        false,
    ),
    (ConditionalFormatIconType::ThreeStars, "3Stars", 3, true),
    (
        ConditionalFormatIconType::ThreeTriangles,
        "3Triangles",
        3,
        true,
    ),
    (ConditionalFormatIconType::FourArrows, "4Arrows", 4, false),
    (
        ConditionalFormatIconType::FourArrowsGray,
        "4ArrowsGray",
        4,
        false,
    ),
    (
        ConditionalFormatIconType::FourRedToBlack,
        "4RedToBlack",
        4,
        false,
    ),
    (
        ConditionalFormatIconType::FourHistograms,
        "4Rating",
        4,
        false,
    ),
    (
        ConditionalFormatIconType::FourTrafficLights,
        "4TrafficLights",
        4,
        false,
    ),
    (ConditionalFormatIconType::FiveArrows, "5Arrows", 5, false),
    (
        ConditionalFormatIconType::FiveArrowsGray,
        "5ArrowsGray",
        5,
        false,
    ),
    (
        ConditionalFormatIconType::FiveHistograms,
        "5Rating",
        5,
        false,
    ),
    (
        ConditionalFormatIconType::FiveQuadrants,
        "5Quarters",
        5,
        false,
    ),
    (ConditionalFormatIconType::FiveBoxes, "5Boxes", 5, true),
];

/// Where the conditional format goes and what its formulas start from.
pub struct Place {
    pub at: (u32, u16, u32, u16),
    pub multi: Option<String>,
    pub sqref: String,
    pub anchor: String,
}

fn range(r: &mut Rng) -> (u32, u16, u32, u16) {
    let (r1, c1) = match r.below(8) {
        0 => (r.u32(0, 1_048_575), r.u16(0, 16_383)),
        _ => (r.u32(0, 30), r.u16(0, 30)),
    };
    match r.below(3) {
        0 => (r1, c1, r1, c1),
        _ => (
            r1,
            c1,
            r.u32(r1, (r1 + 20).min(1_048_575)),
            r.u16(c1, (c1 + 5).min(16_383)),
        ),
    }
}

pub fn place(r: &mut Rng, used: &[String]) -> Place {
    let at = range(r);
    if r.one_in(4) {
        let n = 1 + r.usize(4);
        let mut given = String::new();
        let mut sqref = vec![];
        let mut anchor = String::new();
        let comma = r.bool();
        for i in 0..n {
            let (r1, c1, r2, c2) = range(r);
            let a = a1_range(r1, c1, r2, c2);
            if i > 0 {
                given.push(if comma { ',' } else { ' ' });
            } else {
                anchor = a1(r1, c1);
            }
            if r.one_in(3) {
                let (x, y) = (crate::book::col_letters(c1), crate::book::col_letters(c2));
                if a.contains(':') {
                    given.push_str(&format!("${x}${}:${y}${}", r1 + 1, r2 + 1));
                } else {
                    given.push_str(&format!("${x}${}", r1 + 1));
                }
            } else {
                given.push_str(&a);
            }
            sqref.push(a);
        }
        return Place {
            at,
            multi: Some(given),
            sqref: sqref.join(" "),
            anchor,
        };
    }
    // Often a range that has a rule already.
    if r.one_in(2) && !used.is_empty() {
        let w = &used[r.usize(used.len())];
        if let Some(at) = crate::book::parse_range(w) {
            return Place {
                at,
                multi: None,
                sqref: w.clone(),
                anchor: a1(at.0, at.1),
            };
        }
    }
    let s = a1_range(at.0, at.1, at.2, at.3);
    Place {
        at,
        multi: None,
        sqref: s,
        anchor: a1(at.0, at.1),
    }
}

/// Returns the way to add a random rule, the rule if it is a good one, and
/// the index of its format.
fn rule(r: &mut Rng, p: &Place, fmts: &[Fmt]) -> (Adder, Option<Rule>, Option<usize>) {
    let stop = r.one_in(4);
    let fi = (r.pct(70) && !fmts.is_empty()).then(|| r.usize(fmts.len()));
    let a = &p.anchor;
    macro_rules! done {
        ($cf:expr, $rule:expr) => {{
            let mut cf = $cf;
            if let Some(i) = fi {
                cf = cf.set_format(&fmts[i].f);
            }
            done!(plain cf, $rule, fi)
        }};
        (plain $cf:expr, $rule:expr, $fi:expr) => {{
            let mut cf = $cf;
            if stop {
                cf = cf.set_stop_if_true(true);
            }
            if let Some(m) = &p.multi {
                cf = cf.set_multi_range(m);
            }
            let rule: Option<Rule> = $rule;
            (
                boxed(cf),
                rule.map(|mut x| {
                    x.stop = stop;
                    x
                }),
                $fi,
            )
        }};
    }
    match r.below(14) {
        0 => {
            let (x, xs) = operand(r, true);
            let (y, ys) = operand(r, true);
            let (c, op, two) = match r.below(8) {
                0 => (ConditionalFormatCellRule::EqualTo(x), "equal", false),
                1 => (ConditionalFormatCellRule::NotEqualTo(x), "notEqual", false),
                2 => (
                    ConditionalFormatCellRule::GreaterThan(x),
                    "greaterThan",
                    false,
                ),
                3 => (
                    ConditionalFormatCellRule::GreaterThanOrEqualTo(x),
                    "greaterThanOrEqual",
                    false,
                ),
                4 => (ConditionalFormatCellRule::LessThan(x), "lessThan", false),
                5 => (
                    ConditionalFormatCellRule::LessThanOrEqualTo(x),
                    "lessThanOrEqual",
                    false,
                ),
                6 => (ConditionalFormatCellRule::Between(x, y), "between", true),
                _ => (
                    ConditionalFormatCellRule::NotBetween(x, y),
                    "notBetween",
                    true,
                ),
            };
            let mut w = Rule::new("cellIs").attr("operator", op).f(xs);
            if two {
                w = w.f(ys);
            }
            done!(ConditionalFormatCell::new().set_rule(c), Some(w))
        }
        1 => {
            let inv = r.bool();
            let mut cf = ConditionalFormatBlank::new();
            let w = if inv {
                cf = cf.invert();
                Rule::new("notContainsBlanks").f(format!("LEN(TRIM({a}))>0"))
            } else {
                Rule::new("containsBlanks").f(format!("LEN(TRIM({a}))=0"))
            };
            done!(cf, Some(w))
        }
        2 => {
            let inv = r.bool();
            let mut cf = ConditionalFormatError::new();
            let w = if inv {
                cf = cf.invert();
                Rule::new("notContainsErrors").f(format!("NOT(ISERROR({a}))"))
            } else {
                Rule::new("containsErrors").f(format!("ISERROR({a})"))
            };
            done!(cf, Some(w))
        }
        3 => {
            let inv = r.bool();
            let mut cf = ConditionalFormatDuplicate::new();
            if inv {
                cf = cf.invert();
            }
            let w = Rule::new(if inv {
                "uniqueValues"
            } else {
                "duplicateValues"
            });
            done!(cf, Some(w))
        }
        4 => {
            let f = format!("MOD(ROW(),{})=\"{}\"", r.u16(2, 99), gen::word(r));
            let given = if r.bool() {
                format!("={f}")
            } else {
                f.clone()
            };
            done!(
                ConditionalFormatFormula::new().set_rule(given.as_str()),
                Some(Rule::new("expression").f(f))
            )
        }
        5 => {
            use ConditionalFormatAverageRule as A;
            let (c, below, eq, sd) = match r.below(10) {
                0 => (A::AboveAverage, false, false, ""),
                1 => (A::BelowAverage, true, false, ""),
                2 => (A::EqualOrAboveAverage, false, true, ""),
                3 => (A::EqualOrBelowAverage, true, true, ""),
                4 => (A::OneStandardDeviationAbove, false, false, "1"),
                5 => (A::OneStandardDeviationBelow, true, false, "1"),
                6 => (A::TwoStandardDeviationsAbove, false, false, "2"),
                7 => (A::TwoStandardDeviationsBelow, true, false, "2"),
                8 => (A::ThreeStandardDeviationsAbove, false, false, "3"),
                _ => (A::ThreeStandardDeviationsBelow, true, false, "3"),
            };
            let w = Rule::new("aboveAverage")
                .opt(below, "aboveAverage", "0")
                .opt(eq, "equalAverage", "1")
                .opt(!sd.is_empty(), "stdDev", sd);
            done!(ConditionalFormatAverage::new().set_rule(c), Some(w))
        }
        6 => {
            use ConditionalFormatTopRule as T;
            let n = match r.below(6) {
                0 => *r.pick(&[0u16, 1, 100, 101, 1000, 1001, 65535]),
                _ => r.u16(1, 120),
            };
            let (c, pc, bottom) = match r.below(4) {
                0 => (T::Top(n), false, false),
                1 => (T::Bottom(n), false, true),
                2 => (T::TopPercent(n), true, false),
                _ => (T::BottomPercent(n), true, true),
            };
            let good = n >= 1 && n <= if pc { 100 } else { 1000 };
            let w = Rule::new("top10")
                .opt(pc, "percent", "1")
                .opt(bottom, "bottom", "1")
                .attr("rank", n.to_string());
            done!(ConditionalFormatTop::new().set_rule(c), good.then_some(w))
        }
        7 => {
            let t = text(r);
            let q = t.replace('"', "\"\"");
            let n = t.encode_utf16().count();
            let (c, kind, op, f) = match r.below(4) {
                0 => (
                    ConditionalFormatTextRule::Contains(t.clone()),
                    "containsText",
                    "containsText",
                    format!("NOT(ISERROR(SEARCH(\"{q}\",{a})))"),
                ),
                1 => (
                    ConditionalFormatTextRule::DoesNotContain(t.clone()),
                    "notContainsText",
                    "notContains",
                    format!("ISERROR(SEARCH(\"{q}\",{a}))"),
                ),
                2 => (
                    ConditionalFormatTextRule::BeginsWith(t.clone()),
                    "beginsWith",
                    "beginsWith",
                    format!("LEFT({a},{n})=\"{q}\""),
                ),
                _ => (
                    ConditionalFormatTextRule::EndsWith(t.clone()),
                    "endsWith",
                    "endsWith",
                    format!("RIGHT({a},{n})=\"{q}\""),
                ),
            };
            let w = Rule::new(kind).attr("operator", op).attr("text", t).f(f);
            done!(ConditionalFormatText::new().set_rule(c), Some(w))
        }
        8 => {
            use ConditionalFormatDateRule as D;
            let (c, n, f) = match r.below(10) {
                0 => (
                    D::Yesterday,
                    "yesterday",
                    format!("FLOOR({a},1)=TODAY()-1"),
                ),
                1 => (D::Today, "today", format!("FLOOR({a},1)=TODAY()")),
                2 => (D::Tomorrow, "tomorrow", format!("FLOOR({a},1)=TODAY()+1")),
                3 => (
                    D::Last7Days,
                    "last7Days",
                    format!("AND(TODAY()-FLOOR({a},1)<=6,FLOOR({a},1)<=TODAY())"),
                ),
                4 => (
                    D::LastWeek,
                    "lastWeek",
                    format!("AND(TODAY()-ROUNDDOWN({a},0)>=(WEEKDAY(TODAY())),TODAY()-ROUNDDOWN({a},0)<(WEEKDAY(TODAY())+7))"),
                ),
                5 => (
                    D::ThisWeek,
                    "thisWeek",
                    format!("AND(TODAY()-ROUNDDOWN({a},0)<=WEEKDAY(TODAY())-1,ROUNDDOWN({a},0)-TODAY()<=7-WEEKDAY(TODAY()))"),
                ),
                6 => (
                    D::NextWeek,
                    "nextWeek",
                    format!("AND(ROUNDDOWN({a},0)-TODAY()>(7-WEEKDAY(TODAY())),ROUNDDOWN({a},0)-TODAY()<(15-WEEKDAY(TODAY())))"),
                ),
                // Excel has more than one form of these.
                7 => (D::LastMonth, "lastMonth", String::new()),
                8 => (D::ThisMonth, "thisMonth", String::new()),
                _ => (D::NextMonth, "nextMonth", String::new()),
            };
            let w = Rule::new("timePeriod").attr("timePeriod", n).f(f);
            done!(ConditionalFormatDate::new().set_rule(c), Some(w))
        }
        9 => {
            let mut cf = ConditionalFormat2ColorScale::new();
            let mut v = ["min".to_string(), "max".to_string()];
            let mut c = ["FFFFEF9C".to_string(), "FF63BE7B".to_string()];
            for _ in 0..r.usize(5) {
                let (t, x, s) = bound(r);
                let (k, ks) = rgb(r);
                match r.below(6) {
                    0 => {
                        cf = cf.set_minimum(t, x);
                        v[0] = s;
                    }
                    1 => {
                        cf = cf.set_maximum(t, x);
                        v[1] = s;
                    }
                    2 => {
                        cf = cf.set_minimum_color(k);
                        c[0] = ks;
                    }
                    3 => {
                        cf = cf.set_maximum_color(k);
                        c[1] = ks;
                    }
                    4 => {
                        let (t, x) = refused_bound(r);
                        cf = cf.set_minimum(t, x);
                    }
                    _ => {
                        let (t, x) = refused_bound(r);
                        cf = cf.set_maximum(t, x);
                    }
                }
            }
            let mut w = Rule::new("colorScale");
            w.cfvo = v.to_vec();
            w.colors = c.to_vec();
            done!(plain cf, Some(w), None)
        }
        10 => {
            let mut cf = ConditionalFormat3ColorScale::new();
            let mut v = [
                "min".to_string(),
                "percentile 50".to_string(),
                "max".to_string(),
            ];
            let mut c = [
                "FFF8696B".to_string(),
                "FFFFEB84".to_string(),
                "FF63BE7B".to_string(),
            ];
            for _ in 0..r.usize(6) {
                let (t, x, s) = bound(r);
                let (k, ks) = rgb(r);
                match r.below(9) {
                    0 => {
                        cf = cf.set_minimum(t, x);
                        v[0] = s;
                    }
                    1 => {
                        cf = cf.set_midpoint(t, x);
                        v[1] = s;
                    }
                    2 => {
                        cf = cf.set_maximum(t, x);
                        v[2] = s;
                    }
                    3 => {
                        cf = cf.set_minimum_color(k);
                        c[0] = ks;
                    }
                    4 => {
                        cf = cf.set_midpoint_color(k);
                        c[1] = ks;
                    }
                    5 => {
                        cf = cf.set_maximum_color(k);
                        c[2] = ks;
                    }
                    6 => {
                        let (t, x) = refused_bound(r);
                        cf = cf.set_minimum(t, x);
                    }
                    7 => {
                        let (t, x) = refused_bound(r);
                        cf = cf.set_midpoint(t, x);
                    }
                    _ => {
                        let (t, x) = refused_bound(r);
                        cf = cf.set_maximum(t, x);
                    }
                }
            }
            let mut w = Rule::new("colorScale");
            w.cfvo = v.to_vec();
            w.colors = c.to_vec();
            done!(plain cf, Some(w), None)
        }
        11 | 12 => {
            let (cf, w) = data_bar(r);
            done!(plain cf, Some(w), None)
        }
        _ => {
            if r.one_in(12) {
                // Rules that are missing something.
                return match r.below(4) {
                    0 => done!(ConditionalFormatCell::new(), None),
                    1 => done!(ConditionalFormatText::new(), None),
                    2 => done!(ConditionalFormatFormula::new(), None),
                    _ => done!(
                        plain ConditionalFormatIconSet::new().set_icons(&[ConditionalFormatCustomIcon::new()]),
                        None,
                        None
                    ),
                };
            }
            let (cf, w) = icon_set(r);
            done!(plain cf, w, None)
        }
    }
}

fn data_bar(r: &mut Rng) -> (ConditionalFormatDataBar, Rule) {
    let mut cf = ConditionalFormatDataBar::new();
    let mut v = ["autoMin".to_string(), "autoMax".to_string()];
    let mut fill = "FF638EC6".to_string();
    let mut line = fill.clone();
    let mut nfill = "FFFF0000".to_string();
    let mut nline = nfill.clone();
    let mut axis = "FF000000".to_string();
    let (mut off, mut solid, mut only) = (false, false, false);
    let mut dir = "context";
    let mut pos = "automatic";
    for _ in 0..r.usize(8) {
        let (t, x, s) = bound(r);
        let (k, ks) = rgb(r);
        let b = r.bool();
        match r.below(14) {
            0 => {
                if r.one_in(3) {
                    cf = cf.set_minimum(ConditionalFormatType::Lowest, 0);
                    v[0] = "min".into();
                } else {
                    cf = cf.set_minimum(t, x);
                    v[0] = s;
                }
            }
            1 => {
                if r.one_in(3) {
                    cf = cf.set_maximum(ConditionalFormatType::Highest, 0);
                    v[1] = "max".into();
                } else {
                    cf = cf.set_maximum(t, x);
                    v[1] = s;
                }
            }
            2 => {
                let (t, x) = refused_bound(r);
                cf = cf.set_minimum(t, x);
            }
            3 => {
                let (t, x) = refused_bound(r);
                cf = cf.set_maximum(t, x);
            }
            4 => {
                cf = cf.set_fill_color(k);
                fill = ks.clone();
                line = ks;
            }
            5 => {
                cf = cf.set_border_color(k);
                line = ks;
            }
            6 => {
                cf = cf.set_negative_fill_color(k);
                nfill = ks.clone();
                nline = ks;
            }
            7 => {
                cf = cf.set_negative_border_color(k);
                nline = ks;
            }
            8 => {
                cf = cf.set_solid_fill(b);
                solid = b;
            }
            9 => {
                cf = cf.set_border_off(b);
                off = b;
            }
            10 => {
                use ConditionalFormatDataBarDirection as D;
                let (d, n) = match r.below(3) {
                    0 => (D::Context, "context"),
                    1 => (D::LeftToRight, "leftToRight"),
                    _ => (D::RightToLeft, "rightToLeft"),
                };
                cf = cf.set_direction(d);
                dir = n;
            }
            11 => {
                cf = cf.set_bar_only(b);
                only = b;
            }
            12 => {
                use ConditionalFormatDataBarAxisPosition as P;
                let (d, n) = match r.below(3) {
                    0 => (P::Automatic, "automatic"),
                    1 => (P::Midpoint, "middle"),
                    _ => (P::None, "none"),
                };
                cf = cf.set_axis_position(d);
                pos = n;
            }
            _ => {
                cf = cf.set_axis_color(k);
                axis = ks;
            }
        }
    }
    let mut w = Rule::new("dataBar").opt(only, "showValue", "0");
    w.cfvo = v
        .iter()
        .map(|s| match s.as_str() {
            "autoMin" => "min".to_string(),
            "autoMax" => "max".to_string(),
            s => s.to_string(),
        })
        .collect();
    w.colors = vec![fill.clone()];
    let mut x: BTreeMap<String, String> = BTreeMap::new();
    let mut put = |k: &str, v: String| {
        x.insert(k.into(), v);
    };
    put("min", v[0].clone());
    put("max", v[1].clone());
    put("gradient", (!solid).to_string());
    put("direction", dir.into());
    put("axis", pos.into());
    put("negative fill", nfill);
    put("border", if off { "off".into() } else { line });
    if !off {
        put("negative border", nline);
    }
    if pos != "none" {
        put("axis color", axis);
    }
    put("length", "0..100".into());
    w.ext = x;
    (cf, w)
}

fn icon_set(r: &mut Rng) -> (ConditionalFormatIconSet, Option<Rule>) {
    let (t, n, count, x14) = *r.pick(ICONS);
    let mut cf = ConditionalFormatIconSet::new().set_icon_type(t);
    let mut cfvo: Vec<String> = match count {
        3 => vec!["percent 0", "percent 33", "percent 67"],
        4 => vec!["percent 0", "percent 25", "percent 50", "percent 75"],
        _ => vec![
            "percent 0",
            "percent 20",
            "percent 40",
            "percent 60",
            "percent 80",
        ],
    }
    .into_iter()
    .map(String::from)
    .collect();
    let mut icons = vec![];
    let mut good = true;
    let mut custom = false;
    if r.one_in(2) {
        let mut given = count;
        if r.one_in(12) {
            given = r.usize(6);
            good = given == count;
        }
        cfvo.clear();
        let mut list = vec![];
        for i in 0..given {
            let mut ic = ConditionalFormatCustomIcon::new();
            let mut v = "percent 0".to_string();
            let mut gte = "";
            let mut own = (n.to_string(), i as u8);
            if r.pct(80) {
                let (t, x, s) = bound(r);
                ic = ic.set_rule(t, x);
                v = s;
            }
            if r.one_in(8) {
                let (t, x) = refused_bound(r);
                ic = ic.set_rule(t, x);
            }
            if r.one_in(3) {
                let b = r.bool();
                ic = ic.set_greater_than(b);
                gte = if b { " >" } else { "" };
            }
            if r.one_in(6) {
                let (t, n, c, _) = *r.pick(ICONS);
                let k = r.u8(0, c as u8 - 1);
                ic = ic.set_icon_type(t, k);
                own = (n.to_string(), k);
                custom = true;
            }
            if r.one_in(8) {
                ic = ic.set_no_icon(true);
                own = ("NoIcons".to_string(), 0);
                custom = true;
            }
            if i == 0 {
                v = "percent 0".into();
                gte = "";
            }
            cfvo.push(format!("{v}{gte}"));
            icons.push(format!("{} {}", own.0, own.1));
            list.push(ic);
        }
        cf = cf.set_icons(&list);
    }
    let (only, rev) = (r.one_in(3), r.one_in(3));
    if only || r.one_in(6) {
        cf = cf.show_icons_only(only);
    }
    if rev || r.one_in(6) {
        cf = cf.reverse_icons(rev);
    }
    let mut w = Rule::new("iconSet")
        .opt(n != "3TrafficLights1", "iconSet", n)
        .opt(only, "showValue", "0")
        .opt(rev, "reverse", "1")
        .opt(x14 || custom, "x14", "1");
    w.cfvo = cfvo;
    if custom {
        w.icons = icons;
    }
    (cf, good.then_some(w))
}

/// The position types are the same in both kinds of rules.
fn cfvo(e: &Elem) -> String {
    let t = e.a("type");
    let v = match e.child_text("xm:f") {
        Some(f) => f,
        None => e.attr("val").map(xstring).unwrap_or_default(),
    };
    let gt = if e.flag("gte", true) { "" } else { " >" };
    match t {
        "min" | "max" | "autoMin" | "autoMax" => format!("{t}{gt}"),
        _ => format!("{t} {v}{gt}"),
    }
}

fn default_attr(k: &str, v: &str) -> bool {
    matches!(
        (k, v),
        ("showValue", "1")
            | ("reverse", "0")
            | ("iconSet", "3TrafficLights1")
            | ("aboveAverage", "1")
            | ("equalAverage", "0")
            | ("percent", "0")
            | ("bottom", "0")
            | ("stdDev", "0")
            | ("stopIfTrue", "0")
    )
}

fn color(e: &Elem) -> String {
    e.a("rgb").to_string()
}

/// Decodes a rule of either kind, without the extended data bar settings.
fn decode(e: &Elem, x14: bool) -> Rule {
    let mut w = Rule::new(e.a("type"));
    w.stop = e.flag("stopIfTrue", false);
    for (k, v) in &e.attrs {
        if !matches!(
            k.as_str(),
            "type" | "priority" | "dxfId" | "id" | "stopIfTrue"
        ) && !default_attr(k, v)
        {
            w.attrs.insert(k.clone(), xstring(v));
        }
    }
    for c in e.elems() {
        match c.local() {
            "formula" => w.formulas.push(c.text()),
            "colorScale" | "dataBar" | "iconSet" => {
                for (k, v) in &c.attrs {
                    if !default_attr(k, v) && k != "custom" && !x14
                        || matches!(k.as_str(), "showValue" | "reverse" | "iconSet")
                            && !default_attr(k, v)
                    {
                        w.attrs.insert(k.clone(), xstring(v));
                    }
                }
                for x in c.elems() {
                    match x.local() {
                        "cfvo" => w.cfvo.push(cfvo(x)),
                        "color" => w.colors.push(color(x)),
                        "cfIcon" => w.icons.push(format!("{} {}", x.a("iconSet"), x.a("iconId"))),
                        _ => {}
                    }
                }
                if c.flag("custom", false) == w.icons.is_empty() && x14 && c.local() == "iconSet" {
                    w.attrs.insert("custom".into(), c.a("custom").into());
                }
            }
            _ => {}
        }
    }
    w
}

fn extended(bar: &Elem, fill: &str) -> BTreeMap<String, String> {
    let mut x = BTreeMap::new();
    let mut put = |k: &str, v: String| {
        x.insert(k.to_string(), v);
    };
    let of = |n: &str| bar.child(n).map(color).unwrap_or_else(|| "none".into());
    let b: Vec<String> = bar.children("x14:cfvo").map(cfvo).collect();
    put("min", b.first().cloned().unwrap_or_default());
    put("max", b.get(1).cloned().unwrap_or_default());
    put("gradient", bar.flag("gradient", true).to_string());
    put(
        "direction",
        bar.attr("direction").unwrap_or("context").into(),
    );
    let pos = bar.attr("axisPosition").unwrap_or("automatic");
    put("axis", pos.into());
    put(
        "negative fill",
        if bar.flag("negativeBarColorSameAsPositive", false) {
            fill.into()
        } else {
            of("x14:negativeFillColor")
        },
    );
    if bar.flag("border", false) {
        let l = of("x14:borderColor");
        put("border", l.clone());
        put(
            "negative border",
            if bar.flag("negativeBarBorderColorSameAsPositive", true) {
                l
            } else {
                of("x14:negativeBorderColor")
            },
        );
    } else {
        put("border", "off".into());
    }
    if pos != "none" {
        put("axis color", of("x14:axisColor"));
    }
    put(
        "length",
        format!(
            "{}..{}",
            bar.attr("minLength").unwrap_or("10"),
            bar.attr("maxLength").unwrap_or("90")
        ),
    );
    x
}

/// Finds all rules of a sheet, in order of priority.
fn found(ctx: &mut Ctx, s: &Sheet, at: &str) -> Vec<(i64, String, Rule, Option<usize>)> {
    let mut out = vec![];
    let mut ids: HashSet<String> = HashSet::new();
    let mut bars: Vec<(String, String, usize)> = vec![];
    for c in s.xml.children("conditionalFormatting") {
        let sqref = c.a("sqref").to_string();
        for e in c.children("cfRule") {
            let w = decode(e, false);
            let dxf = e.int("dxfId").map(|i| i as usize);
            if w.kind == "dataBar" {
                let id = e.find_all("x14:id").first().map(|i| i.text());
                match id {
                    Some(i) => bars.push((i, sqref.clone(), out.len())),
                    None => ctx.fail("bar-link", format!("{at}: data bar without extension")),
                }
            }
            out.push((e.int("priority").unwrap_or(-1), sqref.clone(), w, dxf));
        }
    }
    for l in s.xml.find_all("x14:conditionalFormattings") {
        for c in l.children("x14:conditionalFormatting") {
            let sqref = c.child_text("xm:sqref").unwrap_or_default();
            for e in c.children("x14:cfRule") {
                let id = e.a("id").to_string();
                ctx.check(ids.insert(id.clone()), "id-reuse", || {
                    format!("{at}: id {id} used twice")
                });
                if e.a("type") == "dataBar" {
                    let Some(i) = bars.iter().position(|b| b.0 == id) else {
                        ctx.fail(
                            "bar-link",
                            format!("{at}: extension {id} of no data bar in {sqref}"),
                        );
                        continue;
                    };
                    let (_, range, k) = bars.remove(i);
                    ctx.eq(&sqref, &range, "bar-range", at);
                    let fill = out[k].2.colors.first().cloned().unwrap_or_default();
                    if let Some(b) = e.child("x14:dataBar") {
                        out[k].2.ext = extended(b, &fill);
                    }
                } else {
                    let mut w = decode(e, true);
                    w.attrs.insert("x14".into(), "1".into());
                    out.push((e.int("priority").unwrap_or(-1), sqref.clone(), w, None));
                }
            }
        }
    }
    for (id, range, _) in bars {
        ctx.fail(
            "bar-link",
            format!("{at}: data bar in {range} has no extension {id}"),
        );
    }
    out.sort_by_key(|x| x.0);
    let mut seen = HashSet::new();
    for x in &out {
        let p = x.0;
        ctx.check(p >= 1 && seen.insert(p), "priority", || {
            format!("{at}: priority {p} is used twice")
        });
    }
    out
}

pub fn same_text(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    matches!((a.parse::<f64>(), b.parse::<f64>()), (Ok(x), Ok(y)) if x == y)
}

fn verify(ctx: &mut Ctx, b: &Book, s: &Sheet, want: &[Want], fmts: &[Fmt], at: &str) {
    let got = found(ctx, s, at);
    if got.len() != want.len() {
        ctx.fail(
            "count",
            format!(
                "{at}: {} conditional formats instead of {}",
                got.len(),
                want.len()
            ),
        );
        return;
    }
    for (i, ((_, range, rule, dxf), w)) in got.iter().zip(want).enumerate() {
        let me = format!("{at} rule {i} ({})", w.rule.kind);
        if *range != w.range || rule.kind != w.rule.kind {
            ctx.fail(
                "order",
                format!("{me}: {} on {range}, want it on {}", rule.kind, w.range),
            );
            return;
        }
        let mut x = rule.clone();
        let mut y = w.rule.clone();
        ctx.eq(&x.formulas.len(), &y.formulas.len(), "formula", &me);
        for (a, b) in x.formulas.iter().zip(&y.formulas) {
            // An empty expectation leaves the formula open.
            let anchored = range.split([' ', ':']).next().unwrap_or("");
            ctx.check(
                same_text(a, b) || (b.is_empty() && a.contains(anchored)),
                "formula",
                || format!("{me}: formula {a:?}, want {b:?}"),
            );
        }
        x.formulas.clear();
        y.formulas.clear();
        for (k, l) in [(&mut x.cfvo, &mut y.cfvo)] {
            let ok = k.len() == l.len()
                && k.iter().zip(l.iter()).all(|(a, b)| {
                    let (a, b) = (
                        a.split(' ').collect::<Vec<_>>(),
                        b.split(' ').collect::<Vec<_>>(),
                    );
                    a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| same_text(a, b))
                });
            ctx.check(ok, "cfvo", || format!("{me}: bounds {k:?}, want {l:?}"));
        }
        x.cfvo.clear();
        y.cfvo.clear();
        for k in ["min", "max"] {
            if let (Some(a), Some(b)) = (x.ext.remove(k), y.ext.remove(k)) {
                let ok = a.split(' ').count() == b.split(' ').count()
                    && a.split(' ')
                        .zip(b.split(' '))
                        .all(|(a, b)| same_text(a, b));
                ctx.check(ok, "bar-bound", || format!("{me}: {k} {a:?}, want {b:?}"));
            }
        }
        if x.ext != y.ext {
            for (k, v) in &y.ext {
                let g = x.ext.get(k).cloned().unwrap_or_default();
                ctx.check(&g == v, &format!("bar-{}", k.replace(' ', "-")), || {
                    format!("{me}: {k} is {g}, want {v}")
                });
            }
        }
        x.ext.clear();
        y.ext.clear();
        ctx.eq(&x.stop, &y.stop, "stop", &me);
        ctx.eq(&x.attrs, &y.attrs, "attributes", &me);
        ctx.eq(&x.colors, &y.colors, "colors", &me);
        ctx.eq(&x.icons, &y.icons, "icons", &me);
        match (dxf, w.fmt) {
            (None, None) => {}
            (Some(d), Some(f)) => match b.styles.dxfs.get(*d) {
                None => ctx.fail("dxf", format!("{me}: no differential style {d}")),
                Some(x) => {
                    let m: &FModel = &fmts[f].m;
                    let (g, w) = (dxf_norm(x), dxf_norm(&m.dxf_facts()));
                    ctx.check(g == w, "dxf", || {
                        format!("{me}: {} [{}]", gen::diff(&g, &w), fmts[f].desc)
                    });
                    ctx.add("formats", 1);
                }
            },
            (g, f) => ctx.fail("dxf", format!("{me}: differential style {g:?} for {f:?}")),
        }
        ctx.count(&format!("rule {}", w.rule.kind));
    }
    ctx.add("rules checked", want.len() as u64);
}

pub fn case(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.usize(3);
    let modes: Vec<Mode> = (0..n).map(|_| Mode::any(&mut ctx.rng)).collect();
    let mut sh = Sheets::new(&modes);
    let fmts: Vec<Fmt> = (0..1 + ctx.rng.usize(5))
        .map(|_| Fmt::nondefault(&mut ctx.rng, 4))
        .collect();
    let mut want: Vec<Vec<Want>> = (0..n).map(|_| vec![]).collect();
    let total = 1 + ctx.rng.usize(14);
    let resave = ctx.rng.one_in(5) && !modes.iter().any(|m| m.constant() || m.low());
    for step in 0..total {
        let k = ctx.rng.usize(n);
        let used: Vec<String> = want[k].iter().map(|w| w.range.clone()).collect();
        let p = place(&mut ctx.rng, &used);
        let (add, w, fmt) = rule(&mut ctx.rng, &p, &fmts);
        ctx.log(format!(
            "S{k} {:?} multi {:?}: {w:?} format {fmt:?}",
            p.at, p.multi
        ));
        let got = add(sh.ws(k), p.at);
        match (got, w) {
            (Ok(()), Some(w)) => want[k].push(Want {
                range: p.sqref,
                rule: w,
                fmt,
            }),
            (Err(XlsxError::ConditionalFormatError(_)), None) => ctx.count("refused"),
            (g, w) => {
                ctx.fail(
                    "verdict",
                    format!("add_conditional_format: {g:?}, expected rule {w:?}"),
                );
                return;
            }
        }
        // Other things that share the sheet's extension list or the styles.
        if ctx.rng.one_in(8) {
            let sp = rust_xlsxwriter::Sparkline::new().set_range(("S0", 0, 0, 0, 4));
            let _ = sh.ws(k).add_sparkline(40 + step as u32, 9, &sp);
            ctx.log(format!("S{k} sparkline"));
        }
        if ctx.rng.one_in(8) {
            let f = ctx.rng.usize(fmts.len());
            let _ = sh
                .ws(k)
                .write_number_with_format(60 + step as u32, 0, 1.0, &fmts[f].f);
            ctx.log(format!("S{k} number with format {f}"));
        }
        if resave && ctx.rng.one_in(4) {
            let names = sh.names.clone();
            sh.attach();
            let Some(b) = save_open(ctx, &mut sh) else {
                return;
            };
            ctx.log("save");
            for (k, want) in want.iter().enumerate() {
                if let Some(s) = b.sheet(&names[k]) {
                    verify(ctx, &b, s, want, &fmts, &format!("S{k}"));
                }
            }
        }
    }
    let names = sh.names.clone();
    sh.attach();
    let Some(b) = save_open(ctx, &mut sh) else {
        return;
    };
    for (k, want) in want.iter().enumerate() {
        match b.sheet(&names[k]) {
            Some(s) => verify(ctx, &b, s, want, &fmts, &format!("S{k}")),
            None => ctx.fail("sheet", format!("no sheet {}", names[k])),
        }
    }
    ctx.nontrivial = want.iter().any(|w| w.len() > 1);
}
