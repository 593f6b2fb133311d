//! A small content-model checker: element order and cardinality, attributes
//! and simple types, driven by `mon/schema.txt`.

use crate::xml::{xstring, Elem, Kid};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

struct Part {
    names: Vec<String>,
    min: usize,
    max: usize,
}

enum Content {
    Seq(Vec<Part>),
    All(BTreeSet<String>),
    Text(Type),
    Empty,
}

#[derive(Clone)]
enum Type {
    B,
    U(i64, i64),
    I(i64, i64),
    D(f64, f64),
    S(usize),
    E(Vec<String>),
    Ref,
    Sqref,
    Cell,
    Hex(usize),
    Guid,
    Spans,
    Rot,
    Dt,
}

struct Rule {
    attrs: BTreeMap<String, (bool, Type)>,
    content: Content,
}

pub struct Schema {
    parts: Vec<(String, BTreeMap<String, Rule>)>,
}

fn ty(s: &str) -> Type {
    let (n, a) = match s.find('(') {
        Some(i) => (&s[..i], s[i + 1..].trim_end_matches(')')),
        None => (s, ""),
    };
    let (lo, hi) = a.split_once("..").unwrap_or(("", ""));
    let i = |s: &str, d: i64| s.parse().unwrap_or(d);
    match n {
        "b" => Type::B,
        "u" => Type::U(i(lo, 0), i(hi, u32::MAX.into())),
        "i" => Type::I(i(lo, i64::MIN), i(hi, i64::MAX)),
        "d" => Type::D(lo.parse().unwrap_or(f64::MIN), hi.parse().unwrap_or(f64::MAX)),
        "s" => Type::S(a.parse().unwrap_or(usize::MAX)),
        "e" => Type::E(a.split('|').map(String::from).collect()),
        "ref" => Type::Ref,
        "sqref" => Type::Sqref,
        "cell" => Type::Cell,
        "rgb8" => Type::Hex(8),
        "rgb6" => Type::Hex(6),
        "hex4" => Type::Hex(4),
        "guid" => Type::Guid,
        "spans" => Type::Spans,
        "rot" => Type::Rot,
        "dt" => Type::Dt,
        "border" => ty("e(none|thin|medium|dashed|dotted|thick|double|hair|mediumDashed|dashDot|mediumDashDot|dashDotDot|mediumDashDotDot|slantDashDot)"),
        "patt" => ty("e(pct5|pct10|pct20|pct25|pct30|pct40|pct50|pct60|pct70|pct75|pct80|pct90|horz|vert|ltHorz|ltVert|dkHorz|dkVert|narHorz|narVert|dashHorz|dashVert|cross|dnDiag|upDiag|ltDnDiag|ltUpDiag|dkDnDiag|dkUpDiag|wdDnDiag|wdUpDiag|dashDnDiag|dashUpDiag|diagCross|smCheck|lgCheck|smGrid|lgGrid|dotGrid|smConfetti|lgConfetti|horzBrick|diagBrick|solidDmnd|openDmnd|dotDmnd|plaid|sphere|weave|divot|shingle|wave|trellis|zigZag)"),
        _ => panic!("harness bug: type {s:?}"),
    }
}

fn plain_int(s: &str) -> Option<i64> {
    let d = s.strip_prefix('-').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

/// The lexical form of an XSD double (finite).
pub fn plain_double(s: &str) -> Option<f64> {
    if !s
        .bytes()
        .all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b))
    {
        return None;
    }
    s.parse::<f64>().ok().filter(|f| f.is_finite())
}

fn range_ok(s: &str) -> bool {
    crate::book::parse_range(s).is_some_and(|(a, b, c, d)| a <= c && b <= d)
}

impl Type {
    fn ok(&self, v: &str) -> bool {
        match self {
            Type::B => matches!(v, "0" | "1" | "true" | "false"),
            Type::U(lo, hi) => plain_int(v).is_some_and(|i| i >= *lo && i <= *hi),
            Type::I(lo, hi) => plain_int(v).is_some_and(|i| i >= *lo && i <= *hi),
            Type::D(lo, hi) => plain_double(v).is_some_and(|f| f >= *lo && f <= *hi),
            Type::S(n) => {
                *n == usize::MAX || v.chars().count() <= *n || xstring(v).chars().count() <= *n
            }
            Type::E(l) => l.iter().any(|x| x == v),
            Type::Ref => range_ok(v),
            Type::Sqref => !v.is_empty() && v.split(' ').all(range_ok),
            Type::Cell => crate::book::parse_a1(v).is_some(),
            Type::Hex(n) => v.len() == *n && v.bytes().all(|b| b.is_ascii_hexdigit()),
            Type::Guid => {
                v.len() == 38
                    && v.bytes().enumerate().all(|(i, b)| match i {
                        0 => b == b'{',
                        37 => b == b'}',
                        9 | 14 | 19 | 24 => b == b'-',
                        _ => b.is_ascii_hexdigit(),
                    })
            }
            Type::Spans => v.split(' ').all(|s| {
                s.split_once(':')
                    .is_some_and(|(a, b)| match (plain_int(a), plain_int(b)) {
                        (Some(a), Some(b)) => 1 <= a && a <= b && b <= 16384,
                        _ => false,
                    })
            }),
            Type::Rot => plain_int(v).is_some_and(|i| (0..=180).contains(&i) || i == 255),
            Type::Dt => {
                let b = v.as_bytes();
                b.len() == 20
                    && b.iter().enumerate().all(|(i, c)| match i {
                        4 | 7 => *c == b'-',
                        10 => *c == b'T',
                        13 | 16 => *c == b':',
                        19 => *c == b'Z',
                        _ => c.is_ascii_digit(),
                    })
                    && (1..=12).contains(&v[5..7].parse().unwrap_or(0))
                    && (1..=31).contains(&v[8..10].parse().unwrap_or(0))
                    && v[11..13].parse().unwrap_or(99) < 24
                    && v[14..16].parse().unwrap_or(99) < 60
                    && v[17..19].parse().unwrap_or(99) < 60
            }
        }
    }
}

fn rule(attrs: &str, content: &str) -> Rule {
    let mut m = BTreeMap::new();
    for a in attrs.split_whitespace() {
        // The name may hold a colon itself: split at the last one before any
        // parenthesis.
        let head = a.find('(').unwrap_or(a.len());
        let i = a[..head]
            .rfind(':')
            .unwrap_or_else(|| panic!("harness bug: attribute {a:?}"));
        let (n, t) = (&a[..i], &a[i + 1..]);
        let (n, req) = match n.strip_suffix('!') {
            Some(n) => (n, true),
            None => (n, false),
        };
        m.insert(n.to_string(), (req, ty(t)));
    }
    let c = content.trim();
    let content = if c == "-" || c.is_empty() {
        Content::Empty
    } else if let Some(t) = c.strip_prefix('#') {
        Content::Text(ty(t))
    } else if c.starts_with('%') {
        Content::All(c.split_whitespace().map(|x| x[1..].to_string()).collect())
    } else {
        Content::Seq(
            c.split_whitespace()
                .map(|p| {
                    let (n, min, max) = if let Some(n) = p.strip_suffix('?') {
                        (n, 0, 1)
                    } else if let Some(n) = p.strip_suffix('*') {
                        (n, 0, usize::MAX)
                    } else if let Some(n) = p.strip_suffix('+') {
                        (n, 1, usize::MAX)
                    } else if let Some((n, r)) = p.split_once('{') {
                        let (a, b) = r.trim_end_matches('}').split_once(',').unwrap_or(("0", ""));
                        (n, a.parse().unwrap_or(0), b.parse().unwrap_or(usize::MAX))
                    } else {
                        (p, 1, 1)
                    };
                    Part {
                        // `a*|b*` is a choice repeated as a whole.
                        names: n
                            .split('|')
                            .map(|x| x.trim_end_matches('*').to_string())
                            .collect(),
                        min,
                        max,
                    }
                })
                .collect(),
        )
    };
    Rule { attrs: m, content }
}

pub fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        let mut parts: Vec<(String, BTreeMap<String, Rule>)> = vec![];
        let mut dml = vec![];
        let text = include_str!("mon/schema.txt");
        for l in text.lines() {
            if l.starts_with('#') || l.trim().is_empty() {
                continue;
            }
            if let Some(s) = l.strip_prefix('[') {
                parts.push((
                    s.trim_end_matches(']').trim_start_matches('^').to_string(),
                    BTreeMap::new(),
                ));
                continue;
            }
            if l == ">dml" {
                dml.push(parts.len() - 1);
                continue;
            }
            let (n, a, c) = split_line(l);
            let p = parts.last_mut().unwrap();
            assert!(
                p.1.insert(n.to_string(), rule(&a, &c)).is_none(),
                "harness bug: twice {n}"
            );
        }
        // Copy the shared drawing rules where they are used.
        let lines: Vec<&str> = text.lines().skip_while(|l| *l != "[dml]").skip(1).collect();
        for d in dml {
            for l in &lines {
                if l.trim().is_empty() {
                    continue;
                }
                let (n, a, c) = split_line(l);
                parts[d]
                    .1
                    .entry(n.to_string())
                    .or_insert_with(|| rule(&a, &c));
            }
        }
        Schema { parts }
    })
}

/// Split a line at the '|' outside parentheses (enumerations use '|' too).
fn split_line(l: &str) -> (String, String, String) {
    let mut cuts = vec![];
    let mut depth = 0;
    for (i, ch) in l.char_indices() {
        match ch {
            '(' => depth += 1,
            ')' => depth -= 1,
            '|' if depth == 0 && cuts.len() < 2 => cuts.push(i),
            _ => {}
        }
    }
    assert!(cuts.len() == 2, "harness bug: line {l:?}");
    (
        l[..cuts[0]].trim().into(),
        l[cuts[0] + 1..cuts[1]].trim().into(),
        l[cuts[1] + 1..].trim().into(),
    )
}

impl Schema {
    /// Check a part; calls back with (signature, message). Returns the number
    /// of elements checked, or None when the part has no schema.
    pub fn check(&self, part: &str, x: &Elem, out: &mut dyn FnMut(String, String)) -> Option<u64> {
        let (_, rules) = self
            .parts
            .iter()
            .find(|(p, _)| part.starts_with(p.as_str()))?;
        let mut n = 0;
        check_elem(rules, part, x, "", &mut n, out);
        Some(n)
    }
}

fn check_elem(
    rules: &BTreeMap<String, Rule>,
    part: &str,
    e: &Elem,
    parent: &str,
    n: &mut u64,
    out: &mut dyn FnMut(String, String),
) {
    *n += 1;
    let Some(r) = rules
        .get(&format!("{}@{parent}", e.name))
        .or_else(|| rules.get(&e.name))
    else {
        out(
            format!("unknown element {}", e.name),
            format!("{part}: <{}> in <{parent}>", e.name),
        );
        return;
    };
    for (a, v) in &e.attrs {
        if a.starts_with("xmlns") || a == "mc:Ignorable" {
            continue;
        }
        match r.attrs.get(a) {
            None => out(
                format!("unknown attribute {}/{a}", e.name),
                format!("{part}: <{} {a}={v:?}>", e.name),
            ),
            Some((_, t)) => {
                if !t.ok(v) {
                    out(
                        format!("attribute value {}/{a}", e.name),
                        format!("{part}: <{} {a}={v:?}>", e.name),
                    );
                }
            }
        }
    }
    for (a, (req, _)) in &r.attrs {
        if *req && e.attr(a).is_none() {
            out(
                format!("missing attribute {}/{a}", e.name),
                format!("{part}: <{}> without {a}", e.name),
            );
        }
    }
    let kids: Vec<&str> = e.elems().map(|k| k.name.as_str()).collect();
    let text: String = e
        .kids
        .iter()
        .filter_map(|k| {
            if let Kid::T(t) = k {
                Some(t.as_str())
            } else {
                None
            }
        })
        .collect();
    match &r.content {
        Content::Text(t) => {
            if !kids.is_empty() {
                out(
                    format!("content {}", e.name),
                    format!("{part}: <{}> holds elements {kids:?}", e.name),
                );
            }
            if !t.ok(&text) {
                out(
                    format!("text {}", e.name),
                    format!("{part}: <{}> holds {text:?}", e.name),
                );
            }
            return;
        }
        Content::Empty => {
            if !kids.is_empty() || !text.trim().is_empty() {
                out(
                    format!("content {}", e.name),
                    format!("{part}: <{}> should be empty: {kids:?} {text:?}", e.name),
                );
            }
            return;
        }
        Content::All(set) => {
            let mut seen = BTreeSet::new();
            for k in &kids {
                if !set.contains(*k) || !seen.insert(*k) {
                    out(
                        format!("content {} {k}", e.name),
                        format!("{part}: <{k}> in <{}> {kids:?}", e.name),
                    );
                }
            }
        }
        Content::Seq(seq) => {
            let mut i = 0;
            for p in seq {
                let mut c = 0;
                while i < kids.len() && c < p.max && p.names.iter().any(|x| x == kids[i]) {
                    i += 1;
                    c += 1;
                }
                if c < p.min {
                    out(
                        format!("content {} needs {}", e.name, p.names.join("|")),
                        format!("{part}: <{}> has {c} of {:?}: {kids:?}", e.name, p.names),
                    );
                    break;
                }
            }
            if i < kids.len() {
                out(
                    format!("order {} {}", e.name, kids[i]),
                    format!(
                        "{part}: <{}> does not belong at place {i} of <{}>: {kids:?}",
                        kids[i], e.name
                    ),
                );
            }
        }
    }
    if !text.trim().is_empty() {
        out(
            format!("stray text {}", e.name),
            format!("{part}: <{}> holds text {text:?}", e.name),
        );
    }
    for k in e.elems() {
        check_elem(rules, part, k, &e.name, n, out);
    }
}
