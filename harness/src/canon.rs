//! A package with its interned indices (styles, differential styles, shared
//! strings) replaced by what they stand for, for comparing packages that should
//! mean the same.

use crate::book::Book;
use crate::pkg::Pkg;
use crate::xml::{Elem, Kid};
use std::collections::BTreeMap;

pub type Canon = BTreeMap<String, Vec<String>>;

fn put(e: &Elem, path: &str, out: &mut Vec<String>, f: &dyn Fn(&Elem, &str, &str) -> String) {
    let mut s = format!("{path}/{}", e.name);
    for (k, v) in &e.attrs {
        s.push_str(&format!(" {k}={:?}", f(e, k, v)));
    }
    out.push(s);
    let p = if path.len() > 60 {
        format!("../{}", e.name)
    } else {
        format!("{path}/{}", e.name)
    };
    for k in &e.kids {
        match k {
            Kid::E(c) => put(c, &p, out, f),
            Kid::T(t) => out.push(format!("{p} text {:?}", f(e, "", t))),
        }
    }
}

fn xf(b: &Book, v: &str) -> String {
    match v.parse::<usize>() {
        Ok(i) if i < b.styles.xfs.len() => format!("{:?}", b.styles.xfs[i]),
        _ => format!("xf {v}"),
    }
}

fn dxf(b: &Book, v: &str) -> String {
    match v.parse::<usize>() {
        Ok(i) if i < b.styles.dxfs.len() => format!("{:?}", b.styles.dxfs[i]),
        _ => format!("dxf {v}"),
    }
}

fn sst(b: &Book, v: &str) -> String {
    if let (Some(x), Ok(i)) = (&b.sst_xml, v.parse::<usize>()) {
        if let Some(si) = x.elems().nth(i) {
            let mut o = vec![];
            put(si, "", &mut o, &|_, _, v| v.to_string());
            return o.join("|");
        }
    }
    format!("string {v}")
}

/// Every part, as lines.
pub fn canon(b: &Book) -> Result<Canon, String> {
    let mut out = Canon::new();
    // Shared strings by index, decoded once.
    let n = b.sst_xml.as_ref().map_or(0, |x| x.elems().count());
    let strings: Vec<String> = (0..n).map(|i| sst(b, &i.to_string())).collect();
    for e in &b.pkg.entries {
        let name = e.name.as_str();
        if name == "xl/styles.xml" || name == "xl/sharedStrings.xml" {
            out.insert(name.to_string(), vec![]);
            continue;
        }
        if !Pkg::is_xml(name) {
            out.insert(
                name.to_string(),
                vec![format!(
                    "{} bytes {:016x}",
                    e.data.len(),
                    crate::rng::fnv(&e.data)
                )],
            );
            continue;
        }
        let x = b.pkg.xml(name)?;
        let mut v = vec![];
        put(&x, "", &mut v, &|e, k, v| match (e.name.as_str(), k) {
            ("c", "s") | ("row", "s") | ("col", "style") => xf(b, v),
            (_, "dxfId" | "headerRowDxfId" | "dataDxfId" | "totalsRowDxfId") => dxf(b, v),
            _ => v.to_string(),
        });
        if name == "[Content_Types].xml" {
            // Defaults for extensions no part has mean nothing.
            let exts: Vec<String> = b
                .pkg
                .entries
                .iter()
                .filter_map(|e| e.name.rsplit_once('.'))
                .map(|(_, x)| format!("Extension={x:?}"))
                .collect();
            v.retain(|l| !l.contains("/Default ") || exts.iter().any(|x| l.contains(x.as_str())));
            v.sort();
        }
        if name.starts_with("xl/charts/") {
            // Axis ids only have to match each other.
            let mut ids: Vec<String> = vec![];
            for l in &mut v {
                if l.contains("/c:axId ") || l.contains("/c:crossAx ") {
                    if let Some((h, id)) = l.rsplit_once('=') {
                        let n = ids.iter().position(|i| i == id).unwrap_or_else(|| {
                            ids.push(id.to_string());
                            ids.len() - 1
                        });
                        *l = format!("{h}=axis {n}");
                    }
                }
            }
        }
        if name.starts_with("xl/comments") {
            // Authors by name.
            let names: Vec<String> = x
                .find_all("author")
                .iter()
                .map(|a| format!("{:?}", a.text()))
                .collect();
            for l in &mut v {
                if let Some((h, id)) = l.rsplit_once("authorId=") {
                    let n: Option<usize> = id.trim_matches('"').parse().ok();
                    let a = n.and_then(|n| names.get(n)).cloned().unwrap_or_default();
                    *l = format!("{h}author {a}");
                }
            }
        }
        if name.starts_with("xl/worksheets/") {
            // The dimension is a hint that may cover more than the cells (its
            // own rule is in C01).
            v.retain(|l| !l.starts_with("/worksheet/dimension"));
            // Cells of shared strings.
            let mut shared = false;
            for l in &mut v {
                if l.starts_with("/worksheet/sheetData/row/c ") {
                    shared = l.contains(" t=\"s\"");
                } else if shared && l.starts_with("/worksheet/sheetData/row/c/v text ") {
                    let i: Option<usize> = l
                        .rsplit(' ')
                        .next()
                        .and_then(|s| s.trim_matches('"').parse().ok());
                    if let Some(s) = i.and_then(|i| strings.get(i)) {
                        *l = format!("string {s}");
                    }
                }
            }
        }
        out.insert(name.to_string(), v);
    }
    Ok(out)
}

pub fn of(bytes: &[u8]) -> Result<Canon, String> {
    canon(&Book::open(bytes)?)
}

/// The first differences between two packages: part, got, expected.
pub fn diff(got: &Canon, want: &Canon) -> Vec<(String, String, String)> {
    let mut out = vec![];
    for (k, g) in got {
        let Some(w) = want.get(k) else {
            out.push((k.clone(), "present".into(), "absent".into()));
            continue;
        };
        if g != w {
            let i = g
                .iter()
                .zip(w)
                .position(|(a, b)| a != b)
                .unwrap_or(g.len().min(w.len()));
            let cut = |v: &Vec<String>| -> String {
                v.get(i)
                    .map_or("(end)".into(), |s| s.chars().take(400).collect())
            };
            out.push((k.clone(), cut(g), cut(w)));
        }
    }
    for k in want.keys() {
        if !got.contains_key(k) {
            out.push((k.clone(), "absent".into(), "present".into()));
        }
    }
    out
}

/// A part name without its digits, for signatures.
pub fn kind(part: &str) -> String {
    let f = part.rsplit('/').next().unwrap_or(part);
    f.chars().filter(|c| !c.is_ascii_digit()).collect()
}

/// The element a line is about, for signatures.
pub fn head(line: &str) -> String {
    line.split(' ')
        .next()
        .unwrap_or("")
        .rsplit('/')
        .next()
        .unwrap_or("")
        .to_string()
}
