//! C28 document properties.

use crate::book::split_sheet_ref;
use crate::gen::{self, TextOpt};
use crate::mon::c18::quoted;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::open_wb;
use crate::xml::{xstring, Elem};
use rust_xlsxwriter::{Chart, ChartType, DocProperties, ExcelDateTime, Workbook};
use std::collections::{BTreeMap, BTreeSet};

const TEXT: TextOpt = TextOpt {
    ctrl: false,
    breaks: false,
    nonchar: false,
    esc: false,
};

#[derive(Clone, Debug, PartialEq)]
enum Custom {
    Text(String),
    Int(i32),
    Real(f64),
    Bool(bool),
    Date(i64),
}

#[derive(Clone, Debug, Default)]
struct Model {
    texts: BTreeMap<&'static str, String>,
    /// Seconds since 1970.
    created: Option<i64>,
    custom: Vec<(String, Custom)>,
}

const CORE: [(&str, &str); 6] = [
    ("title", "dc:title"),
    ("subject", "dc:subject"),
    ("keywords", "cp:keywords"),
    ("comment", "dc:description"),
    ("category", "cp:category"),
    ("status", "cp:contentStatus"),
];

/// Days since 1970 of a date of the Gregorian calendar.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

/// The seconds of a W3C date and time.
fn w3c(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    let ok = b.len() >= 20
        && b.iter().enumerate().take(19).all(|(i, c)| match i {
            4 | 7 => *c == b'-',
            10 => *c == b'T',
            13 | 16 => *c == b':',
            _ => c.is_ascii_digit(),
        });
    if !ok {
        return None;
    }
    let rest = &s[19..];
    let frac = rest.strip_suffix('Z')?;
    if !frac.is_empty() {
        let d = frac.strip_prefix('.')?;
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
    }
    let n = |a: usize, z: usize| s[a..z].parse::<i64>().ok();
    let (y, mo, d) = (n(0, 4)?, n(5, 7)?, n(8, 10)?);
    let (h, mi, se) = (n(11, 13)?, n(14, 16)?, n(17, 19)?);
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let last = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&mo) || d < 1 || d > last[(mo - 1) as usize] || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    Some(days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se)
}

/// A date and time with the second it lies in.
fn when(r: &mut Rng) -> Option<(ExcelDateTime, i64, String)> {
    let (y, m, d) = match r.below(5) {
        0 => (1900, r.u8(3, 12), r.u8(1, 28)),
        1 => (9999, 12, 31),
        2 => (2024, 2, 29),
        _ => (r.u16(1901, 9998), r.u8(1, 12), r.u8(1, 28)),
    };
    let day = days(i64::from(y), i64::from(m), i64::from(d));
    let (h, mi, s) = (r.u16(0, 23), r.u8(0, 59), r.u8(0, 59));
    let clock = i64::from(h) * 3600 + i64::from(mi) * 60 + i64::from(s);
    match r.below(7) {
        0 => Some((ExcelDateTime::from_ymd(y, m, d).ok()?, day * 86400, format!("{y}-{m}-{d}"))),
        1 => {
            let t = day * 86400 + clock;
            Some((ExcelDateTime::from_timestamp(t).ok()?, t, format!("unix {t}")))
        }
        2 => {
            let ms = r.u16(0, 999);
            let dt = ExcelDateTime::from_ymd(y, m, d).ok()?.and_hms_milli(h, mi, s, ms).ok()?;
            Some((dt, day * 86400 + clock, format!("{y}-{m}-{d} {h}:{mi}:{s}.{ms:03}")))
        }
        3 => {
            let f = f64::from(s) + *r.pick(&[0.25, 0.5, 0.75, 0.0]);
            let dt = ExcelDateTime::from_ymd(y, m, d).ok()?.and_hms(h, mi, f).ok()?;
            Some((dt, day * 86400 + clock, format!("{y}-{m}-{d} {h}:{mi}:{f}")))
        }
        4 => {
            // Half days only, so that the serial number is exact.
            let half = r.u8(0, 1);
            let n = (day + 25569) as f64 + f64::from(half) / 2.0;
            let dt = ExcelDateTime::from_serial_datetime(n).ok()?;
            Some((dt, day * 86400 + i64::from(half) * 43200, format!("serial {n}")))
        }
        5 => {
            let t = format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z");
            Some((ExcelDateTime::parse_from_str(&t).ok()?, day * 86400 + clock, t))
        }
        _ => {
            let dt = ExcelDateTime::from_ymd(y, m, d).ok()?.and_hms(h, mi, s).ok()?;
            Some((dt, day * 86400 + clock, format!("{y}-{m}-{d} {h}:{mi}:{s}")))
        }
    }
}

fn props(r: &mut Rng, log: &mut Vec<String>) -> (DocProperties, Model) {
    let mut p = DocProperties::new();
    let mut m = Model::default();
    for _ in 0..r.u8(0, 12) {
        let mut t = gen::text(r, 30, TEXT);
        if r.one_in(8) {
            t = "long text ".repeat(r.usize(60));
        }
        let k = *r.pick(&[
            "title", "subject", "manager", "company", "category", "author", "keywords", "comment", "status",
            "hyperlink_base",
        ]);
        p = match k {
            "title" => p.set_title(t.as_str()),
            "subject" => p.set_subject(t.as_str()),
            "manager" => p.set_manager(t.as_str()),
            "company" => p.set_company(t.as_str()),
            "category" => p.set_category(t.as_str()),
            "author" => p.set_author(t.as_str()),
            "keywords" => p.set_keywords(t.as_str()),
            "comment" => p.set_comment(t.as_str()),
            "status" => p.set_status(t.as_str()),
            _ => p.set_hyperlink_base(t.as_str()),
        };
        m.texts.insert(k, t);
    }
    // Always given, or every case would depend on the clock.
    if let Some((dt, t, text)) = when(r) {
        log.push(format!("created {text}"));
        p = p.set_creation_datetime(&dt);
        m.created = Some(t);
    }
    let mut names = BTreeSet::new();
    for i in 0..r.u8(0, 6) {
        let mut name = gen::text(r, 12, TEXT);
        // The names have to differ and can't be blank.
        if name.trim().is_empty() || !names.insert(name.to_lowercase()) {
            name = format!("Prop {i}");
            names.insert(name.to_lowercase());
        }
        // A name which is set twice keeps its place and gets the new value.
        if let Some((n, _)) = m.custom.get(r.usize(8)) {
            name = n.clone();
        }
        let v = match r.below(6) {
            0 => {
                let t = gen::text(r, 30, TEXT);
                p = if r.bool() {
                    p.set_custom_property(name.as_str(), t.as_str())
                } else {
                    p.set_custom_property(name.as_str(), t.clone())
                };
                Custom::Text(t)
            }
            1 => {
                let n = match r.below(3) {
                    0 => *r.pick(&[0, 1, -1, i32::MAX, i32::MIN]),
                    _ => r.range(-1_000_000, 1_000_000) as i32,
                };
                p = p.set_custom_property(name.as_str(), n);
                Custom::Int(n)
            }
            2 | 3 => {
                let n = gen::number(r);
                p = p.set_custom_property(name.as_str(), n);
                Custom::Real(n)
            }
            4 => {
                let n = r.bool();
                p = p.set_custom_property(name.as_str(), n);
                Custom::Bool(n)
            }
            _ => match when(r) {
                None => continue,
                Some((dt, t, _)) => {
                    p = p.set_custom_property(name.as_str(), &dt);
                    Custom::Date(t)
                }
            },
        };
        match m.custom.iter_mut().find(|(n, _)| *n == name) {
            Some(x) => x.1 = v,
            None => m.custom.push((name, v)),
        }
    }
    (p, m)
}

fn one(ctx: &mut Ctx, x: &Elem, n: &str, at: &str) -> Option<String> {
    let v: Vec<String> = x.children(n).map(|e| xstring(&e.text())).collect();
    ctx.check(v.len() <= 1, "again", || format!("{at}: {n} {} times", v.len()));
    v.into_iter().next()
}

pub fn case(ctx: &mut Ctx) {
    let mut wb = Workbook::new();
    let mut model = Model::default();
    let mut set = false;
    let mut sheets: Vec<(String, bool, u8)> = vec![];
    let mut names = 0;
    let saves = ctx.rng.u16(1, 3);
    for save in 0..saves {
        for _ in 0..ctx.rng.u16(u16::from(save == 0), 3) {
            let i = sheets.len();
            let name = gen::sheet_name(&mut ctx.rng, i);
            if sheets.iter().any(|s| s.0.to_lowercase() == name.to_lowercase()) {
                continue;
            }
            let chart = ctx.rng.one_in(4);
            let vis = if i == 0 { 0 } else { ctx.rng.below(4) as u8 };
            ctx.log(format!("sheet {name:?} chart {chart} hidden {vis}"));
            let ws = if chart {
                let ws = wb.add_chartsheet();
                let mut c = Chart::new(ChartType::Line);
                c.add_series().set_values((name.as_str(), 0, 0, 3, 0));
                if ws.insert_chart(0, 0, &c).is_err() {
                    ctx.fail("chart", "chart refused");
                    return;
                }
                ws
            } else {
                wb.add_worksheet()
            };
            if ws.set_name(&name).is_err() {
                ctx.fail("name", format!("sheet name {name:?} refused"));
                return;
            }
            match vis {
                2 => {
                    ws.set_hidden(true);
                }
                3 => {
                    ws.set_very_hidden(true);
                }
                _ => {}
            }
            if !chart && vis < 3 && ctx.rng.one_in(3) {
                let _ = ws.set_print_area(0, 0, 4, 4);
            }
            if !chart && vis < 3 && ctx.rng.one_in(4) {
                let _ = ws.set_repeat_rows(0, 1);
            }
            if !chart && ctx.rng.one_in(4) {
                let _ = ws.autofilter(0, 0, 4, 4);
            }
            sheets.push((name, chart, vis));
        }
        for _ in 0..ctx.rng.u16(0, 2) {
            names += 1;
            let i = ctx.rng.usize(sheets.len());
            let q = quoted(&sheets[i].0);
            let n = if ctx.rng.bool() && !sheets[i].0.contains('!') {
                format!("{q}!Local{names}")
            } else {
                format!("Global{names}")
            };
            let f = match ctx.rng.below(4) {
                0 => "=0.98".to_string(),
                _ => format!("={q}!$A${names}"),
            };
            ctx.log(format!("name {n} {f}"));
            if wb.define_name(n.as_str(), &f).is_err() {
                ctx.fail("name", format!("{n} refused"));
                return;
            }
        }
        if !set || ctx.rng.bool() {
            let mut log = vec![];
            let (p, m) = props(&mut ctx.rng, &mut log);
            for l in log {
                ctx.log(l);
            }
            ctx.log(format!("{m:?}"));
            wb.set_properties(&p);
            model = m;
            set = true;
        }
        let at = format!("save {save}");
        let Some(b) = open_wb(ctx, &mut wb) else { return };
        // The package's own parts.
        let roots = b.pkg.rels("").unwrap_or_default();
        let part = |kind: &str| roots.iter().find(|r| r.kind == kind).map(|r| r.part.clone());
        let (Some(core), Some(app)) = (part("core-properties"), part("extended-properties")) else {
            ctx.fail("parts", format!("{at}: property parts are missing"));
            return;
        };
        match b.pkg.xml(&core) {
            Err(e) => ctx.fail("core", format!("{at}: {e}")),
            Ok(x) => {
                for (k, n) in CORE {
                    let got = one(ctx, &x, n, &at);
                    let want = model.texts.get(k).filter(|t| !t.is_empty());
                    ctx.eq(&got.as_ref(), &want, k, &at);
                }
                let author = model.texts.get("author").cloned().unwrap_or_default();
                for n in ["dc:creator", "cp:lastModifiedBy"] {
                    let got = one(ctx, &x, n, &at).unwrap_or_default();
                    ctx.eq(&got, &author, "author", &at);
                }
                for n in ["dcterms:created", "dcterms:modified"] {
                    let got = one(ctx, &x, n, &at).unwrap_or_default();
                    let kind = x.child(n).map(|e| e.a("xsi:type").to_string());
                    ctx.eq(&kind.as_deref(), &Some("dcterms:W3CDTF"), "date", &at);
                    ctx.check(w3c(&got).is_some() && w3c(&got) == model.created, "date", || {
                        format!("{at}: {n} is {got:?} instead of {:?}", model.created)
                    });
                }
            }
        }
        match b.pkg.xml(&app) {
            Err(e) => ctx.fail("app", format!("{at}: {e}")),
            Ok(x) => {
                for (k, n) in [("manager", "Manager"), ("company", "Company"), ("hyperlink_base", "HyperlinkBase")] {
                    let got = one(ctx, &x, n, &at).filter(|t| !t.is_empty());
                    let want = model.texts.get(k).filter(|t| !t.is_empty());
                    ctx.eq(&got.as_ref(), &want, k, &at);
                }
                let pairs: Vec<String> = x
                    .path("HeadingPairs/vt:vector")
                    .iter()
                    .flat_map(|v| v.children("vt:variant"))
                    .map(|v| v.all_text())
                    .collect();
                let titles: Vec<String> = x
                    .path("TitlesOfParts/vt:vector")
                    .iter()
                    .flat_map(|v| v.children("vt:lpstr"))
                    .map(|v| xstring(&v.text()))
                    .collect();
                let list = |chart: bool| -> Vec<String> {
                    sheets.iter().filter(|s| s.1 == chart && s.2 < 3).map(|s| s.0.clone()).collect()
                };
                // The names, as found in the workbook.
                let mut named = vec![];
                let wx = b.pkg.xml("xl/workbook.xml").unwrap_or_default();
                for d in wx.path("definedNames").iter().flat_map(|l| l.children("definedName")) {
                    let (n, f) = (d.a("name"), d.text());
                    let sheet = d.int("localSheetId").and_then(|i| b.sheets.get(i as usize));
                    let n = n.strip_prefix("_xlnm.").unwrap_or(n);
                    match sheet {
                        _ if n == "_FilterDatabase" => {}
                        Some(s) => named.push(format!("{}!{n}", quoted(&s.name))),
                        None if f.contains('!') => named.push(n.to_string()),
                        None => {}
                    }
                }
                let mut want_pairs = vec![];
                let mut rest = titles.clone();
                for (k, l) in [("Worksheets", list(false)), ("Charts", list(true))] {
                    if !l.is_empty() {
                        want_pairs.push(k.to_string());
                        want_pairs.push(l.len().to_string());
                    }
                    let n = l.len().min(rest.len());
                    let got: Vec<String> = rest.drain(..n).collect();
                    ctx.eq(&got, &l, "titles", &format!("{at}: {k}"));
                }
                if !named.is_empty() {
                    want_pairs.push("Named Ranges".into());
                    want_pairs.push(named.len().to_string());
                }
                ctx.eq(&pairs, &want_pairs, "heading pairs", &at);
                // Local names may be quoted more than needed.
                let plain = |v: &[String]| -> Vec<(String, String)> {
                    let mut l: Vec<_> = v
                        .iter()
                        .map(|s| split_sheet_ref(s).unwrap_or((String::new(), s.clone())))
                        .collect();
                    l.sort();
                    l
                };
                ctx.eq(&plain(&rest), &plain(&named), "named ranges", &at);
                for (p, n) in [("HeadingPairs", pairs.len()), ("TitlesOfParts", titles.len())] {
                    let size = x.path(&format!("{p}/vt:vector")).and_then(|v| v.int("size"));
                    ctx.eq(&size, &Some(n as i64), "vector", &format!("{at}: {p}"));
                }
            }
        }
        let custom = part("custom-properties");
        ctx.eq(&custom.is_some(), &!model.custom.is_empty(), "custom part", &at);
        if let Some(x) = custom.and_then(|p| b.pkg.xml(&p).ok()) {
            let mut pids = BTreeSet::new();
            let mut got = vec![];
            for e in x.children("property") {
                let pid = e.int("pid").unwrap_or(0);
                ctx.check(pid >= 2 && pids.insert(pid), "pid", || format!("{at}: pid {pid} is used again"));
                let name = e.a("name").to_string();
                let v = e.elems().next();
                let t = v.map(|v| v.text()).unwrap_or_default();
                let val = match v.map(|v| v.local()).unwrap_or_default() {
                    "lpwstr" => Some(Custom::Text(xstring(&t))),
                    "i4" => t.parse().ok().map(Custom::Int),
                    "r8" => t.parse().ok().map(Custom::Real),
                    "bool" => t.parse().ok().map(Custom::Bool),
                    "filetime" => w3c(&t).map(Custom::Date),
                    _ => None,
                };
                match val {
                    Some(v) => got.push((name, v)),
                    None => ctx.fail("custom", format!("{at}: property {name:?} is {}", e.show())),
                }
            }
            ctx.eq(&got, &model.custom, "custom", &at);
        }
        if !ctx.fails.is_empty() {
            return;
        }
    }
    ctx.add("properties", model.texts.len() as u64);
    ctx.add("custom properties", model.custom.len() as u64);
    ctx.nontrivial = model.texts.len() + model.custom.len() > 1;
}
