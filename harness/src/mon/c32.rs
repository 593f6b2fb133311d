//! C32 the collection of sheets: order, names, visibility and activation.

use crate::book::{Book, V};
use crate::gen;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::open_result;
use rust_xlsxwriter::{Chart, ChartType, Workbook, Worksheet, XlsxError};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Vis {
    Shown,
    Hidden,
    VeryHidden,
}

#[derive(Clone, Debug)]
struct S {
    name: String,
    chart: bool,
    constant: bool,
    active: bool,
    selected: bool,
    vis: Vis,
    first: bool,
    /// The content: the text of A1 or the title of the chart.
    mark: Option<String>,
}

impl S {
    fn new(name: String, chart: bool, constant: bool) -> S {
        S {
            name,
            chart,
            constant,
            active: false,
            selected: false,
            vis: Vis::Shown,
            first: false,
            mark: None,
        }
    }
}

fn name(r: &mut Rng, used: &[String]) -> String {
    match r.below(9) {
        0 if !used.is_empty() => {
            let n = r.pick(used).clone();
            let m = match r.below(3) {
                0 => n,
                1 => n.to_uppercase(),
                _ => n.to_lowercase(),
            };
            m.chars().take(31).collect()
        }
        1 => format!("Sheet{}", r.below(6)),
        2 => format!("Chart{}", r.below(4)),
        3 => "x".repeat(r.u16(1, 31) as usize),
        4 => format!("É{}", r.below(4)),
        5 => format!("é{}", r.below(4)),
        6 => format!(" {} ", r.below(1000)),
        _ => {
            let k = r.usize(100);
            gen::sheet_name(r, k)
        }
    }
}

fn bad_name(r: &mut Rng) -> String {
    match r.below(5) {
        0 => String::new(),
        1 => "é".repeat(r.u16(32, 60) as usize),
        2 => format!("'{}", gen::word(r)),
        3 => format!("{}'", gen::word(r)),
        _ => format!("{}{}a", gen::word(r), r.pick(&['*', '?', ':', '[', ']', '\\', '/'])),
    }
}

/// One setting of a sheet, applied to the sheet and the model.
fn setting(ctx: &mut Ctx, ws: &mut Worksheet, m: &mut S, used: &mut Vec<String>, k: u64, at: &str) {
    let on = ctx.rng.pct(75);
    match ctx.rng.below(12) {
        0 | 1 => {
            ctx.log(format!("{at}: active {on}"));
            ws.set_active(on);
            m.active = on;
            if on {
                m.selected = true;
                m.vis = Vis::Shown;
            }
        }
        2 | 3 => {
            ctx.log(format!("{at}: selected {on}"));
            ws.set_selected(on);
            m.selected = on;
            if on {
                m.vis = Vis::Shown;
            }
        }
        4 | 5 => {
            ctx.log(format!("{at}: hidden {on}"));
            ws.set_hidden(on);
            m.vis = if on { Vis::Hidden } else { Vis::Shown };
            if on {
                m.selected = false;
                m.active = false;
            }
        }
        6 => {
            ctx.log(format!("{at}: very hidden {on}"));
            ws.set_very_hidden(on);
            m.vis = if on { Vis::VeryHidden } else { Vis::Shown };
            if on {
                m.selected = false;
                m.active = false;
            }
        }
        7 | 8 => {
            ctx.log(format!("{at}: first tab {on}"));
            ws.set_first_tab(on);
            m.first = on;
        }
        9 => {
            let n = bad_name(&mut ctx.rng);
            ctx.log(format!("{at}: refused name {n:?}"));
            let r = ws.set_name(n.as_str()).is_err();
            ctx.check(r, "name", || format!("{n:?} was accepted"));
        }
        10 => {
            let n = name(&mut ctx.rng, used);
            ctx.log(format!("{at}: name {n:?}"));
            if let Err(e) = ws.set_name(n.as_str()) {
                ctx.fail("name", format!("{n:?}: {e}"));
            } else {
                used.push(n.clone());
                m.name = n;
            }
        }
        _ => {
            let t = format!("mark {k}");
            ctx.log(format!("{at}: content {t:?}"));
            let r = if m.chart {
                if m.mark.is_some() {
                    return;
                }
                let mut c = Chart::new(ChartType::Column);
                c.add_series().set_values("Data!$B$1:$B$3");
                c.title().set_name(t.as_str());
                ws.insert_chart(0, 0, &c).map(|_| ())
            } else {
                ws.write(0, 0, t.as_str()).map(|_| ())
            };
            match r {
                Ok(()) => m.mark = Some(t),
                Err(e) => ctx.fail("content", format!("{t}: {e}")),
            }
        }
    }
}

/// Whether a save has to succeed, and with which error it may be refused.
fn expected(ms: &[S]) -> Option<&'static str> {
    let mut seen = BTreeSet::new();
    for m in ms {
        if !seen.insert(m.name.to_lowercase()) {
            return Some("name");
        }
    }
    if ms.iter().any(|m| m.chart && m.mark.is_none()) {
        return Some("chart");
    }
    if ms.iter().any(|m| m.chart) && !ms.iter().any(|m| m.name == "Data") {
        return Some("range");
    }
    None
}

fn check(ctx: &mut Ctx, b: &Book, ms: &[S]) {
    ctx.eq(&b.sheets.len(), &ms.len(), "sheets", "count");
    let chosen = ms.iter().rposition(|m| m.active).unwrap_or(0);
    let first = ms.iter().rposition(|m| m.first).unwrap_or(0);
    let mut ids = BTreeSet::new();
    let mut parts = BTreeSet::new();
    for (i, (m, s)) in ms.iter().zip(&b.sheets).enumerate() {
        let at = format!("sheet {i}");
        ctx.eq(&s.name, &m.name, "sheet name", &at);
        let id = s.sheet_id.parse::<u32>().unwrap_or(0);
        ctx.check(id > 0 && ids.insert(id), "sheet id", || format!("{at}: {:?}", s.sheet_id));
        ctx.check(parts.insert(s.part.clone()), "sheet part", || format!("{at}: {}", s.part));
        let vis = if i == chosen { Vis::Shown } else { m.vis };
        let want = match vis {
            Vis::Shown => "visible",
            Vis::Hidden => "hidden",
            Vis::VeryHidden => "veryHidden",
        };
        let got = if s.state.is_empty() { "visible" } else { s.state.as_str() };
        ctx.eq(&got, &want, "state", &at);
        ctx.eq(&s.is_chart, &m.chart, "kind", &at);
        let view = s.xml.path("sheetViews").and_then(|e| e.child("sheetView"));
        let sel = view.is_some_and(|e| e.flag("tabSelected", false));
        ctx.eq(&sel, &(m.selected || i == chosen), "selected", &at);
        if m.chart {
            let mut titles = vec![];
            for d in b.related(&s.rels, "drawing") {
                for c in b.related(&b.pkg.rels(&d).unwrap_or_default(), "chart") {
                    if let Ok(x) = b.pkg.xml(&c) {
                        titles.push(x.path("c:chart/c:title").map(|e| e.all_text()));
                    }
                }
            }
            ctx.eq(&titles, &vec![m.mark.clone()], "content", &at);
        } else {
            let got = s.cells.get(&(0, 0)).map(|c| c.v.clone());
            ctx.eq(&got, &m.mark.clone().map(V::Str), "content", &at);
        }
    }
    let views: Vec<_> = b.wb.path("bookViews").map(|e| e.children("workbookView").collect()).unwrap_or_default();
    ctx.eq(&views.len(), &1, "workbook views", "count");
    if let Some(v) = views.first() {
        ctx.eq(&v.int("activeTab").unwrap_or(0), &(chosen as i64), "active", "activeTab");
        // The attribute is counted from one, as in the reference files.
        let want = if first == 0 { 0 } else { first as i64 + 1 };
        ctx.eq(&v.int("firstSheet").unwrap_or(0), &want, "first tab", "firstSheet");
    }
}

pub fn case(ctx: &mut Ctx) {
    let mut wb = Workbook::new();
    let mut ms: Vec<S> = vec![];
    let mut used: Vec<String> = vec![];
    let (mut sheets, mut charts) = (0, 0);
    let mut saves = 0;
    let mut k = 0;
    let steps = ctx.rng.u16(2, 40);
    if ctx.rng.pct(66) {
        ctx.log("sheet Data");
        sheets = 1;
        if let Err(e) = wb.add_worksheet().set_name("Data") {
            ctx.fail("name", format!("{e}"));
        }
        ms.push(S::new("Data".to_string(), false, false));
    }
    for _ in 0..steps {
        k += 1;
        match ctx.rng.below(20) {
            0..=2 => {
                let mode = ctx.rng.below(3);
                sheets += 1;
                ctx.log(format!("add worksheet, mode {mode}"));
                let ws = match mode {
                    0 => wb.add_worksheet(),
                    1 => wb.add_worksheet_with_constant_memory(),
                    _ => wb.add_worksheet_with_low_memory(),
                };
                let m = S::new(format!("Sheet{sheets}"), false, mode > 0);
                let got = ws.name();
                ctx.eq(&got, &m.name, "default name", "added");
                ms.push(m);
            }
            3 => {
                charts += 1;
                ctx.log("add chartsheet");
                let got = wb.add_chartsheet().name();
                let m = S::new(format!("Chart{charts}"), true, false);
                ctx.eq(&got, &m.name, "default name", "added");
                ms.push(m);
            }
            4 | 5 => {
                let kind = ctx.rng.below(4);
                ctx.log(format!("push worksheet, kind {kind}"));
                let mut ws = match kind {
                    0 => Worksheet::new(),
                    1 => wb.new_worksheet_with_constant_memory(),
                    2 => wb.new_worksheet_with_low_memory(),
                    _ => Worksheet::new_chartsheet(),
                };
                let mut m = S::new(String::new(), kind == 3, kind == 1 || kind == 2);
                for _ in 0..ctx.rng.u16(0, 4) {
                    k += 1;
                    setting(ctx, &mut ws, &mut m, &mut used, k, "new sheet");
                }
                if ctx.rng.bool() {
                    // Other sheets may be added in between.
                    sheets += 1;
                    ctx.log("add worksheet, mode 0");
                    wb.add_worksheet();
                    ms.push(S::new(format!("Sheet{sheets}"), false, false));
                }
                wb.push_worksheet(ws);
                let n = if m.chart {
                    charts += 1;
                    format!("Chart{charts}")
                } else {
                    sheets += 1;
                    format!("Sheet{sheets}")
                };
                if m.name.is_empty() {
                    m.name = n;
                }
                let got = wb.worksheets().last().map(Worksheet::name);
                ctx.eq(&got, &Some(m.name.clone()), "default name", "pushed");
                ms.push(m);
            }
            6..=13 if !ms.is_empty() => {
                let i = ctx.rng.usize(ms.len());
                let at = format!("sheet {i}");
                match wb.worksheet_from_index(i) {
                    Ok(ws) => setting(ctx, ws, &mut ms[i], &mut used, k, &at),
                    Err(e) => ctx.fail("lookup", format!("{i}: {e}")),
                }
            }
            14 | 15 => {
                let n = if !ms.is_empty() && ctx.rng.pct(66) {
                    ctx.rng.pick(&ms).name.clone()
                } else {
                    name(&mut ctx.rng, &used)
                };
                ctx.log(format!("look up {n:?}"));
                let want = ms.iter().position(|m| m.name == n);
                match (wb.worksheet_from_name(&n), want) {
                    (Ok(ws), Some(i)) => {
                        let got = ws.name();
                        ctx.eq(&got, &n, "lookup", "name");
                        // The settings show which of the sheets was found.
                        let at = format!("sheet {i}");
                        setting(ctx, ws, &mut ms[i], &mut used, k, &at);
                    }
                    (Err(XlsxError::UnknownWorksheetNameOrIndex(e)), None) => {
                        ctx.eq(&e, &n, "lookup", "error");
                    }
                    (r, w) => {
                        let r = r.map(|w| w.name()).map_err(|e| e.to_string());
                        ctx.fail("lookup", format!("{n:?}: {r:?}, expected {w:?}"));
                    }
                }
            }
            16 => {
                let i = ms.len() + ctx.rng.usize(3);
                ctx.log(format!("look up sheet {i}"));
                let r = wb.worksheet_from_index(i).is_err();
                ctx.check(r, "lookup", || format!("sheet {i} of {} exists", ms.len()));
            }
            17 if ms.len() > 1 => {
                let v = wb.worksheets_mut();
                let (i, j) = (ctx.rng.usize(ms.len()), ctx.rng.usize(ms.len()));
                match ctx.rng.below(4) {
                    0 => {
                        ctx.log(format!("move sheet {i} to {j}"));
                        let w = v.remove(i);
                        v.insert(j, w);
                        let m = ms.remove(i);
                        ms.insert(j, m);
                    }
                    1 => {
                        ctx.log("sort by name");
                        v.sort_by_key(Worksheet::name);
                        ms.sort_by_key(|m| m.name.clone());
                    }
                    2 => {
                        ctx.log(format!("remove sheet {i}"));
                        v.remove(i);
                        ms.remove(i);
                    }
                    _ => {
                        ctx.log(format!("swap sheets {i} and {j}"));
                        v.swap(i, j);
                        ms.swap(i, j);
                    }
                }
                let got: Vec<_> = wb.worksheets().iter().map(Worksheet::name).collect();
                let want: Vec<_> = ms.iter().map(|m| m.name.clone()).collect();
                ctx.eq(&got, &want, "order", "worksheets()");
            }
            18 if expected(&ms).is_some() || !ms.iter().any(|m| m.constant) => {
                save(ctx, &mut wb, &mut ms, &mut sheets);
                saves += 1;
            }
            _ => {}
        }
    }
    // Most workbooks get fit for saving.
    if ctx.rng.pct(90) {
        let mut seen = BTreeSet::new();
        if ms.iter().any(|m| m.chart) && !ms.iter().any(|m| m.name == "Data") {
            sheets += 1;
            ms.push(S::new("Data".to_string(), false, false));
            if let Err(e) = wb.add_worksheet().set_name("Data") {
                ctx.fail("name", format!("{e}"));
            }
        }
        seen.insert("data".to_string());
        let mut data = false;
        for i in 0..ms.len() {
            let Ok(ws) = wb.worksheet_from_index(i) else { continue };
            if ms[i].name == "Data" && !data {
                data = true;
            } else if !seen.insert(ms[i].name.to_lowercase()) {
                let n = format!("{}~{i}", ms[i].name.chars().take(25).collect::<String>());
                ctx.log(format!("sheet {i}: name {n:?}"));
                if let Err(e) = ws.set_name(n.as_str()) {
                    ctx.fail("name", format!("{n:?}: {e}"));
                }
                seen.insert(n.to_lowercase());
                ms[i].name = n;
            }
            while ms[i].mark.is_none() && ms[i].chart {
                k += 1;
                setting(ctx, ws, &mut ms[i], &mut used, k, "last");
            }
        }
    }
    save(ctx, &mut wb, &mut ms, &mut sheets);
    ctx.add("sheets", ms.len() as u64);
    ctx.nontrivial = ms.len() > 1 && (saves > 0 || ms.iter().any(|m| m.active || m.first || m.vis != Vis::Shown));
}

fn save(ctx: &mut Ctx, wb: &mut Workbook, ms: &mut Vec<S>, sheets: &mut i32) {
    // An empty workbook gets a worksheet.
    if ms.is_empty() {
        *sheets += 1;
        ms.push(S::new(format!("Sheet{sheets}"), false, false));
    }
    let want = expected(ms);
    ctx.log(format!("save, expected to fail: {want:?}"));
    let r = wb.save_to_buffer();
    let Some(want) = want else {
        ctx.count("saves");
        if let Some(b) = open_result(ctx, r) {
            check(ctx, &b, ms);
        }
        return;
    };
    ctx.count("refused saves");
    let got = match &r {
        Ok(_) => "saved".to_string(),
        Err(XlsxError::SheetnameReused(_)) => "name".to_string(),
        Err(XlsxError::ChartError(_)) => "chart".to_string(),
        Err(XlsxError::UnknownWorksheetNameOrIndex(_)) => "range".to_string(),
        Err(e) => e.to_string(),
    };
    ctx.eq(&got.as_str(), &want, "refused save", "error");
}
