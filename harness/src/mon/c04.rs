//! C04 every part follows the structure Excel requires.

use crate::book::{self, parse_a1, parse_range};
use crate::kit::{self, Opt};
use crate::pkg::Pkg;
use crate::run::Ctx;
use crate::schema::{plain_double, schema};
use crate::xml::{xstring, Elem};
use std::collections::{BTreeMap, BTreeSet};

pub fn case(ctx: &mut Ctx) {
    if ctx.index % 4 == 3 {
        // Calls with any arguments.
        let saves = crate::mon::c10::program(ctx, true);
        for (n, b) in saves.iter().enumerate() {
            ctx.artifact = Some(b.clone());
            verify(ctx, b, n);
        }
        // Only the structure can be judged: the values are the caller's.
        ctx.fails
            .retain(|f| !f.sig.starts_with("attribute value") && !LOOSE.contains(&f.sig.as_str()));
        return;
    }
    let o = Opt {
        scratch: Some(ctx.scratch.clone()),
        size: 12,
        ..Opt::default()
    };
    let p = kit::prog(&mut ctx.rng, &o);
    p.log(ctx);
    let (mut wb, _, bad) = p.build();
    for b in &bad {
        ctx.log(format!("rejected: {b}"));
        ctx.count("rejected calls");
    }
    let saves = if ctx.rng.one_in(4) { 2 } else { 1 };
    for n in 0..saves {
        match wb.save_to_buffer() {
            Ok(b) => {
                ctx.artifact = Some(b.clone());
                verify(ctx, &b, n);
            }
            Err(e) => {
                ctx.log(format!("save: {e}"));
                ctx.count("rejected saves");
                return;
            }
        }
    }
}

/// Left open for calls with any arguments.
const LOOSE: [&str; 4] = ["outline level", "defined name twice", "xf number format", "empty defined name"];

pub fn verify(ctx: &mut Ctx, bytes: &[u8], save: usize) {
    let pkg = match Pkg::open(bytes) {
        Ok(p) => p,
        Err(e) => {
            ctx.fail("archive", e);
            return;
        }
    };
    let mut parts = BTreeMap::new();
    let mut elems = 0;
    for e in &pkg.entries {
        if !e.name.ends_with(".xml") || e.name.starts_with('[') || e.name.contains("/theme/") {
            continue;
        }
        let x = match pkg.xml(&e.name) {
            Ok(x) => x,
            Err(m) => {
                ctx.fail("xml", format!("{}: {m}", e.name));
                continue;
            }
        };
        let mut out = vec![];
        match schema().check(&e.name, &x, &mut |s, m| out.push((s, m))) {
            None => ctx.fail("unknown part", e.name.clone()),
            Some(n) => {
                elems += n;
                ctx.count("parts");
            }
        }
        for (s, m) in out {
            ctx.fail(&s, format!("{m} (save {save})"));
        }
        parts.insert(e.name.clone(), x);
    }
    ctx.add("elements", elems);
    ctx.observed += elems;
    ctx.nontrivial |= elems > 400;
    for (n, x) in &parts {
        counts(ctx, n, x);
    }
    let empty = Elem::default();
    let styles = parts.get("xl/styles.xml").unwrap_or(&empty);
    let kids = |e: &Elem, p: &str| e.child(p).map_or(0, |c| c.elems().count()) as i64;
    let lim = Limits {
        xf: kids(styles, "cellXfs"),
        dxf: kids(styles, "dxfs"),
        sst: parts
            .get("xl/sharedStrings.xml")
            .map_or(0, |x| x.elems().count()) as i64,
        cm: parts
            .get("xl/metadata.xml")
            .map_or(0, |x| kids(x, "cellMetadata")),
        vm: parts
            .get("xl/metadata.xml")
            .map_or(0, |x| kids(x, "valueMetadata")),
    };
    check_styles(ctx, styles);
    if let Some(w) = parts.get("xl/workbook.xml") {
        check_workbook(ctx, w);
    }
    check_rich(ctx, &parts);
    let (mut ids, mut names) = (BTreeSet::new(), BTreeSet::new());
    for (n, x) in &parts {
        if n.starts_with("xl/worksheets/") {
            check_sheet(ctx, n, x, &lim);
        } else if n.starts_with("xl/tables/") {
            ctx.check(ids.insert(x.a("id").to_string()), "table id", || {
                format!("{n}: id {}", x.a("id"))
            });
            ctx.check(
                names.insert(x.a("displayName").to_lowercase()),
                "table name",
                || format!("{n}: name {}", x.a("displayName")),
            );
            check_table(ctx, n, x, &lim);
        } else if n.starts_with("xl/charts/") {
            check_chart(ctx, n, x);
        } else if n.starts_with("xl/drawings/") {
            check_drawing(ctx, n, x);
        } else if n.starts_with("xl/comments") {
            let authors = kids(x, "authors");
            let mut refs = BTreeSet::new();
            for c in x.find_all("comment") {
                ctx.check(refs.insert(c.a("ref").to_string()), "comment ref", || {
                    format!("{n}: {}", c.a("ref"))
                });
                ctx.check(
                    c.int("authorId").unwrap_or(-1) < authors,
                    "author id",
                    || format!("{n}: author {} of {authors}", c.a("authorId")),
                );
            }
            let mut a: Vec<String> = x.find_all("author").iter().map(|a| a.text()).collect();
            let k = a.len();
            a.sort();
            a.dedup();
            ctx.check(a.len() == k, "author twice", || {
                format!("{n}: {k} authors, {} distinct", a.len())
            });
        } else if n == "docProps/custom.xml" {
            let (mut pids, mut names) = (BTreeSet::new(), BTreeSet::new());
            for p in x.elems() {
                ctx.check(pids.insert(p.a("pid").to_string()), "pid", || {
                    p.a("pid").into()
                });
                ctx.check(
                    names.insert(xstring(p.a("name")).to_lowercase()),
                    "custom name",
                    || p.a("name").into(),
                );
            }
        }
    }
}

struct Limits {
    xf: i64,
    dxf: i64,
    sst: i64,
    cm: i64,
    vm: i64,
}

/// `count` attributes tell the number of children.
fn counts(ctx: &mut Ctx, part: &str, x: &Elem) {
    let mut bad = vec![];
    let mut n = 0;
    x.walk(&mut |e| {
        let (attr, kids) = match e.local() {
            "sst" => ("uniqueCount", e.elems().count()),
            "vector" => ("size", e.elems().count()),
            _ => ("count", e.elems().count()),
        };
        if let Some(v) = e.attr(attr) {
            n += 1;
            if v.parse() != Ok(kids) {
                bad.push(format!(
                    "{part}: <{} {attr}={v}> has {kids} children",
                    e.name
                ));
            }
        }
        if let Some(v) = e.attr("manualBreakCount") {
            let m = e.elems().filter(|b| b.flag("man", false)).count();
            if v.parse() != Ok(m) {
                bad.push(format!("{part}: manualBreakCount {v} for {m}"));
            }
        }
    });
    ctx.observed += n;
    for b in bad {
        ctx.fail("count", b);
    }
}

fn check_styles(ctx: &mut Ctx, x: &Elem) {
    let n = |p: &str| x.child(p).map_or(0, |c| c.elems().count()) as i64;
    let (fonts, fills, borders, bases) = (n("fonts"), n("fills"), n("borders"), n("cellStyleXfs"));
    let mut fmts = BTreeSet::new();
    for f in x
        .child("numFmts")
        .map(|c| c.elems().collect::<Vec<_>>())
        .unwrap_or_default()
    {
        let id = f.int("numFmtId").unwrap_or(-1);
        ctx.check(fmts.insert(id), "number format id twice", || id.to_string());
        ctx.check(id >= 164, "number format id", || {
            format!("custom format has id {id}")
        });
    }
    for p in ["cellStyleXfs", "cellXfs"] {
        for f in x
            .child(p)
            .map(|c| c.elems().collect::<Vec<_>>())
            .unwrap_or_default()
        {
            let id = f.int("numFmtId").unwrap_or(0);
            ctx.check(id < 164 || fmts.contains(&id), "xf number format", || {
                format!("{p}: {id}")
            });
            for (a, k) in [("fontId", fonts), ("fillId", fills), ("borderId", borders)] {
                ctx.check(f.int(a).unwrap_or(0) < k, "xf index", || {
                    format!("{p}: {a}={} of {k}", f.a(a))
                });
            }
            if p == "cellXfs" {
                ctx.check(f.int("xfId").unwrap_or(0) < bases, "xf base", || {
                    format!("xfId {}", f.a("xfId"))
                });
            }
        }
    }
    let mut names = BTreeSet::new();
    for s in x
        .child("cellStyles")
        .map(|c| c.elems().collect::<Vec<_>>())
        .unwrap_or_default()
    {
        ctx.check(
            s.int("xfId").unwrap_or(0) < bases,
            "cell style base",
            || s.show(),
        );
        ctx.check(
            names.insert(s.a("name").to_string()),
            "cell style name",
            || s.show(),
        );
    }
}

fn check_workbook(ctx: &mut Ctx, x: &Elem) {
    let sheets: Vec<&Elem> = x
        .child("sheets")
        .map(|s| s.elems().collect())
        .unwrap_or_default();
    let (mut names, mut ids, mut rids) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for s in &sheets {
        let n = s.a("name");
        ctx.check(names.insert(n.to_lowercase()), "sheet name twice", || {
            n.into()
        });
        ctx.check(
            ids.insert(s.a("sheetId").to_string()),
            "sheet id twice",
            || n.into(),
        );
        ctx.check(
            rids.insert(s.a("r:id").to_string()),
            "sheet rel twice",
            || n.into(),
        );
        ctx.check(
            !n.is_empty() && !n.contains(['[', ']', '*', '?', ':', '/', '\\']),
            "sheet name",
            || n.into(),
        );
    }
    let k = sheets.len() as i64;
    for v in x.find_all("workbookView") {
        for (a, base) in [("activeTab", 0), ("firstSheet", 1)] {
            if let Some(i) = v.int(a) {
                ctx.check(i - base < k && i >= 0, "tab", || {
                    format!("{a}={i} of {k} sheets")
                });
            }
        }
    }
    let visible = sheets
        .iter()
        .any(|s| s.attr("state").is_none_or(|v| v == "visible"));
    ctx.check(visible, "no visible sheet", || {
        format!("{k} sheets, all hidden")
    });
    let mut dn = BTreeSet::new();
    for d in x.find_all("definedName") {
        let l = d.int("localSheetId");
        ctx.check(l.is_none_or(|i| i < k), "local sheet", || {
            format!("{} local {l:?}", d.a("name"))
        });
        ctx.check(
            dn.insert((d.a("name").to_lowercase(), l)),
            "defined name twice",
            || format!("{} local {l:?}", d.a("name")),
        );
        ctx.check(!d.text().is_empty(), "empty defined name", || {
            d.a("name").into()
        });
    }
}

fn check_rich(ctx: &mut Ctx, parts: &BTreeMap<String, Elem>) {
    let rv = parts.get("xl/richData/rdrichvalue.xml");
    let st = parts.get("xl/richData/rdrichvaluestructure.xml");
    let nrv = rv.map_or(0, |x| x.elems().count()) as i64;
    let rels = parts
        .get("xl/richData/richValueRel.xml")
        .map_or(0, |x| x.elems().count()) as i64;
    if let (Some(rv), Some(st)) = (rv, st) {
        let s: Vec<&Elem> = st.elems().collect();
        for r in rv.elems() {
            let Some(k) = r.int("s").and_then(|i| s.get(i as usize)) else {
                ctx.fail("rich structure", r.show());
                continue;
            };
            let keys: Vec<&Elem> = k.elems().collect();
            let vals: Vec<String> = r.elems().map(Elem::text).collect();
            ctx.check(keys.len() == vals.len(), "rich value count", || {
                format!("{} values for {} keys", vals.len(), keys.len())
            });
            for (k, v) in keys.iter().zip(&vals) {
                if k.a("n") == "_rvRel:LocalImageIdentifier" {
                    ctx.check(
                        v.parse::<i64>().is_ok_and(|i| i < rels),
                        "rich image",
                        || format!("{v} of {rels}"),
                    );
                }
            }
        }
    }
    let Some(m) = parts.get("xl/metadata.xml") else {
        return;
    };
    let types: Vec<&Elem> = m
        .child("metadataTypes")
        .map(|t| t.elems().collect())
        .unwrap_or_default();
    let future: BTreeMap<&str, i64> = m
        .children("futureMetadata")
        .map(|f| (f.a("name"), f.elems().count() as i64))
        .collect();
    for rc in m.find_all("rc") {
        let t = rc.int("t").unwrap_or(0);
        let Some(ty) = types.get((t - 1).max(0) as usize).filter(|_| t > 0) else {
            ctx.fail("metadata type", format!("t={t} of {}", types.len()));
            continue;
        };
        let k = future.get(ty.a("name")).copied().unwrap_or(0);
        ctx.check(rc.int("v").unwrap_or(-1) < k, "metadata value", || {
            format!("{} of {k} {}", rc.a("v"), ty.a("name"))
        });
    }
    for r in m.find_all("xlrd:rvb") {
        ctx.check(r.int("i").unwrap_or(-1) < nrv, "rich value index", || {
            format!("{} of {nrv}", r.a("i"))
        });
    }
}

fn check_sheet(ctx: &mut Ctx, part: &str, x: &Elem, lim: &Limits) {
    let dim = x
        .child("dimension")
        .and_then(|d| parse_range(d.a("ref")))
        .unwrap_or((0, 0, 0, 0));
    let (mut last_row, mut row_level, mut col_level) = (0, 0, 0);
    for r in x
        .child("sheetData")
        .map(|s| s.elems().collect::<Vec<_>>())
        .unwrap_or_default()
    {
        let n = r.int("r").unwrap_or(0);
        ctx.check(n > last_row, "row order", || {
            format!("{part}: row {n} after {last_row}")
        });
        last_row = n;
        row_level = row_level.max(r.int("outlineLevel").unwrap_or(0));
        ctx.check(r.int("s").unwrap_or(0) < lim.xf, "row style", || {
            format!("{part}: row {n} style {}", r.a("s"))
        });
        let span = r.attr("spans").and_then(|s| {
            s.split_once(':')
                .map(|(a, b)| (a.parse::<i64>(), b.parse::<i64>()))
        });
        let mut last = -1;
        for c in r.elems() {
            let Some((cr, cc)) = parse_a1(c.a("r")) else {
                continue;
            };
            let cc = i64::from(cc);
            ctx.check(i64::from(cr) + 1 == n, "cell in wrong row", || {
                format!("{part}: {} in row {n}", c.a("r"))
            });
            ctx.check(cc > last, "cell order", || {
                format!("{part}: {} after column {last}", c.a("r"))
            });
            last = cc;
            ctx.check(c.int("s").unwrap_or(0) < lim.xf, "cell style", || c.show());
            ctx.check(
                c.int("cm").is_none_or(|i| i >= 1 && i <= lim.cm),
                "cell metadata",
                || c.show(),
            );
            ctx.check(
                c.int("vm").is_none_or(|i| i >= 1 && i <= lim.vm),
                "value metadata",
                || c.show(),
            );
            if let Some((Ok(a), Ok(b))) = &span {
                ctx.check(cc + 1 >= *a && cc < *b, "span", || {
                    format!("{part}: {} outside {a}:{b}", c.a("r"))
                });
            }
            let inside =
                cr >= dim.0 && cr <= dim.2 && cc >= i64::from(dim.1) && cc <= i64::from(dim.3);
            ctx.check(inside, "dimension", || {
                format!("{part}: {} outside {dim:?}", c.a("r"))
            });
            let v = c.child("v").map(Elem::text);
            let ok = match (c.attr("t").unwrap_or("n"), &v) {
                ("s", Some(v)) => v.parse::<i64>().is_ok_and(|i| i >= 0 && i < lim.sst),
                ("b", Some(v)) => v == "0" || v == "1",
                ("e", Some(v)) => v.starts_with('#'),
                ("n", Some(v)) => plain_double(v).is_some(),
                ("n", None) => c.child("is").is_none(),
                ("str", Some(_)) => true,
                ("inlineStr", None) => c.child("is").is_some(),
                _ => false,
            };
            ctx.check(ok, "cell content", || format!("{part}: {}", c.show()));
            if let Some(f) = c.child("f").and_then(|f| f.attr("ref")) {
                let ok = parse_range(f).is_some_and(|(a, b, _, _)| a == cr && i64::from(b) == cc);
                ctx.check(ok, "array origin", || {
                    format!("{part}: {} has array {f}", c.a("r"))
                });
            }
        }
    }
    let mut last = 0;
    for c in x
        .child("cols")
        .map(|s| s.elems().collect::<Vec<_>>())
        .unwrap_or_default()
    {
        let (a, b) = (c.int("min").unwrap_or(0), c.int("max").unwrap_or(0));
        ctx.check(a > last && b >= a, "column order", || {
            format!("{part}: {a}..{b} after {last}")
        });
        last = b;
        col_level = col_level.max(c.int("outlineLevel").unwrap_or(0));
        ctx.check(c.int("style").unwrap_or(0) < lim.xf, "column style", || {
            c.show()
        });
    }
    if let Some(f) = x.child("sheetFormatPr") {
        for (a, l) in [
            ("outlineLevelRow", row_level),
            ("outlineLevelCol", col_level),
        ] {
            let v = f.int(a).unwrap_or(0);
            ctx.check(v == l, "outline level", || {
                format!("{part}: {a}={v}, deepest {l}")
            });
        }
    }
    // Conditional formats.
    let mut prio = BTreeSet::new();
    let mut links = BTreeSet::new();
    for r in x.find_all("cfRule") {
        ctx.check(prio.insert(r.int("priority")), "priority twice", || {
            format!("{part}: {}", r.a("priority"))
        });
        if let Some(d) = r.int("dxfId") {
            ctx.check(d < lim.dxf, "dxf index", || {
                format!("{part}: dxfId {d} of {}", lim.dxf)
            });
        }
        for i in r.find_all("x14:id") {
            ctx.check(links.insert(i.text()), "x14 link twice", || {
                format!("{part}: {}", i.text())
            });
        }
        // What each type needs.
        let f = r.children("formula").count();
        let ok = match r.a("type") {
            "cellIs" => {
                r.attr("operator").is_some()
                    && f == if r.a("operator").ends_with("etween") {
                        2
                    } else {
                        1
                    }
            }
            "expression" => f == 1,
            "colorScale" => r.child("colorScale").is_some(),
            "dataBar" => r.child("dataBar").is_some(),
            "iconSet" => r.child("iconSet").is_some(),
            "containsText" | "notContainsText" | "beginsWith" | "endsWith" => {
                f == 1 && r.attr("text").is_some() && r.attr("operator").is_some()
            }
            "timePeriod" => f == 1 && r.attr("timePeriod").is_some(),
            "top10" => r.attr("rank").is_some(),
            "containsBlanks" | "notContainsBlanks" | "containsErrors" | "notContainsErrors" => {
                f == 1
            }
            _ => f == 0,
        };
        ctx.check(ok, "cf content", || format!("{part}: {}", r.show()));
        for s in r.find_all("colorScale") {
            ctx.check(
                s.children("cfvo").count() == s.children("color").count(),
                "color scale",
                || s.show(),
            );
        }
        for s in r.find_all("iconSet") {
            icons(ctx, part, s, "cfvo");
        }
    }
    let mut x14 = BTreeSet::new();
    for r in x.find_all("x14:cfRule") {
        ctx.check(x14.insert(r.a("id").to_string()), "x14 id twice", || {
            format!("{part}: {}", r.a("id"))
        });
        if r.a("type") == "iconSet" {
            ctx.check(prio.insert(r.int("priority")), "priority twice", || {
                format!("{part}: {}", r.a("priority"))
            });
        } else {
            ctx.check(links.contains(r.a("id")), "x14 without link", || {
                format!("{part}: {} not among {links:?}", r.a("id"))
            });
        }
        for s in r.find_all("x14:iconSet") {
            icons(ctx, part, s, "x14:cfvo");
        }
    }
    // Both parts of a linked rule are for the same cells.
    let mut cells = std::collections::BTreeMap::new();
    for c in x.find_all("conditionalFormatting") {
        for i in c.find_all("x14:id") {
            cells.insert(i.text(), c.a("sqref").to_string());
        }
    }
    for c in x.find_all("x14:conditionalFormatting") {
        let q: String = c.find_all("xm:sqref").iter().map(|q| q.text()).collect();
        for r in c.find_all("x14:cfRule") {
            if let Some(s) = cells.get(r.a("id")) {
                ctx.check(*s == q, "linked rules for other cells", || {
                    format!("{part}: {} is for {s:?} and {q:?}", r.a("id"))
                });
            }
        }
    }
    for l in &links {
        ctx.check(x14.contains(l), "link without x14", || {
            format!("{part}: {l}")
        });
    }
    // Unique references.
    for (path, attr) in [
        ("hyperlinks", "ref"),
        ("mergeCells", "ref"),
        ("protectedRanges", "name"),
    ] {
        let mut seen = BTreeSet::new();
        for e in x
            .child(path)
            .map(|s| s.elems().collect::<Vec<_>>())
            .unwrap_or_default()
        {
            ctx.check(
                seen.insert(e.a(attr).to_lowercase()),
                "repeated ref",
                || format!("{part}: {path} {}", e.a(attr)),
            );
        }
    }
    if let Some(p) = x.child("sheetViews").and_then(|v| v.elems().next()) {
        let pane = p.child("pane");
        let mut seen = BTreeSet::new();
        for s in p.children("selection") {
            let n = s.attr("pane").unwrap_or("topLeft").to_string();
            ctx.check(pane.is_some() || n == "topLeft", "selection pane", || {
                format!("{part}: {n}")
            });
            ctx.check(seen.insert(n.clone()), "selection twice", || {
                format!("{part}: {n}")
            });
        }
        if let Some(p) = pane {
            let (xs, ys) = (
                p.num("xSplit").unwrap_or(0.0),
                p.num("ySplit").unwrap_or(0.0),
            );
            let want = match (xs > 0.0, ys > 0.0) {
                (true, true) => "bottomRight",
                (true, false) => "topRight",
                (false, true) => "bottomLeft",
                _ => "",
            };
            ctx.check(p.a("activePane") == want, "active pane", || {
                format!("{part}: {}", p.show())
            });
        }
    }
    for d in x.find_all("dataValidation") {
        let f = d.children("formula1").count() + d.children("formula2").count();
        let two = matches!(
            d.attr("operator").unwrap_or("between"),
            "between" | "notBetween"
        );
        let want = match d.attr("type").unwrap_or("none") {
            "none" => 0,
            "list" | "custom" => 1,
            _ if two => 2,
            _ => 1,
        };
        ctx.check(f == want, "validation formulas", || {
            format!("{part}: {f} formulas, expected {want}: {}", d.a("sqref"))
        });
    }
    let mut fc = -1;
    if let Some(f) = x.child("autoFilter") {
        for c in f.elems() {
            let i = c.int("colId").unwrap_or(-1);
            ctx.check(i > fc, "filter column order", || {
                format!("{part}: {i} after {fc}")
            });
            fc = i;
        }
        let w = parse_range(f.a("ref")).map_or(0, |r| i64::from(r.3) - i64::from(r.1));
        ctx.check(fc <= w, "filter column", || {
            format!("{part}: column {fc} of {}", f.a("ref"))
        });
    }
    for (p, max) in [("rowBreaks", 1_048_576), ("colBreaks", 16384)] {
        let mut last = 0;
        for b in x
            .child(p)
            .map(|s| s.elems().collect::<Vec<_>>())
            .unwrap_or_default()
        {
            let i = b.int("id").unwrap_or(-1);
            ctx.check(i > last && i < max, "break order", || {
                format!("{part}: {p} {i} after {last}")
            });
            last = i;
        }
    }
}

fn icons(ctx: &mut Ctx, part: &str, s: &Elem, cfvo: &str) {
    let want = s
        .attr("iconSet")
        .unwrap_or("3TrafficLights1")
        .as_bytes()
        .first()
        .map_or(3, |b| usize::from(b - b'0'));
    let n = s.children(cfvo).count();
    ctx.check(n == want, "icon count", || {
        format!("{part}: {n} thresholds for {}", s.a("iconSet"))
    });
}

fn check_table(ctx: &mut Ctx, part: &str, x: &Elem, lim: &Limits) {
    let Some((r1, c1, r2, c2)) = parse_range(x.a("ref")) else {
        return;
    };
    let cols: Vec<&Elem> = x
        .child("tableColumns")
        .map(|t| t.elems().collect())
        .unwrap_or_default();
    ctx.check(
        cols.len() == usize::from(c2 - c1) + 1,
        "table columns",
        || format!("{part}: {} columns in {}", cols.len(), x.a("ref")),
    );
    let (mut ids, mut names) = (BTreeSet::new(), BTreeSet::new());
    for c in &cols {
        ctx.check(ids.insert(c.a("id").to_string()), "table column id", || {
            format!("{part}: {}", c.a("id"))
        });
        ctx.check(
            names.insert(xstring(c.a("name")).to_lowercase()),
            "table column name",
            || format!("{part}: {:?}", c.a("name")),
        );
        for a in ["dataDxfId", "headerRowDxfId", "totalsRowDxfId"] {
            if let Some(d) = c.int(a) {
                ctx.check(d < lim.dxf, "dxf index", || {
                    format!("{part}: {a} {d} of {}", lim.dxf)
                });
            }
        }
        let custom = c.attr("totalsRowFunction") == Some("custom");
        ctx.check(
            custom == c.child("totalsRowFormula").is_some(),
            "total formula",
            || format!("{part}: {}", c.show()),
        );
    }
    let header = x.int("headerRowCount").unwrap_or(1);
    let total = x.int("totalsRowCount").unwrap_or(0);
    ctx.check(
        i64::from(r2 - r1) + 1 > header + total,
        "table rows",
        || format!("{part}: {}", x.a("ref")),
    );
    if let Some(f) = x.child("autoFilter") {
        let want = book::a1_range(r1, c1, r2 - u32::from(total > 0), c2);
        ctx.check(f.a("ref") == want && header == 1, "table filter", || {
            format!("{part}: {} not {want}", f.a("ref"))
        });
    }
}

fn check_chart(ctx: &mut Ctx, part: &str, x: &Elem) {
    let Some(plot) = x.path("c:chart/c:plotArea") else {
        return;
    };
    let mut axes: BTreeMap<String, String> = BTreeMap::new();
    let mut used = BTreeSet::new();
    for a in plot.elems().filter(|e| e.name.ends_with("Ax")) {
        let id = a.val("c:axId").unwrap_or("").to_string();
        let cross = a.val("c:crossAx").unwrap_or("").to_string();
        ctx.check(
            axes.insert(id.clone(), cross).is_none(),
            "axis id twice",
            || format!("{part}: {id}"),
        );
    }
    let (mut idx, mut order) = (BTreeSet::new(), BTreeSet::new());
    for p in plot.elems().filter(|e| e.name.ends_with("Chart")) {
        for a in p.children("c:axId") {
            let id = a.a("val").to_string();
            ctx.check(axes.contains_key(&id), "chart axis", || {
                format!("{part}: {} uses axis {id}", p.name)
            });
            used.insert(id);
        }
        for s in p.children("c:ser") {
            ctx.check(
                idx.insert(s.val("c:idx").unwrap_or("").to_string()),
                "series idx",
                || format!("{part}"),
            );
            ctx.check(
                order.insert(s.val("c:order").unwrap_or("").to_string()),
                "series order",
                || format!("{part}"),
            );
            for (list, what) in [
                (s.children("c:dPt").collect::<Vec<_>>(), "point"),
                (s.find_all("c:dLbl"), "label"),
            ] {
                let mut last = -1;
                for p in list {
                    let i = p.child("c:idx").and_then(|e| e.int("val")).unwrap_or(-1);
                    ctx.check(i > last, "point order", || {
                        format!("{part}: {what} {i} after {last}")
                    });
                    last = i;
                }
            }
        }
    }
    for (id, cross) in &axes {
        ctx.check(used.contains(id), "unused axis", || format!("{part}: {id}"));
        ctx.check(axes.get(cross) == Some(id), "cross axis", || {
            format!("{part}: {id} crosses {cross}")
        });
    }
    let mut bad = vec![];
    x.walk(&mut |e| {
        if e.name == "c:strCache" || e.name == "c:numCache" {
            let n = e.child("c:ptCount").and_then(|c| c.int("val")).unwrap_or(0);
            let mut last = -1;
            for p in e.children("c:pt") {
                let i = p.int("idx").unwrap_or(-1);
                if i <= last || i >= n {
                    bad.push((
                        "cache index",
                        format!("{part}: point {i} of {n} after {last}"),
                    ));
                }
                last = i;
                if e.name == "c:numCache" {
                    let v = p.child_text("c:v").unwrap_or_default();
                    if plain_double(&v).is_none() {
                        bad.push(("cache number", format!("{part}: {v:?}")));
                    }
                }
            }
        }
        if e.name == "a:gsLst" {
            let mut last = -1;
            for g in e.elems() {
                let p = g.int("pos").unwrap_or(-1);
                if p < last {
                    bad.push(("gradient order", format!("{part}: {p} after {last}")));
                }
                last = p;
            }
        }
        if e.name == "c:errBars" {
            let t = e.val("c:errValType").unwrap_or("");
            let ok = match t {
                "cust" => e.child("c:plus").is_some() || e.child("c:minus").is_some(),
                "stdErr" => e.child("c:val").is_none(),
                _ => e.child("c:val").is_some(),
            };
            if !ok {
                bad.push(("error bars", format!("{part}: {t}")));
            }
        }
    });
    for (s, m) in bad {
        ctx.fail(s, m);
    }
}

fn check_drawing(ctx: &mut Ctx, part: &str, x: &Elem) {
    let mut ids = BTreeSet::new();
    for c in x.find_all("xdr:cNvPr") {
        ctx.check(ids.insert(c.a("id").to_string()), "object id", || {
            format!("{part}: {}", c.a("id"))
        });
        ctx.check(!c.a("name").is_empty(), "object name", || {
            format!("{part}: {}", c.a("id"))
        });
    }
    for a in x.children("xdr:twoCellAnchor") {
        let at = |p: &str| -> Vec<i64> {
            ["xdr:col", "xdr:colOff", "xdr:row", "xdr:rowOff"]
                .iter()
                .filter_map(|k| {
                    a.child(p)
                        .and_then(|e| e.child_text(k))
                        .and_then(|t| t.parse().ok())
                })
                .collect()
        };
        let (f, t) = (at("xdr:from"), at("xdr:to"));
        let ok = f.len() == 4
            && t.len() == 4
            && (f[0], f[1]) <= (t[0], t[1])
            && (f[2], f[3]) <= (t[2], t[3]);
        ctx.check(ok, "anchor order", || format!("{part}: {f:?} to {t:?}"));
    }
}
