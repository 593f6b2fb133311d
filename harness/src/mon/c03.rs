//! C03 the package is closed.

use crate::kit::{self, Opt};
use crate::pkg::{rels_name, Pkg, Rel};
use crate::run::Ctx;
use crate::xml::Elem;
use std::collections::{BTreeMap, BTreeSet};

pub fn case(ctx: &mut Ctx) {
    if ctx.index % 4 == 3 {
        // Calls with any arguments.
        let saves = crate::mon::c10::program(ctx, true);
        for (n, b) in saves.iter().enumerate() {
            ctx.artifact = Some(b.clone());
            verify(ctx, b, n);
        }
        return;
    }
    let o = Opt {
        scratch: Some(ctx.scratch.clone()),
        size: 10,
        sheets: 5,
        ..Opt::default()
    };
    let p = kit::prog(&mut ctx.rng, &o);
    p.log(ctx);
    let (mut wb, _, bad) = p.build();
    for b in &bad {
        ctx.log(format!("rejected: {b}"));
        ctx.count("rejected calls");
    }
    let saves = if ctx.rng.one_in(3) { 2 } else { 1 };
    for n in 0..saves {
        match wb.save_to_buffer() {
            Ok(b) => {
                if n == 0 || saves == 2 {
                    ctx.artifact = Some(b.clone());
                }
                verify(ctx, &b, n);
            }
            Err(e) => {
                ctx.log(format!("save: {e}"));
                ctx.count("rejected saves");
                return;
            }
        }
    }
}

/// The content types a relationship of this kind may lead to.
fn types(kind: &str) -> Option<&'static [&'static str]> {
    Some(match kind {
        "officeDocument" => &[
            "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml",
            "application/vnd.ms-excel.sheet.macroEnabled.main+xml",
        ],
        "worksheet" => {
            &["application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"]
        }
        "chartsheet" => {
            &["application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml"]
        }
        "theme" => &["application/vnd.openxmlformats-officedocument.theme+xml"],
        "styles" => &["application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml"],
        "sharedStrings" => {
            &["application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"]
        }
        "drawing" => &["application/vnd.openxmlformats-officedocument.drawing+xml"],
        "chart" => &["application/vnd.openxmlformats-officedocument.drawingml.chart+xml"],
        "comments" => &["application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml"],
        "vmlDrawing" => &["application/vnd.openxmlformats-officedocument.vmlDrawing"],
        "table" => &["application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"],
        "sheetMetadata" => {
            &["application/vnd.openxmlformats-officedocument.spreadsheetml.sheetMetadata+xml"]
        }
        "vbaProject" => &["application/vnd.ms-office.vbaProject"],
        "vbaProjectSignature" => &["application/vnd.ms-office.vbaProjectSignature"],
        "core-properties" => &["application/vnd.openxmlformats-package.core-properties+xml"],
        "extended-properties" => {
            &["application/vnd.openxmlformats-officedocument.extended-properties+xml"]
        }
        "custom-properties" => {
            &["application/vnd.openxmlformats-officedocument.custom-properties+xml"]
        }
        "richValueRel" => &["application/vnd.ms-excel.richvaluerel+xml"],
        "rdRichValue" => &["application/vnd.ms-excel.rdrichvalue+xml"],
        "rdRichValueStructure" => &["application/vnd.ms-excel.rdrichvaluestructure+xml"],
        "rdRichValueTypes" => &["application/vnd.ms-excel.rdrichvaluetypes+xml"],
        "FeaturePropertyBag" => &["application/vnd.ms-excel.featurepropertybag+xml"],
        "image" => &["image/png", "image/jpeg", "image/gif", "image/bmp"],
        _ => return None,
    })
}

/// The relationship kinds a use of an id may lead to.
fn uses(part: &str, e: &Elem, attr: &str) -> Option<&'static [&'static str]> {
    let local = e.local();
    Some(match (local, attr) {
        ("sheet", "r:id") => &["worksheet", "chartsheet"],
        ("drawing", "r:id") => &["drawing"],
        ("legacyDrawing" | "legacyDrawingHF", "r:id") => &["vmlDrawing"],
        ("picture", "r:id") => &["image"],
        ("tablePart", "r:id") => &["table"],
        ("hyperlink" | "hlinkClick", "r:id") => &["hyperlink"],
        ("blip", "r:embed") => &["image"],
        ("chart", "r:id") => &["chart"],
        ("rel", "r:id") if part.contains("richValueRel") => &["image"],
        ("imagedata", "o:relid") => &["image"],
        _ => return None,
    })
}

fn sniff(d: &[u8]) -> &'static str {
    if d.starts_with(&[0x89, b'P', b'N', b'G']) {
        "image/png"
    } else if d.starts_with(&[0xFF, 0xD8]) {
        "image/jpeg"
    } else if d.starts_with(b"GIF8") {
        "image/gif"
    } else if d.starts_with(b"BM") {
        "image/bmp"
    } else {
        "?"
    }
}

pub fn verify(ctx: &mut Ctx, bytes: &[u8], save: usize) {
    let pkg = match Pkg::open(bytes) {
        Ok(p) => p,
        Err(e) => {
            ctx.fail("archive", e);
            return;
        }
    };
    ctx.nontrivial |= pkg.entries.len() > 15;
    // Entry names.
    let mut lower = BTreeSet::new();
    for e in &pkg.entries {
        ctx.check(
            lower.insert(e.name.to_lowercase()),
            "duplicate entry",
            || e.name.clone(),
        );
        ctx.check(
            !e.name.starts_with('/') && !e.name.contains('\\') && !e.name.contains(".."),
            "entry name",
            || e.name.clone(),
        );
    }
    // Content types.
    let mut seen = BTreeSet::new();
    for (n, _) in &pkg.overrides {
        ctx.check(
            n.starts_with('/') && pkg.has(&n[1..]),
            "override without part",
            || format!("{n} (save {save})"),
        );
        ctx.check(seen.insert(n.to_lowercase()), "duplicate override", || {
            n.clone()
        });
    }
    seen.clear();
    for (n, _) in &pkg.defaults {
        ctx.check(seen.insert(n.clone()), "duplicate default", || n.clone());
    }
    // Relationships.
    let mut all: BTreeMap<String, Vec<Rel>> = BTreeMap::new();
    let mut todo = vec![String::new()];
    let mut reached = BTreeSet::new();
    let mut singles: BTreeMap<(String, String), u32> = BTreeMap::new();
    while let Some(p) = todo.pop() {
        if all.contains_key(&p) {
            continue;
        }
        let rels = match pkg.rels(&p) {
            Ok(r) => r,
            Err(e) => {
                ctx.fail("rels", e);
                continue;
            }
        };
        let mut ids = BTreeSet::new();
        for r in &rels {
            ctx.count("relationships");
            ctx.check(ids.insert(r.id.clone()), "duplicate rel id", || {
                format!("{} in rels of {p:?}", r.id)
            });
            ctx.check(!r.id.is_empty() && !r.typ.is_empty(), "empty rel", || {
                format!("{r:?} of {p:?}")
            });
            if r.external {
                ctx.check(
                    matches!(r.kind.as_str(), "hyperlink"),
                    "external kind",
                    || format!("{r:?} of {p:?}"),
                );
                continue;
            }
            if r.target.starts_with('#') {
                ctx.check(r.kind == "hyperlink", "fragment kind", || {
                    format!("{r:?} of {p:?}")
                });
                continue;
            }
            if !ctx.check(pkg.has(&r.part), "dangling rel", || {
                format!("{} of {p:?} -> {} (save {save})", r.id, r.target)
            }) {
                continue;
            }
            reached.insert(r.part.clone());
            todo.push(r.part.clone());
            let ct = pkg.content_type(&r.part).unwrap_or("").to_string();
            match types(&r.kind) {
                None => ctx.fail("unknown rel kind", format!("{r:?}")),
                Some(t) => {
                    ctx.check(t.contains(&ct.as_str()), "content type", || {
                        format!("{} ({}) has type {ct:?} (save {save})", r.part, r.kind)
                    });
                }
            }
            if r.kind == "image" {
                let s = pkg.data(&r.part).map(sniff).unwrap_or("?");
                ctx.check(s == ct, "image type", || {
                    format!("{} holds {s}, type {ct}", r.part)
                });
            }
            if matches!(
                r.kind.as_str(),
                "theme"
                    | "styles"
                    | "sharedStrings"
                    | "comments"
                    | "drawing"
                    | "officeDocument"
                    | "sheetMetadata"
                    | "vbaProject"
                    | "core-properties"
                    | "extended-properties"
                    | "custom-properties"
            ) {
                let n = singles.entry((p.clone(), r.kind.clone())).or_insert(0);
                *n += 1;
                let n = *n;
                ctx.check(n == 1, "repeated rel", || {
                    format!("{n} {} relationships of {p:?}", r.kind)
                });
            }
        }
        // One part should not be shared where it belongs to its owner.
        all.insert(p, rels);
    }
    let mut owners: BTreeMap<&str, u32> = BTreeMap::new();
    for r in all.values().flatten() {
        if !r.external
            && matches!(
                r.kind.as_str(),
                "drawing"
                    | "comments"
                    | "vmlDrawing"
                    | "table"
                    | "chart"
                    | "worksheet"
                    | "chartsheet"
            )
        {
            *owners.entry(&r.part).or_default() += 1;
        }
    }
    for (p, n) in owners {
        ctx.check(n == 1, "shared part", || {
            format!("{p} belongs to {n} relationships")
        });
    }
    // Every part is reachable and typed; every rels part has its source.
    for e in &pkg.entries {
        let n = &e.name;
        if n == "[Content_Types].xml" {
            continue;
        }
        ctx.count("parts");
        ctx.check(pkg.content_type(n).is_some(), "untyped part", || {
            format!("{n} (save {save})")
        });
        if n.ends_with(".rels") {
            ctx.check(
                all.keys().any(|p| rels_name(p) == *n),
                "rels without source",
                || format!("{n} (save {save})"),
            );
            continue;
        }
        ctx.check(reached.contains(n), "unreachable part", || {
            format!("{n} (save {save})")
        });
    }
    // Every id used resolves to the right kind.
    for (p, rels) in &all {
        if p.is_empty() || !Pkg::is_xml(p) {
            continue;
        }
        let x = match pkg.xml(p) {
            Ok(x) => x,
            Err(e) => {
                ctx.fail("xml", e);
                continue;
            }
        };
        let mut used: BTreeSet<String> = BTreeSet::new();
        let mut problems = vec![];
        x.walk(&mut |e| {
            for (a, v) in &e.attrs {
                if !(a.starts_with("r:") || a == "o:relid") {
                    continue;
                }
                match (uses(p, e, a), rels.iter().find(|r| r.id == *v)) {
                    (None, _) => problems.push(("use", format!("{p}: <{} {a}={v:?}>", e.name))),
                    (_, None) => {
                        problems.push(("unresolved id", format!("{p}: <{} {a}={v:?}>", e.name)))
                    }
                    (Some(k), Some(r)) => {
                        if !k.contains(&r.kind.as_str()) {
                            problems.push((
                                "wrong kind",
                                format!("{p}: <{} {a}={v:?}> is a {}", e.name, r.kind),
                            ));
                        }
                        used.insert(v.clone());
                    }
                }
            }
        });
        ctx.add("id uses", used.len() as u64);
        ctx.observed += used.len() as u64;
        for (s, m) in problems {
            ctx.fail(s, format!("{m} (save {save})"));
        }
        // Parts that are only ever found through an id.
        for r in rels {
            let by_id = matches!(
                r.kind.as_str(),
                "drawing" | "vmlDrawing" | "table" | "chart" | "worksheet" | "chartsheet"
            ) || (r.kind == "image" && !p.contains("richValueRel"));
            if by_id {
                ctx.check(used.contains(&r.id), "unused id", || {
                    format!("{p}: {} ({}) is never used (save {save})", r.id, r.kind)
                });
            }
        }
    }
}
