//! Open Packaging layer: parts, content types and relationships.

use crate::xml::{self, Elem};
use crate::zipr::{self, Entry};
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Rel {
    pub id: String,
    pub typ: String,
    pub target: String,
    pub external: bool,
    /// Resolved part name (no leading slash), for internal targets.
    pub part: String,
    /// Fragment of the target if any.
    pub kind: String,
}

pub struct Pkg {
    pub entries: Vec<Entry>,
    pub parts: BTreeMap<String, usize>,
    pub defaults: Vec<(String, String)>,
    pub overrides: Vec<(String, String)>,
}

/// Resolve a relationship target against the folder of its source part.
pub fn resolve(source: &str, target: &str) -> String {
    let t = target.split('#').next().unwrap_or("");
    if let Some(abs) = t.strip_prefix('/') {
        return abs.to_string();
    }
    let mut segs: Vec<&str> = source.split('/').collect();
    segs.pop();
    for s in t.split('/') {
        match s {
            "." | "" => {}
            ".." => {
                segs.pop();
            }
            s => segs.push(s),
        }
    }
    segs.join("/")
}

pub fn rels_name(part: &str) -> String {
    match part.rsplit_once('/') {
        Some((d, f)) => format!("{d}/_rels/{f}.rels"),
        None => format!("_rels/{part}.rels"),
    }
}

impl Pkg {
    pub fn open(bytes: &[u8]) -> Result<Pkg, String> {
        let entries = zipr::read(bytes)?;
        let mut parts = BTreeMap::new();
        for (i, e) in entries.iter().enumerate() {
            parts.insert(e.name.clone(), i);
        }
        let mut p = Pkg {
            entries,
            parts,
            defaults: vec![],
            overrides: vec![],
        };
        let ct = p.xml("[Content_Types].xml")?;
        for e in ct.elems() {
            match e.name.as_str() {
                "Default" => p
                    .defaults
                    .push((e.a("Extension").to_lowercase(), e.a("ContentType").into())),
                "Override" => p
                    .overrides
                    .push((e.a("PartName").into(), e.a("ContentType").into())),
                o => return Err(format!("[Content_Types].xml: element {o}")),
            }
        }
        Ok(p)
    }
    pub fn has(&self, part: &str) -> bool {
        self.parts.contains_key(part)
    }
    pub fn data(&self, part: &str) -> Result<&[u8], String> {
        self.parts
            .get(part)
            .map(|i| self.entries[*i].data.as_slice())
            .ok_or_else(|| format!("missing part {part}"))
    }
    pub fn text(&self, part: &str) -> Result<String, String> {
        String::from_utf8(self.data(part)?.to_vec()).map_err(|e| format!("{part}: {e}"))
    }
    pub fn xml(&self, part: &str) -> Result<Elem, String> {
        xml::parse(self.data(part)?).map_err(|e| format!("{part}: {e}"))
    }
    pub fn content_type(&self, part: &str) -> Option<&str> {
        let p = format!("/{part}");
        if let Some((_, t)) = self.overrides.iter().find(|(n, _)| *n == p) {
            return Some(t);
        }
        let ext = part.rsplit('.').next()?.to_lowercase();
        self.defaults
            .iter()
            .find(|(e, _)| *e == ext)
            .map(|(_, t)| t.as_str())
    }
    /// Relationships of a part ("" for the package root).
    pub fn rels(&self, part: &str) -> Result<Vec<Rel>, String> {
        let rn = rels_name(part);
        if !self.has(&rn) {
            return Ok(vec![]);
        }
        let x = self.xml(&rn)?;
        if x.name != "Relationships" {
            return Err(format!("{rn}: root {}", x.name));
        }
        let mut v = vec![];
        for e in x.elems() {
            let typ = e.a("Type").to_string();
            let external = e.attr("TargetMode") == Some("External");
            let target = e.a("Target").to_string();
            v.push(Rel {
                id: e.a("Id").to_string(),
                kind: typ.rsplit('/').next().unwrap_or("").to_string(),
                part: if external {
                    String::new()
                } else {
                    resolve(part, &target)
                },
                typ,
                target,
                external,
            });
        }
        Ok(v)
    }
    /// True for parts that must parse as XML.
    pub fn is_xml(name: &str) -> bool {
        let l = name.to_lowercase();
        l.ends_with(".xml") || l.ends_with(".rels") || l.ends_with(".vml")
    }
}
