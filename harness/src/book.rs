//! Decoder for workbooks and worksheets, independent of the library under test.

use crate::pkg::{Pkg, Rel};
use crate::xml::{xstring, Elem};
use std::collections::BTreeMap;

pub type Facts = BTreeMap<String, String>;

#[derive(Debug, Clone, PartialEq)]
pub struct Run {
    pub text: String,
    pub font: Facts,
    pub has_props: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Blank,
    Num(u64),
    Str(String),
    Rich(Vec<Run>),
    Bool(bool),
    Err(String),
}

impl V {
    pub fn num(f: f64) -> V {
        V::Num(f.to_bits())
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct F {
    pub text: String,
    pub array_ref: Option<String>,
}

#[derive(Debug, Clone)]
pub struct Cell {
    pub v: V,
    pub f: Option<F>,
    pub s: usize,
    pub cm: Option<i64>,
    pub vm: Option<i64>,
    pub t: String,
    pub raw_v: Option<String>,
    pub inline: bool,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Row {
    pub ht: Option<f64>,
    pub custom_height: bool,
    pub hidden: bool,
    pub s: Option<usize>,
    pub level: u32,
    pub collapsed: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Col {
    pub min: u32,
    pub max: u32,
    pub width: Option<f64>,
    pub custom: bool,
    pub hidden: bool,
    pub s: usize,
    pub level: u32,
    pub collapsed: bool,
    pub best_fit: bool,
}

pub struct Sheet {
    pub name: String,
    pub sheet_id: String,
    pub state: String,
    pub part: String,
    pub xml: Elem,
    pub rels: Vec<Rel>,
    pub is_chart: bool,
    pub cells: BTreeMap<(u32, u16), Cell>,
    pub rows: BTreeMap<u32, Row>,
    pub cols: Vec<Col>,
    pub dimension: String,
}

#[derive(Debug, Clone, PartialEq)]
pub struct DefName {
    pub name: String,
    pub local: Option<usize>,
    pub hidden: bool,
    pub text: String,
}

pub struct Book {
    pub pkg: Pkg,
    pub wb: Elem,
    pub wb_part: String,
    pub wb_rels: Vec<Rel>,
    pub sheets: Vec<Sheet>,
    pub sst: Vec<V>,
    pub sst_xml: Option<Elem>,
    pub styles: Styles,
    pub names: Vec<DefName>,
}

/// A1 reference to zero-based (row, col).
pub fn parse_a1(s: &str) -> Option<(u32, u16)> {
    let s = s.replace('$', "");
    let i = s.find(|c: char| c.is_ascii_digit())?;
    let (c, r) = s.split_at(i);
    if c.is_empty() || c.len() > 3 || !c.bytes().all(|b| b.is_ascii_uppercase()) {
        return None;
    }
    if r.starts_with('0') || !r.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n: u32 = 0;
    for b in c.bytes() {
        n = n * 26 + u32::from(b - b'A' + 1);
    }
    let r: u32 = r.parse().ok()?;
    if n > 16384 || r > 1_048_576 {
        return None;
    }
    Some((r - 1, (n - 1) as u16))
}

/// A1 range (or single cell) to (r1,c1,r2,c2).
pub fn parse_range(s: &str) -> Option<(u32, u16, u32, u16)> {
    let (a, b) = match s.split_once(':') {
        Some((a, b)) => (a, b),
        None => (s, s),
    };
    let (r1, c1) = parse_a1(a)?;
    let (r2, c2) = parse_a1(b)?;
    Some((r1, c1, r2, c2))
}

pub fn col_letters(c: u16) -> String {
    let mut n = u32::from(c) + 1;
    let mut s = vec![];
    while n > 0 {
        let r = (n - 1) % 26;
        s.push(b'A' + r as u8);
        n = (n - 1) / 26;
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}

pub fn a1(r: u32, c: u16) -> String {
    format!("{}{}", col_letters(c), r + 1)
}
pub fn a1_range(r1: u32, c1: u16, r2: u32, c2: u16) -> String {
    if (r1, c1) == (r2, c2) {
        a1(r1, c1)
    } else {
        format!("{}:{}", a1(r1, c1), a1(r2, c2))
    }
}
pub fn abs_range(r1: u32, c1: u16, r2: u32, c2: u16) -> String {
    format!(
        "${}${}:${}${}",
        col_letters(c1),
        r1 + 1,
        col_letters(c2),
        r2 + 1
    )
}

/// Text of a `t` element: consumers drop leading and trailing white space
/// unless xml:space="preserve" is given.
pub fn t_text(t: &Elem) -> String {
    let s = t.text();
    if t.attr("xml:space") == Some("preserve") {
        s
    } else {
        s.trim_matches([' ', '\t', '\n', '\r']).to_string()
    }
}

/// Decode a string item (`si` or `is`).
pub fn string_item(si: &Elem) -> V {
    let runs: Vec<&Elem> = si.children("r").collect();
    if runs.is_empty() {
        let t: String = si.children("t").map(t_text).collect();
        return V::Str(xstring(&t));
    }
    V::Rich(
        runs.iter()
            .map(|r| Run {
                text: xstring(&r.child("t").map(t_text).unwrap_or_default()),
                font: r.child("rPr").map(font_facts).unwrap_or_default(),
                has_props: r.child("rPr").is_some(),
            })
            .collect(),
    )
}

fn color_fact(e: &Elem) -> String {
    let mut s = String::new();
    for k in ["auto", "indexed", "rgb", "theme", "tint"] {
        if let Some(v) = e.attr(k) {
            if !s.is_empty() {
                s.push(' ');
            }
            s.push_str(&format!("{k}={v}"));
        }
    }
    s
}

/// Facts of a font element (styles `font`, or run properties `rPr`).
pub fn font_facts(f: &Elem) -> Facts {
    let mut m = Facts::new();
    for e in f.elems() {
        let v = e.attr("val");
        match e.name.as_str() {
            "b" | "i" | "strike" | "outline" | "shadow" | "condense" | "extend" => {
                let on = !matches!(v, Some("0" | "false"));
                if on {
                    m.insert(e.name.clone(), "1".into());
                }
            }
            "u" => {
                m.insert("u".into(), v.unwrap_or("single").into());
            }
            "color" => {
                m.insert("color".into(), color_fact(e));
            }
            "rFont" => {
                m.insert("name".into(), v.unwrap_or("").into());
            }
            n => {
                m.insert(n.to_string(), v.unwrap_or("").into());
            }
        }
    }
    m
}

pub fn fill_facts(f: &Elem) -> Facts {
    let mut m = Facts::new();
    if let Some(p) = f.child("patternFill") {
        m.insert(
            "fill.pattern".into(),
            p.attr("patternType").unwrap_or("-").into(),
        );
        if let Some(c) = p.child("fgColor") {
            m.insert("fill.fg".into(), color_fact(c));
        }
        if let Some(c) = p.child("bgColor") {
            m.insert("fill.bg".into(), color_fact(c));
        }
    }
    m
}

pub fn border_facts(b: &Elem) -> Facts {
    let mut m = Facts::new();
    for a in ["diagonalUp", "diagonalDown"] {
        if b.flag(a, false) {
            m.insert(format!("border.{a}"), "1".into());
        }
    }
    for e in b.elems() {
        if let Some(s) = e.attr("style") {
            if s != "none" {
                m.insert(format!("border.{}", e.name), s.into());
                if let Some(c) = e.child("color") {
                    m.insert(format!("border.{}.color", e.name), color_fact(c));
                }
            }
        }
    }
    m
}

pub fn builtin_numfmt(id: usize) -> Option<&'static str> {
    Some(match id {
        0 => "General",
        1 => "0",
        2 => "0.00",
        3 => "#,##0",
        4 => "#,##0.00",
        9 => "0%",
        10 => "0.00%",
        11 => "0.00E+00",
        12 => "# ?/?",
        13 => "# ??/??",
        14 => "m/d/yyyy",
        15 => "d-mmm-yy",
        16 => "d-mmm",
        17 => "mmm-yy",
        18 => "h:mm AM/PM",
        19 => "h:mm:ss AM/PM",
        20 => "h:mm",
        21 => "h:mm:ss",
        22 => "m/d/yyyy h:mm",
        37 => "#,##0_);(#,##0)",
        38 => "#,##0_);[Red](#,##0)",
        39 => "#,##0.00_);(#,##0.00)",
        40 => "#,##0.00_);[Red](#,##0.00)",
        45 => "mm:ss",
        46 => "[h]:mm:ss",
        47 => "mm:ss.0",
        48 => "##0.0E+0",
        49 => "@",
        _ => return None,
    })
}

/// Is this a code that means what the built-in format does? The accounting
/// and currency formats vary with the locale: their digits have to agree.
fn builtin_code(id: usize, code: &str) -> bool {
    let digits = match id {
        5 | 37 => "#,##0;#,##0",
        6 | 38 => "#,##0;[Red]#,##0",
        7 | 39 => "#,##0.00;#,##0.00",
        8 | 40 => "#,##0.00;[Red]#,##0.00",
        41 | 42 => "*#,##0;*#,##0;*\"-\";@",
        43 | 44 => "*#,##0.00;*#,##0.00;*\"-\"??;@",
        14 => return code.starts_with("m/d/yy"),
        22 => return code.starts_with("m/d/yy") && code.ends_with(" h:mm"),
        _ => return builtin_numfmt(id) == Some(code),
    };
    let mut left: String = code.chars().filter(|c| !" _$()@".contains(*c)).collect();
    left = left.trim_end_matches(';').to_string();
    let money = matches!(id, 5..=8 | 42 | 44);
    left == digits.trim_end_matches(";@") && (money == code.contains('$') || !code.contains('$'))
}

pub struct Styles {
    pub xml: Elem,
    pub fonts: Vec<Facts>,
    pub fills: Vec<Facts>,
    pub borders: Vec<Facts>,
    pub numfmts: BTreeMap<usize, String>,
    pub xfs: Vec<Facts>,
    pub xf_elems: Vec<Elem>,
    pub dxfs: Vec<Facts>,
}

impl Styles {
    fn decode(x: Elem) -> Result<Styles, String> {
        let mut numfmts = BTreeMap::new();
        if let Some(n) = x.child("numFmts") {
            for e in n.elems() {
                let id = e.int("numFmtId").ok_or("numFmtId")? as usize;
                if numfmts.insert(id, e.a("formatCode").to_string()).is_some() {
                    return Err(format!("styles: duplicate numFmtId {id}"));
                }
            }
        }
        let list =
            |n: &str| -> Vec<&Elem> { x.child(n).map(|e| e.elems().collect()).unwrap_or_default() };
        let fonts: Vec<Facts> = list("fonts").into_iter().map(font_facts).collect();
        let fills: Vec<Facts> = list("fills").into_iter().map(fill_facts).collect();
        let borders: Vec<Facts> = list("borders").into_iter().map(border_facts).collect();
        let mut xfs = vec![];
        let mut xf_elems = vec![];
        let nstyle_xfs = list("cellStyleXfs").len();
        for e in list("cellXfs") {
            let mut m = Facts::new();
            let id = e.int("numFmtId").ok_or("xf without numFmtId")? as usize;
            if id != 0 {
                let code = match numfmts.get(&id) {
                    Some(c) => format!("code={c}"),
                    None if id < 164 => match builtin_numfmt(id) {
                        Some(c) => format!("code={c}"),
                        None => format!("id={id}"),
                    },
                    None => return Err(format!("styles: numFmtId {id} undefined")),
                };
                m.insert("numfmt".into(), code);
            }
            let fid = e.int("fontId").unwrap_or(0) as usize;
            let f = fonts
                .get(fid)
                .ok_or_else(|| format!("styles: fontId {fid} of {}", fonts.len()))?;
            for (k, v) in f {
                m.insert(format!("font.{k}"), v.clone());
            }
            let fid = e.int("fillId").unwrap_or(0) as usize;
            let f = fills
                .get(fid)
                .ok_or_else(|| format!("styles: fillId {fid} of {}", fills.len()))?;
            m.extend(f.clone());
            let bid = e.int("borderId").unwrap_or(0) as usize;
            let b = borders
                .get(bid)
                .ok_or_else(|| format!("styles: borderId {bid} of {}", borders.len()))?;
            m.extend(b.clone());
            if let Some(a) = e.child("alignment") {
                for (k, v) in &a.attrs {
                    m.insert(format!("align.{k}"), v.clone());
                }
            }
            if let Some(a) = e.child("protection") {
                for (k, v) in &a.attrs {
                    m.insert(format!("prot.{k}"), v.clone());
                }
            }
            if e.flag("quotePrefix", false) {
                m.insert("quotePrefix".into(), "1".into());
            }
            let xid = e.int("xfId").unwrap_or(0) as usize;
            if xid >= nstyle_xfs {
                return Err(format!("styles: xfId {xid} of {nstyle_xfs}"));
            }
            if xid != 0 {
                m.insert("xfId".into(), xid.to_string());
            }
            if let Some(x) = e.child("extLst") {
                let mut ids = vec![];
                x.desc("xfpb:xfComplement", &mut ids);
                for i in ids {
                    m.insert("checkbox".into(), i.a("i").to_string());
                }
            }
            xfs.push(m);
            xf_elems.push(e.clone());
        }
        let mut dxfs = vec![];
        for e in list("dxfs") {
            let mut m = Facts::new();
            for c in e.elems() {
                match c.name.as_str() {
                    "font" => {
                        for (k, v) in font_facts(c) {
                            m.insert(format!("font.{k}"), v);
                        }
                    }
                    "fill" => m.extend(fill_facts(c)),
                    "border" => m.extend(border_facts(c)),
                    "numFmt" => {
                        // A built-in id says it all.
                        let id = c.int("numFmtId").unwrap_or(-1);
                        let n = match builtin_numfmt(id as usize) {
                            Some(b) => format!("code={b}"),
                            None if (1..164).contains(&id) => format!("id={id}"),
                            None => format!("code={}", c.a("formatCode")),
                        };
                        m.insert("numfmt".into(), n);
                        // And the code that goes with it agrees.
                        let code = c.a("formatCode");
                        if (1..50).contains(&id) && !builtin_code(id as usize, code) {
                            m.insert("numcode".into(), format!("{id}: {code}"));
                        }
                    }
                    "alignment" => {
                        for (k, v) in &c.attrs {
                            m.insert(format!("align.{k}"), v.clone());
                        }
                    }
                    "protection" => {
                        for (k, v) in &c.attrs {
                            m.insert(format!("prot.{k}"), v.clone());
                        }
                    }
                    _ => {}
                }
            }
            dxfs.push(m);
        }
        Ok(Styles {
            fonts,
            fills,
            borders,
            numfmts,
            xfs,
            xf_elems,
            dxfs,
            xml: x,
        })
    }
}

/// Check the child order quickly needed while decoding and read the cells.
fn decode_sheet_data(s: &mut Sheet, sst: &[V]) -> Result<(), String> {
    s.dimension = s
        .xml
        .child("dimension")
        .map(|d| d.a("ref").to_string())
        .unwrap_or_default();
    if let Some(cols) = s.xml.child("cols") {
        for c in cols.elems() {
            s.cols.push(Col {
                min: c.int("min").ok_or("col min")? as u32,
                max: c.int("max").ok_or("col max")? as u32,
                width: c.num("width"),
                custom: c.flag("customWidth", false),
                hidden: c.flag("hidden", false),
                s: c.int("style").unwrap_or(0) as usize,
                level: c.int("outlineLevel").unwrap_or(0) as u32,
                collapsed: c.flag("collapsed", false),
                best_fit: c.flag("bestFit", false),
            });
        }
        let mut last = 0;
        for c in &s.cols {
            if c.min <= last || c.max < c.min || c.max > 16384 {
                return Err(format!("cols overlap or out of order at {}", c.min));
            }
            last = c.max;
        }
    }
    let Some(sd) = s.xml.child("sheetData") else {
        return Err("no sheetData".into());
    };
    let mut last_row: i64 = -1;
    for r in sd.elems() {
        if r.name != "row" {
            return Err(format!("sheetData child {}", r.name));
        }
        let rn = r.int("r").ok_or("row without r")? - 1;
        if rn <= last_row {
            return Err(format!("row {} not ascending", rn + 1));
        }
        if rn >= 1_048_576 {
            return Err(format!("row {} out of range", rn + 1));
        }
        last_row = rn;
        let row = Row {
            ht: r.num("ht"),
            custom_height: r.flag("customHeight", false),
            hidden: r.flag("hidden", false),
            s: if r.flag("customFormat", false) {
                Some(r.int("s").unwrap_or(0) as usize)
            } else {
                None
            },
            level: r.int("outlineLevel").unwrap_or(0) as u32,
            collapsed: r.flag("collapsed", false),
        };
        s.rows.insert(rn as u32, row);
        let mut last_col: i64 = -1;
        for c in r.elems() {
            if c.name != "c" {
                return Err(format!("row child {}", c.name));
            }
            let cr = c.a("r");
            let (cr_r, cr_c) = parse_a1(cr).ok_or_else(|| format!("bad cell ref {cr}"))?;
            if i64::from(cr_r) != rn {
                return Err(format!("cell {cr} in row {}", rn + 1));
            }
            if i64::from(cr_c) <= last_col {
                return Err(format!("cell {cr} not ascending"));
            }
            last_col = i64::from(cr_c);
            let t = c.attr("t").unwrap_or("n").to_string();
            let raw_v = c.child_text("v");
            let mut inline = false;
            let v = match t.as_str() {
                "inlineStr" => {
                    inline = true;
                    string_item(c.child("is").ok_or_else(|| format!("{cr}: no is"))?)
                }
                _ => match &raw_v {
                    None => V::Blank,
                    Some(x) => match t.as_str() {
                        "n" => {
                            let f: f64 =
                                x.parse().map_err(|_| format!("{cr}: bad number {x:?}"))?;
                            if !f.is_finite() || !x.bytes().all(|b| b"+-.0123456789eE".contains(&b))
                            {
                                return Err(format!("{cr}: bad number {x:?}"));
                            }
                            V::num(f)
                        }
                        "s" => {
                            let i: usize = x
                                .parse()
                                .map_err(|_| format!("{cr}: bad sst index {x:?}"))?;
                            sst.get(i)
                                .cloned()
                                .ok_or_else(|| format!("{cr}: sst index {i} of {}", sst.len()))?
                        }
                        "str" => V::Str(xstring(x)),
                        "b" => match x.as_str() {
                            "0" => V::Bool(false),
                            "1" => V::Bool(true),
                            _ => return Err(format!("{cr}: bad bool {x:?}")),
                        },
                        "e" => V::Err(x.clone()),
                        _ => return Err(format!("{cr}: cell type {t}")),
                    },
                },
            };
            let f = match c.child("f") {
                None => None,
                Some(f) => Some(F {
                    text: f.text(),
                    array_ref: if f.attr("t") == Some("array") {
                        Some(f.a("ref").to_string())
                    } else {
                        None
                    },
                }),
            };
            s.cells.insert(
                (cr_r, cr_c),
                Cell {
                    v,
                    f,
                    s: c.int("s").unwrap_or(0) as usize,
                    cm: c.int("cm"),
                    vm: c.int("vm"),
                    t,
                    raw_v,
                    inline,
                },
            );
        }
    }
    Ok(())
}

impl Book {
    pub fn open(bytes: &[u8]) -> Result<Book, String> {
        let pkg = Pkg::open(bytes)?;
        let root = pkg.rels("")?;
        let wbr = root
            .iter()
            .find(|r| r.kind == "officeDocument")
            .ok_or("no officeDocument relationship")?;
        let wb_part = wbr.part.clone();
        let wb = pkg.xml(&wb_part)?;
        let wb_rels = pkg.rels(&wb_part)?;
        let mut sst = vec![];
        let mut sst_xml = None;
        if let Some(r) = wb_rels.iter().find(|r| r.kind == "sharedStrings") {
            let x = pkg.xml(&r.part)?;
            for si in x.elems() {
                sst.push(string_item(si));
            }
            sst_xml = Some(x);
        }
        let styles = match wb_rels.iter().find(|r| r.kind == "styles") {
            Some(r) => Styles::decode(pkg.xml(&r.part)?)?,
            None => return Err("no styles part".into()),
        };
        let mut sheets = vec![];
        for e in wb.child("sheets").ok_or("no sheets")?.elems() {
            let rid = e.a("r:id");
            let rel = wb_rels
                .iter()
                .find(|r| r.id == rid)
                .ok_or_else(|| format!("sheet rel {rid} missing"))?;
            let is_chart = rel.kind == "chartsheet";
            let mut s = Sheet {
                name: e.a("name").to_string(),
                sheet_id: e.a("sheetId").to_string(),
                state: e.attr("state").unwrap_or("visible").to_string(),
                part: rel.part.clone(),
                xml: pkg.xml(&rel.part)?,
                rels: pkg.rels(&rel.part)?,
                is_chart,
                cells: BTreeMap::new(),
                rows: BTreeMap::new(),
                cols: vec![],
                dimension: String::new(),
            };
            if !is_chart {
                decode_sheet_data(&mut s, &sst).map_err(|e| format!("{}: {e}", rel.part))?;
                for ((r, c), cell) in &s.cells {
                    if cell.s >= styles.xfs.len() {
                        return Err(format!(
                            "{}: cell {} style {} of {}",
                            rel.part,
                            a1(*r, *c),
                            cell.s,
                            styles.xfs.len()
                        ));
                    }
                }
                for (r, row) in &s.rows {
                    if row.s.unwrap_or(0) >= styles.xfs.len() {
                        return Err(format!("{}: row {} style", rel.part, r + 1));
                    }
                }
                for c in &s.cols {
                    if c.s >= styles.xfs.len() {
                        return Err(format!("{}: col {} style", rel.part, c.min));
                    }
                }
            }
            sheets.push(s);
        }
        let mut names = vec![];
        if let Some(d) = wb.child("definedNames") {
            for e in d.elems() {
                names.push(DefName {
                    name: e.a("name").to_string(),
                    local: e.int("localSheetId").map(|i| i as usize),
                    hidden: e.flag("hidden", false),
                    text: e.text(),
                });
            }
        }
        Ok(Book {
            pkg,
            wb,
            wb_part,
            wb_rels,
            sheets,
            sst,
            sst_xml,
            styles,
            names,
        })
    }

    pub fn sheet(&self, name: &str) -> Option<&Sheet> {
        self.sheets.iter().find(|s| s.name == name)
    }
    pub fn style(&self, xf: usize) -> &Facts {
        &self.styles.xfs[xf]
    }
    /// Related part of a sheet (or any part) by relationship kind.
    pub fn related(&self, rels: &[Rel], kind: &str) -> Vec<String> {
        rels.iter()
            .filter(|r| r.kind == kind && !r.external)
            .map(|r| r.part.clone())
            .collect()
    }
}

impl Sheet {
    /// Column info covering a zero-based column.
    pub fn col(&self, c: u16) -> Option<&Col> {
        let n = u32::from(c) + 1;
        self.cols.iter().find(|x| x.min <= n && n <= x.max)
    }
    pub fn rel(&self, id: &str) -> Option<&Rel> {
        self.rels.iter().find(|r| r.id == id)
    }
    pub fn exts(&self) -> Vec<&Elem> {
        self.xml
            .child("extLst")
            .map(|e| e.elems().collect())
            .unwrap_or_default()
    }
}

/// True when a bare sheet name would be read by Excel as something else (a
/// number, an operator, an A1 or an R1C1 reference).
pub fn name_needs_quotes(n: &str) -> bool {
    let plain = |c: char| c.is_alphanumeric() || c == '_' || c == '.' || (c as u32) >= 0x203C;
    if n.is_empty() || !n.chars().all(plain) {
        return true;
    }
    if n.starts_with(|c: char| c.is_ascii_digit() || c == '.') {
        return true;
    }
    // A single punctuation or symbol is not a word character; only emoji are.
    let u = n.to_ascii_uppercase();
    let b = u.as_bytes();
    let letters = b.iter().take_while(|c| c.is_ascii_uppercase()).count();
    let digits = b[letters..]
        .iter()
        .take_while(|c| c.is_ascii_digit())
        .count();
    let num = |s: &str| s.parse::<u128>().unwrap_or(u128::MAX);
    if (1..=3).contains(&letters) && digits > 0 && letters + digits == b.len() {
        let mut c = 0u32;
        for x in &b[..letters] {
            c = c * 26 + u32::from(x - b'A' + 1);
        }
        let r = num(&u[letters..]);
        if c <= 16384 && (1..=1_048_576).contains(&r) {
            return true;
        }
    }
    if matches!(u.as_str(), "R" | "C" | "RC") {
        return true;
    }
    let lead = &u[..letters];
    if digits > 0 {
        let v = num(&u[letters..letters + digits]);
        if lead == "R" && (1..=1_048_576).contains(&v) {
            return true;
        }
        if (lead == "C" || lead == "RC") && (1..=16384).contains(&v) {
            return true;
        }
    }
    false
}

/// Split `Sheet!rest` or `'She''et'!rest` by Excel's reference grammar.
pub fn split_sheet_ref(s: &str) -> Option<(String, String)> {
    if let Some(t) = s.strip_prefix('\'') {
        let mut name = String::new();
        let mut it = t.char_indices().peekable();
        while let Some((i, c)) = it.next() {
            if c == '\'' {
                match it.peek() {
                    Some((_, '\'')) => {
                        it.next();
                        name.push('\'');
                    }
                    _ => {
                        let rest = &t[i + 1..];
                        return rest.strip_prefix('!').map(|r| (name, r.to_string()));
                    }
                }
            } else {
                name.push(c);
            }
        }
        None
    } else {
        let (n, r) = s.split_once('!')?;
        if name_needs_quotes(n) {
            return None;
        }
        Some((n.to_string(), r.to_string()))
    }
}

/// A sheet-qualified range, with whether every part is absolute.
pub fn parse_sheet_range(s: &str) -> Option<(String, (u32, u16, u32, u16), bool)> {
    let (n, r) = split_sheet_ref(s)?;
    let abs = r
        .split(':')
        .all(|p| p.starts_with('$') && p.matches('$').count() == 2);
    Some((n, parse_range(&r)?, abs))
}

/// An object of a sheet's drawing.
pub struct Anchor<'a> {
    pub row: u32,
    pub col: u16,
    /// Offsets in the first cell, in EMUs.
    pub x: i64,
    pub y: i64,
    pub to_row: u32,
    pub to_col: u16,
    pub to_x: i64,
    pub to_y: i64,
    /// The `editAs` option; "twoCell" is the default.
    pub edit: String,
    pub elem: &'a Elem,
}

/// A drawing part and what it refers to.
pub struct Drawing {
    pub part: String,
    pub xml: Elem,
    pub rels: Vec<Rel>,
}

impl Drawing {
    pub fn rel(&self, id: &str) -> Option<&Rel> {
        self.rels.iter().find(|r| r.id == id)
    }
    pub fn anchors(&self) -> Vec<Anchor<'_>> {
        let mut out = vec![];
        for e in self.xml.elems() {
            if e.local() != "twoCellAnchor" {
                continue;
            }
            let n = |p: &str| -> i64 {
                e.path(p)
                    .map(|x| x.text().trim().parse::<i64>().unwrap_or(-1))
                    .unwrap_or(-1)
            };
            out.push(Anchor {
                row: n("xdr:from/xdr:row") as u32,
                col: n("xdr:from/xdr:col") as u16,
                x: n("xdr:from/xdr:colOff"),
                y: n("xdr:from/xdr:rowOff"),
                to_row: n("xdr:to/xdr:row") as u32,
                to_col: n("xdr:to/xdr:col") as u16,
                to_x: n("xdr:to/xdr:colOff"),
                to_y: n("xdr:to/xdr:rowOff"),
                edit: e.attr("editAs").unwrap_or("twoCell").to_string(),
                elem: e,
            });
        }
        out
    }
}

impl Book {
    /// The drawing of a sheet.
    pub fn drawing(&self, s: &Sheet) -> Option<Drawing> {
        let id = s.xml.child("drawing")?.a("r:id").to_string();
        let part = s.rel(&id)?.part.clone();
        Some(Drawing {
            xml: self.pkg.xml(&part).ok()?,
            rels: self.pkg.rels(&part).ok()?,
            part,
        })
    }
}
