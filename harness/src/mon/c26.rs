//! C26 serialization of structs.

use crate::book::{a1, a1_range, Book, Sheet, V};
use crate::gen::{self, FModel, Fmt, TextOpt};
use crate::mon::c16::{px_width, stored};
use crate::rng::Rng;
use crate::run::Ctx;
use crate::sheetops::open_wb;
use rust_xlsxwriter::{
    utility, CustomSerializeField, ExcelDateTime, SerializeFieldOptions, Table, TableColumn, TableFunction,
    TableStyle, Workbook, Worksheet, XlsxSerialize,
};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct};
use serde::{Deserialize, Serialize, Serializer};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const TEXT: TextOpt = TextOpt {
    ctrl: true,
    breaks: true,
    nonchar: false,
    esc: true,
};

const STRUCTS: &[&str] = &["Alpha", "Beta", "Gamma Δ", "alpha", "Sheet1", "r#x", "S"];
const FIELDS: &[&str] = &[
    "a", "b", "c", "A", "name", "Name", "first name", "été", "x<y>&\"z\"", "type", "_id", "id_", "1", "=SUM(A1)", "日本",
    "long_field_name_that_goes_on", "B2", "true",
];

/// A value of the serde data model and the cell it has to become.
#[derive(Clone, Debug)]
enum Val {
    Bool(bool),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    None,
    Unit,
    UnitStruct,
    Variant(&'static str),
    Some(Box<Val>),
    Newtype(Box<Val>),
    NewVariant(Box<Val>),
    Date(u16, u8, u8, u16, u8, u8),
}

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Val::Bool(x) => s.serialize_bool(*x),
            Val::I8(x) => s.serialize_i8(*x),
            Val::U8(x) => s.serialize_u8(*x),
            Val::I16(x) => s.serialize_i16(*x),
            Val::U16(x) => s.serialize_u16(*x),
            Val::I32(x) => s.serialize_i32(*x),
            Val::U32(x) => s.serialize_u32(*x),
            Val::I64(x) => s.serialize_i64(*x),
            Val::U64(x) => s.serialize_u64(*x),
            Val::F32(x) => s.serialize_f32(*x),
            Val::F64(x) => s.serialize_f64(*x),
            Val::Char(x) => s.serialize_char(*x),
            Val::Str(x) => s.serialize_str(x),
            Val::None => s.serialize_none(),
            Val::Unit => s.serialize_unit(),
            Val::UnitStruct => s.serialize_unit_struct("Nothing"),
            Val::Variant(x) => s.serialize_unit_variant("Enum", 1, x),
            Val::Some(x) => s.serialize_some(x),
            Val::Newtype(x) => s.serialize_newtype_struct("New", x),
            Val::NewVariant(x) => s.serialize_newtype_variant("Enum", 0, "Variant", x),
            Val::Date(y, m, d, h, n, c) => match ExcelDateTime::from_ymd(*y, *m, *d).and_then(|x| x.and_hms(*h, *n, f64::from(*c))) {
                Ok(x) => x.serialize(s),
                Err(e) => Err(serde::ser::Error::custom(e)),
            },
        }
    }
}

fn val(r: &mut Rng, deep: bool) -> Val {
    match r.below(if deep { 24 } else { 18 }) {
        0 => Val::Bool(r.bool()),
        1 => Val::I8(r.u64() as i8),
        2 => Val::U8(r.u64() as u8),
        3 => Val::I16(r.u64() as i16),
        4 => Val::U16(r.u64() as u16),
        5 => Val::I32(r.u64() as i32),
        6 => Val::U32(r.u64() as u32),
        7 => Val::I64(r.u64() as i64 >> r.below(60)),
        8 => Val::U64(r.u64() >> r.below(60)),
        9 => Val::F32((r.f01() as f32 - 0.5) * 10f32.powi(r.range(-20, 20) as i32)),
        10 => Val::F64(gen::number(r)),
        11 => Val::Char(*r.pick(&['a', '"', '<', 'é', '😀', '\t', ' ', '0'])),
        12 | 13 => Val::Str(gen::text(r, 20, TEXT)),
        14 => Val::None,
        15 => match r.below(2) {
            0 => Val::Unit,
            _ => Val::UnitStruct,
        },
        16 => Val::Variant(r.pick(&["Forward", "Reverse <&>", "A1", "12"])),
        17 => Val::Date(r.u16(1900, 9999), r.u8(3, 12), r.u8(1, 28), r.u16(0, 23), r.u8(0, 59), r.u8(0, 59)),
        18 | 19 => Val::Some(Box::new(val(r, false))),
        20 | 21 => Val::Newtype(Box::new(val(r, false))),
        _ => Val::NewVariant(Box::new(val(r, false))),
    }
}

fn days(y: i64, m: i64, d: i64) -> f64 {
    // Days since 1899-12-30, valid from March 1900.
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    (era * 146_097 + doe - 719_468 + 25569) as f64
}

/// The cell value: nothing for an empty string.
fn cell(v: &Val) -> Option<V> {
    let t = |s: &str| {
        if s.is_empty() {
            None
        } else {
            Some(V::Str(s.to_string()))
        }
    };
    Some(match v {
        Val::Bool(x) => V::Bool(*x),
        Val::I8(x) => V::num(f64::from(*x)),
        Val::U8(x) => V::num(f64::from(*x)),
        Val::I16(x) => V::num(f64::from(*x)),
        Val::U16(x) => V::num(f64::from(*x)),
        Val::I32(x) => V::num(f64::from(*x)),
        Val::U32(x) => V::num(f64::from(*x)),
        Val::I64(x) => V::num(*x as f64),
        Val::U64(x) => V::num(*x as f64),
        Val::F32(x) => V::num(f64::from(*x)),
        Val::F64(x) => V::num(*x),
        Val::Char(x) => return t(&x.to_string()),
        Val::Str(x) => return t(x),
        Val::None | Val::Unit | Val::UnitStruct => return None,
        Val::Variant(x) => return t(x),
        Val::Some(x) | Val::Newtype(x) | Val::NewVariant(x) => return cell(x),
        Val::Date(y, m, d, h, n, c) => {
            let ms = (f64::from(*h) * 3600.0 + f64::from(*n) * 60.0 + f64::from(*c)) * 1000.0;
            V::num(days(i64::from(*y), i64::from(*m), i64::from(*d)) + ms / 86_400_000.0)
        }
    })
}

/// A struct with any fields.
#[derive(Clone, Debug)]
struct Dyn {
    name: &'static str,
    fields: Vec<(&'static str, Option<Val>)>,
}

impl Serialize for Dyn {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut st = s.serialize_struct(self.name, self.fields.len())?;
        for (k, v) in &self.fields {
            match v {
                Some(v) => st.serialize_field(k, v)?,
                None => st.skip_field(k)?,
            }
        }
        st.end()
    }
}

/// Structs in containers.
enum Tree {
    One(Dyn),
    Seq(Vec<Tree>),
    Tuple(Vec<Tree>),
    TupleStruct(Vec<Tree>),
    Some(Box<Tree>),
    Newtype(Box<Tree>),
    Variant(Box<Tree>),
    None,
}

impl Serialize for Tree {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Tree::One(d) => d.serialize(s),
            Tree::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tree::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tree::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("Several", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Tree::Some(x) => s.serialize_some(x),
            Tree::Newtype(x) => s.serialize_newtype_struct("Wrapper", x),
            Tree::Variant(x) => s.serialize_newtype_variant("Enum", 2, "Struct", x),
            Tree::None => s.serialize_none(),
        }
    }
}

fn tree(r: &mut Rng, v: Vec<Dyn>) -> Tree {
    if v.len() == 1 && r.bool() {
        let mut t = Tree::One(v.into_iter().next().unwrap_or(Dyn { name: "S", fields: vec![] }));
        for _ in 0..r.below(3) {
            t = match r.below(3) {
                0 => Tree::Some(Box::new(t)),
                1 => Tree::Newtype(Box::new(t)),
                _ => Tree::Variant(Box::new(t)),
            };
        }
        return t;
    }
    let mut parts: Vec<Tree> = vec![];
    let mut rest = v;
    while !rest.is_empty() {
        let n = if r.one_in(4) { r.usize(rest.len()) + 1 } else { 1 };
        let tail = rest.split_off(n);
        if n > 1 && !tail.is_empty() {
            parts.push(tree(r, rest));
        } else {
            parts.extend(rest.into_iter().map(Tree::One));
        }
        rest = tail;
        if r.one_in(6) {
            parts.push(Tree::None);
        }
    }
    match r.below(3) {
        0 => Tree::Tuple(parts),
        1 => Tree::TupleStruct(parts),
        _ => Tree::Seq(parts),
    }
}

/// A map whose contents aren't serialized.
struct Map(Vec<(String, f64)>);

impl Serialize for Map {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}

#[derive(Clone, Default)]
struct Field {
    name: String,
    header: String,
    header_format: Option<FModel>,
    value_format: Option<FModel>,
    column_format: Option<FModel>,
    width: Option<f64>,
}

#[derive(Clone)]
struct Target {
    row: u32,
    col: u16,
    headers: bool,
    fields: Vec<Field>,
    next: u32,
    /// The table's totals row, if there is a table.
    table: Option<bool>,
}

#[derive(Default)]
struct Model {
    cells: BTreeMap<(u32, u16), (Option<V>, Option<FModel>)>,
    columns: BTreeMap<u16, FModel>,
    widths: BTreeMap<u16, f64>,
    targets: HashMap<String, Target>,
    /// Ranges, column names, header and totals rows.
    tables: Vec<(u32, u16, u32, u16, Vec<String>, bool, bool)>,
}

impl Model {
    fn put(&mut self, at: (u32, u16), v: Option<V>, f: Option<&FModel>) {
        if v.is_none() && f.is_none() {
            // Nothing is written.
            return;
        }
        self.cells.insert(at, (v, f.cloned()));
    }

    fn finish(&mut self, name: &str) {
        let Some(t) = self.targets.get_mut(name) else { return };
        if let Some(total) = t.table.take() {
            let last = t.next - 1 + u32::from(total);
            let end = t.col + t.fields.len() as u16 - 1;
            let names = t
                .fields
                .iter()
                .enumerate()
                .map(|(i, f)| if t.headers { f.header.clone() } else { format!("Column{}", i + 1) })
                .collect();
            self.tables.push((t.row, t.col, last, end, names, t.headers, total));
        }
    }

    fn start(&mut self, name: &str, row: u32, col: u16, fields: Vec<Field>, headers: bool, all: Option<&FModel>, table: Option<bool>) {
        for (i, f) in fields.iter().enumerate() {
            let c = col + i as u16;
            if let Some(w) = f.width {
                self.widths.insert(c, w);
            }
            if let Some(m) = &f.column_format {
                self.columns.insert(c, m.clone());
            }
            if headers {
                self.put((row, c), Some(V::Str(f.header.clone())), f.header_format.as_ref().or(all));
            }
        }
        self.finish(name);
        let next = row + u32::from(headers);
        self.targets.insert(
            name.to_string(),
            Target {
                row,
                col,
                headers,
                fields,
                next,
                table,
            },
        );
    }

    fn row(&mut self, d: &Dyn) {
        let Some(t) = self.targets.get_mut(d.name) else { return };
        let row = t.next;
        t.next += 1;
        let mut puts = vec![];
        for (k, v) in &d.fields {
            let i = t.fields.iter().rposition(|f| f.name == *k);
            if let (Some(i), Some(v)) = (i, v) {
                puts.push(((row, t.col + i as u16), cell(v), t.fields[i].value_format.clone()));
            }
        }
        for (at, v, f) in puts {
            self.put(at, v, f.as_ref());
        }
    }
}

fn maybe(r: &mut Rng) -> Option<Fmt> {
    r.one_in(3).then(|| Fmt::random(r, 3))
}

/// The fields and options of a struct.
fn options(ctx: &mut Ctx, names: &[&'static str]) -> (SerializeFieldOptions, Vec<Field>, bool, Option<FModel>, Option<bool>) {
    let mut o = SerializeFieldOptions::new();
    let mut all = None;
    if let Some(f) = maybe(&mut ctx.rng) {
        ctx.log(format!("  header format {}", f.desc));
        o = o.set_header_format(&f.f);
        all = Some(f.m);
    }
    let hide = ctx.rng.one_in(4);
    if hide {
        ctx.log("  no headers");
        o = o.hide_headers(true);
    }
    let only = ctx.rng.one_in(3);
    let mut order: Vec<&'static str> = names.to_vec();
    if only {
        ctx.rng.shuffle(&mut order);
        let k = ctx.rng.usize(order.len()) + 1;
        order.truncate(k);
        o = o.use_custom_headers_only(true);
    }
    let mut customs = vec![];
    let mut fields = vec![];
    let mut used: BTreeSet<String> = BTreeSet::new();
    for (i, n) in order.iter().enumerate() {
        let mut f = Field {
            name: (*n).to_string(),
            header: (*n).to_string(),
            ..Field::default()
        };
        // Some fields aren't mentioned.
        if !only && ctx.rng.one_in(3) {
            used.insert(f.header.to_lowercase());
            fields.push(f);
            continue;
        }
        let mut c = CustomSerializeField::new(*n);
        let mut skip = false;
        let mut desc = format!("  field {n:?}");
        if ctx.rng.one_in(3) {
            // Header names of tables have to be unique.
            f.header = format!("{} {i}", gen::word(&mut ctx.rng));
            c = c.rename(f.header.as_str());
            desc += &format!(" rename {:?}", f.header);
        }
        if let Some(x) = maybe(&mut ctx.rng) {
            c = c.set_header_format(&x.f);
            desc += &format!(" header {}", x.desc);
            f.header_format = Some(x.m);
        }
        if let Some(x) = maybe(&mut ctx.rng) {
            c = c.set_value_format(&x.f);
            desc += &format!(" value {}", x.desc);
            f.value_format = Some(x.m);
        }
        if let Some(x) = maybe(&mut ctx.rng) {
            c = c.set_column_format(&x.f);
            desc += &format!(" column {}", x.desc);
            f.column_format = Some(x.m);
        }
        match ctx.rng.below(4) {
            0 => {
                let w = ctx.rng.range(1, 250) as f64 / 4.0;
                c = c.set_column_width(w);
                desc += &format!(" width {w}");
                f.width = Some(w);
            }
            1 => {
                let p = ctx.rng.u16(1, 400);
                c = c.set_column_width_pixels(p);
                desc += &format!(" pixels {p}");
                f.width = Some(px_width(p));
            }
            _ => {}
        }
        if order.len() > 1 && ctx.rng.one_in(6) {
            skip = ctx.rng.pct(80);
            c = c.skip(skip);
            desc += &format!(" skip {skip}");
        }
        ctx.log(desc);
        customs.push((i, c));
        if !skip {
            used.insert(f.header.to_lowercase());
            fields.push(f);
        }
    }
    if !only {
        ctx.rng.shuffle(&mut customs);
    }
    let customs: Vec<_> = customs.into_iter().map(|(_, c)| c).collect();
    o = o.set_custom_headers(&customs);
    let mut table = None;
    if ctx.rng.one_in(3) && used.len() == fields.len() {
        match ctx.rng.below(3) {
            0 => {
                o = o.set_table_default();
                table = Some(false);
            }
            1 => {
                o = o.set_table_style(TableStyle::Light8);
                table = Some(false);
            }
            _ => {
                let mut columns: Vec<TableColumn> = fields.iter().map(|_| TableColumn::new()).collect();
                if let Some(c) = columns.first_mut() {
                    *c = TableColumn::new().set_total_function(TableFunction::Count);
                }
                o = o.set_table(Table::new().set_total_row(true).set_columns(&columns));
                table = Some(true);
            }
        }
        ctx.log(format!("  table, totals {table:?}"));
    }
    (o, fields, !hide, all, table)
}

fn plain(names: &[&'static str]) -> Vec<Field> {
    names
        .iter()
        .map(|n| Field {
            name: (*n).to_string(),
            header: (*n).to_string(),
            ..Field::default()
        })
        .collect()
}

struct Type {
    name: &'static str,
    fields: Vec<&'static str>,
    block: u16,
}

fn instance(r: &mut Rng, t: &Type) -> Dyn {
    Dyn {
        name: t.name,
        fields: t
            .fields
            .iter()
            .map(|f| (*f, if r.one_in(9) { None } else { Some(val(r, true)) }))
            .collect(),
    }
}

/// A struct whose fields are all there, as the headers need.
fn sample(r: &mut Rng, t: &Type) -> Dyn {
    Dyn {
        name: t.name,
        fields: t.fields.iter().map(|f| (*f, Some(val(r, true)))).collect(),
    }
}

thread_local! {
    static SHAPE: RefCell<(&'static str, &'static [&'static str])> = const { RefCell::new(("", &[])) };
}

/// A struct that is deserialized, with the name and fields of `SHAPE`.
struct Shape;

impl<'de> Deserialize<'de> for Shape {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Shape, D::Error> {
        struct Vis;
        impl serde::de::Visitor<'_> for Vis {
            type Value = Shape;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a struct")
            }
        }
        let (n, f) = SHAPE.with(|s| *s.borrow());
        d.deserialize_struct(n, f, Vis)
    }
}

/// Shapes for headers by deserialization.
const SHAPES: &[&[&str]] = &[
    &["a", "b", "c"],
    &["name"],
    &["x<y>&\"z\"", "été", "1", "true", "B2"],
    &["Name", "name2"],
];

fn headers(ctx: &mut Ctx, ws: &mut Worksheet, m: &mut Model, t: &Type, row: u32, col: u16) {
    let at = a1(row, col);
    let shape = SHAPES.iter().find(|s| s[..] == t.fields[..]);
    let by_type = shape.is_some() && ctx.rng.bool();
    if let Some(s) = shape {
        SHAPE.with(|x| *x.borrow_mut() = (t.name, s));
    }
    let d = sample(&mut ctx.rng, t);
    let (r, fields, heads, all, table) = match ctx.rng.below(4) {
        0 => {
            ctx.log(format!("headers of {:?} {:?} at {at}", t.name, t.fields));
            let r = if by_type {
                ws.deserialize_headers::<Shape>(row, col).map(|_| ())
            } else {
                ws.serialize_headers(row, col, &d).map(|_| ())
            };
            (r, plain(&t.fields), true, Some(FModel::new()), None)
        }
        1 => {
            let f = Fmt::random(&mut ctx.rng, 3);
            ctx.log(format!("headers of {:?} {:?} at {at} format {}", t.name, t.fields, f.desc));
            let r = if by_type {
                ws.deserialize_headers_with_format::<Shape>(row, col, &f.f).map(|_| ())
            } else {
                ws.serialize_headers_with_format(row, col, &d, &f.f).map(|_| ())
            };
            (r, plain(&t.fields), true, Some(f.m), None)
        }
        _ => {
            ctx.log(format!("headers of {:?} {:?} at {at} with options, by type {by_type}", t.name, t.fields));
            let (mut o, fields, heads, all, table) = options(ctx, &t.fields);
            if ctx.rng.one_in(8) {
                // Unknown fields are refused.
                let x = o.clone().set_custom_headers(&[CustomSerializeField::new("no such field")]);
                let r = ws.serialize_headers_with_options(row, col, &d, &x).is_err();
                ctx.check(r, "refused", || "unknown field accepted".to_string());
            }
            if fields.is_empty() {
                // There would be nothing to write.
                ctx.log("  none used");
                return;
            }
            o = o.set_struct_name("other name");
            let r = if by_type {
                ws.deserialize_headers_with_options::<Shape>(row, col, &o).map(|_| ())
            } else {
                ws.serialize_headers_with_options(row, col, &d, &o).map(|_| ())
            };
            (r, fields, heads, all, table)
        }
    };
    if let Err(e) = r {
        ctx.fail("headers", format!("{at}: {e}"));
        return;
    }
    m.start(t.name, row, col, fields, heads, all.as_ref(), table);
}

fn check(ctx: &mut Ctx, b: &Book, s: &Sheet, m: &Model) {
    for (at, c) in &s.cells {
        let a = a1(at.0, at.1);
        let (v, f) = m.cells.get(at).cloned().unwrap_or((None, None));
        let total = m.tables.iter().any(|t| t.6 && t.2 == at.0 && t.1 <= at.1 && at.1 <= t.3);
        if total {
            continue;
        }
        ctx.eq(&c.v, &v.unwrap_or(V::Blank), "value", &a);
        let f = f.filter(|f| !f.is_default()).or_else(|| m.columns.get(&at.1).cloned()).unwrap_or_else(FModel::new);
        let (got, want) = (gen::norm(b.style(c.s)), gen::norm(&f.facts()));
        ctx.check(got == want, "format", || format!("{a}: {}", gen::diff(&got, &want)));
    }
    for (at, (v, f)) in &m.cells {
        if !s.cells.contains_key(at) {
            // Blank cells of a default format aren't needed.
            let blank = v.is_none() && f.as_ref().is_none_or(|f| f.is_default());
            ctx.check(blank, "missing", || format!("{}: {v:?}", a1(at.0, at.1)));
        }
    }
    for c in 0..80u16 {
        let got = s.col(c);
        let w = m.widths.get(&c).map(|w| stored(*w));
        let width = got.and_then(|x| if x.custom { x.width } else { None });
        let same = match (width, w) {
            (Some(a), Some(b)) => (a - b).abs() < 1e-9,
            (a, b) => a.unwrap_or(stored(8.43)) == b.unwrap_or(stored(8.43)),
        };
        ctx.check(same, "width", || format!("column {c}: {width:?}, expected {w:?}"));
        let f = m.columns.get(&c).cloned().unwrap_or_else(FModel::new);
        let (got, want) = (gen::norm(b.style(got.map_or(0, |x| x.s))), gen::norm(&f.facts()));
        ctx.check(got == want, "column format", || format!("column {c}: {}", gen::diff(&got, &want)));
    }
    let mut got = BTreeSet::new();
    for p in b.related(&s.rels, "table") {
        if let Ok(t) = b.pkg.xml(&p) {
            let names: Vec<String> = t
                .path("tableColumns")
                .map(|c| c.children("tableColumn").map(|c| c.attr("name").unwrap_or("").to_string()).collect())
                .unwrap_or_default();
            got.insert((
                t.attr("ref").unwrap_or("").to_string(),
                names,
                t.int("headerRowCount").unwrap_or(1) > 0,
                t.int("totalsRowCount").unwrap_or(0) > 0,
            ));
        }
    }
    let want: BTreeSet<_> = m
        .tables
        .iter()
        .map(|t| (a1_range(t.0, t.1, t.2, t.3), t.4.clone(), t.5, t.6))
        .collect();
    ctx.eq(&got, &want, "tables", "sheet");
}

pub fn case(ctx: &mut Ctx) {
    if ctx.rng.one_in(4) {
        derived(ctx);
        return;
    }
    let mut wb = Workbook::new();
    let constant = ctx.rng.one_in(4);
    let ws = if !constant {
        wb.add_worksheet()
    } else if ctx.rng.bool() {
        wb.add_worksheet_with_constant_memory()
    } else {
        wb.add_worksheet_with_low_memory()
    };
    ctx.log(format!("constant memory {constant}"));
    let mut m = Model::default();
    let mut types: Vec<Type> = vec![];
    let mut names = STRUCTS.to_vec();
    ctx.rng.shuffle(&mut names);
    // Rows have to be written in order in constant memory mode.
    let n = if constant { 1 } else { ctx.rng.usize(4) + 1 };
    for (i, name) in names.iter().take(n).enumerate() {
        let fields = if ctx.rng.one_in(3) {
            ctx.rng.pick(SHAPES).to_vec()
        } else {
            let mut f = FIELDS.to_vec();
            ctx.rng.shuffle(&mut f);
            let k = ctx.rng.usize(6) + 1;
            f.truncate(k);
            f
        };
        types.push(Type {
            name,
            fields,
            block: i as u16 * 10,
        });
    }
    // Structs without headers are ignored.
    let stranger = Type {
        name: "Stranger",
        fields: vec!["a", "b"],
        block: 0,
    };
    let mut tops: Vec<u32> = types.iter().map(|_| 0).collect();
    let mut rows = 0;
    for step in 0..ctx.rng.u16(2, 14) {
        let i = ctx.rng.usize(types.len());
        let t = &types[i];
        let known = m.targets.contains_key(t.name);
        let due = if constant { !known } else { !known || ctx.rng.one_in(12) };
        if (due && (known || ctx.rng.pct(80))) || (step == 0 && !known) {
            // A table needs rows.
            let empty = m.targets.get(t.name).is_some_and(|x| x.table.is_some() && x.next == x.row + u32::from(x.headers));
            if empty {
                continue;
            }
            let old = m.targets.get(t.name).map_or(0, |x| x.next + 2);
            let row = old.max(tops[i]) + ctx.rng.u32(0, 4);
            let col = t.block + ctx.rng.u16(0, 3);
            headers(ctx, ws, &mut m, t, row, col);
            continue;
        }
        match ctx.rng.below(12) {
            0 => {
                ctx.log("values outside of structs");
                let r = match ctx.rng.below(6) {
                    0 => ws.serialize(&12345.5).map(|_| ()),
                    1 => ws.serialize(&"stray text").map(|_| ()),
                    2 => ws.serialize(&None::<u8>).map(|_| ()),
                    3 => ws.serialize(&vec![1, 2, 3]).map(|_| ()),
                    4 => ws.serialize(&Map(vec![("key".to_string(), 1.5)])).map(|_| ()),
                    _ => ws.serialize(&("text", 2.5, true)).map(|_| ()),
                };
                ctx.check(r.is_ok(), "serialize", || format!("{r:?}"));
            }
            1 => {
                ctx.log("a struct without headers");
                let d = sample(&mut ctx.rng, &stranger);
                let r = ws.serialize(&d).map(|_| ());
                ctx.check(r.is_ok(), "serialize", || format!("{r:?}"));
            }
            2 => {
                ctx.log("headers of a value");
                let r = ws.serialize_headers(0, 0, &12).map(|_| ()).is_err();
                ctx.check(r, "refused", || "headers of a number".to_string());
                let d = sample(&mut ctx.rng, &stranger);
                let r = ws.serialize_headers(1_048_576, 0, &d).map(|_| ()).is_err();
                ctx.check(r, "refused", || "headers outside of the sheet".to_string());
                let d = Dyn { name: "Stranger", fields: vec![] };
                let r = ws.serialize_headers(0, 0, &d).map(|_| ()).is_err();
                ctx.check(r, "refused", || "headers of an empty struct".to_string());
            }
            _ => {
                let k = ctx.rng.usize(4) + 1;
                let mut v = vec![];
                for _ in 0..k {
                    let j = if constant { i } else { ctx.rng.usize(types.len()) };
                    let d = instance(&mut ctx.rng, &types[j]);
                    ctx.log(format!("serialize {d:?}"));
                    m.row(&d);
                    v.push(d);
                    rows += 1;
                }
                let t = tree(&mut ctx.rng, v);
                let r = ws.serialize(&t).map(|_| ());
                ctx.check(r.is_ok(), "serialize", || format!("{r:?}"));
            }
        }
        for (i, t) in types.iter().enumerate() {
            if let Some(x) = m.targets.get(t.name) {
                tops[i] = tops[i].max(x.next);
            }
        }
    }
    // Tables need rows.
    let empty: Vec<&Type> = types
        .iter()
        .filter(|t| {
            m.targets
                .get(t.name)
                .is_some_and(|x| x.table.is_some() && x.next == x.row + u32::from(x.headers))
        })
        .collect();
    for t in empty {
        let d = instance(&mut ctx.rng, t);
        ctx.log(format!("serialize {d:?}"));
        m.row(&d);
        let r = ws.serialize(&d).map(|_| ());
        ctx.check(r.is_ok(), "serialize", || format!("{r:?}"));
    }
    for (n, t) in &m.targets {
        let last = t.next.max(t.row + 1) - 1;
        let end = t.col + t.fields.len() as u16 - 1;
        let got = ws.get_serialize_dimensions(n).ok();
        ctx.eq(&got, &Some((t.row, t.col, last, end)), "dimensions", n);
        for (i, f) in t.fields.iter().enumerate() {
            let c = t.col + i as u16;
            let got = ws.get_serialize_column_dimensions(n, &f.name).ok();
            ctx.eq(&got, &Some((t.row, c, last, c)), "column dimensions", &f.name);
        }
        let r = ws.get_serialize_column_dimensions(n, "no such field").is_err();
        ctx.check(r, "refused", || "dimensions of an unknown field".to_string());
    }
    let r = ws.get_serialize_dimensions("No such struct").is_err();
    ctx.check(r, "refused", || "dimensions of an unknown struct".to_string());
    let all: Vec<String> = m.targets.keys().cloned().collect();
    for n in all {
        m.finish(&n);
    }
    let Some(b) = open_wb(ctx, &mut wb) else { return };
    check(ctx, &b, &b.sheets[0], &m);
    ctx.add("rows", rows);
    ctx.nontrivial = rows > 2 && !m.cells.is_empty();
}

// Structs with attributes.

#[derive(Serialize, XlsxSerialize)]
#[serde(rename = "Renamed", rename_all = "PascalCase")]
#[xlsx(header_format = Format::new().set_bold())]
struct D1 {
    item_name: String,
    type_: u32,
    _count: f64,
    #[serde(rename = "Own")]
    own_name: bool,
    #[xlsx(skip)]
    hidden_one: u8,
    #[serde(skip)]
    #[allow(dead_code)]
    never: u8,
    #[xlsx(rename = "Price €")]
    #[xlsx(num_format = "0.00", column_width = 20.0)]
    unit_price: f64,
}

#[derive(Serialize, XlsxSerialize)]
#[serde(rename_all = "camelCase")]
#[xlsx(hide_headers)]
struct D2 {
    first_name_: String,
    a__b: i64,
    r#type: Option<u8>,
    #[serde(skip_serializing_if = "Option::is_none")]
    last_name: Option<String>,
    #[xlsx(column_width_pixels = 100)]
    original: i32,
}

fn twice<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_f64(v * 2.0)
}

fn seven() -> u16 {
    7
}

#[derive(Serialize, XlsxSerialize, Deserialize)]
#[serde(rename_all(deserialize = "kebab-case", serialize = "SCREAMING-KEBAB-CASE"))]
#[xlsx(table_default)]
struct D3 {
    #[serde(serialize_with = "twice", rename(serialize = "Two Times"))]
    two_times: f64,
    #[serde(default = "seven", rename = "Sept")]
    #[xlsx(rename = "Sieben")]
    seven: u16,
    r#loop: char,
    other_thing: String,
    original: bool,
}

#[derive(Serialize, XlsxSerialize)]
#[serde(rename_all = "lowercase")]
#[xlsx(table_style = TableStyle::Medium10)]
#[allow(non_snake_case)]
struct D4 {
    MixedCase: u8,
    #[xlsx(header_format = Format::new().set_italic(), value_format = Format::new().set_num_format("0%"))]
    lower: f64,
    #[serde(serialize_with = "utility::serialize_chrono_naive_to_excel")]
    when: chrono::NaiveDate,
    #[serde(serialize_with = "utility::serialize_chrono_option_naive_to_excel")]
    maybe: Option<chrono::NaiveDate>,
}

#[derive(Serialize, XlsxSerialize)]
#[serde(rename_all = "UPPERCASE")]
struct D5<'a, T: Serialize> {
    text: &'a str,
    #[serde(skip_serializing)]
    #[allow(dead_code)]
    no: T,
    #[xlsx(column_format = Format::new().set_bold())]
    yes_yes: T,
    original: u8,
}

struct Put<'a> {
    ws: &'a mut Worksheet,
    m: &'a mut Model,
}

impl Put<'_> {
    fn head<T: XlsxSerialize + Serialize>(
        &mut self,
        ctx: &mut Ctx,
        row: u32,
        col: u16,
        name: &'static str,
        fields: Vec<Field>,
        headers: bool,
        all: Option<&FModel>,
        table: Option<bool>,
    ) {
        ctx.log(format!("headers of {name} at {}", a1(row, col)));
        let r = self.ws.set_serialize_headers::<T>(row, col).map(|_| ());
        ctx.check(r.is_ok(), "headers", || format!("{name}: {r:?}"));
        self.m.start(name, row, col, fields, headers, all, table);
    }
}

fn field(name: &str, header: &str) -> Field {
    Field {
        name: name.to_string(),
        header: header.to_string(),
        ..Field::default()
    }
}

fn fmt(f: impl Fn(&mut FModel)) -> Option<FModel> {
    let mut m = FModel::new();
    f(&mut m);
    Some(m)
}

fn derived(ctx: &mut Ctx) {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let mut m = Model::default();
    let mut p = Put { ws, m: &mut m };
    let row = ctx.rng.u32(0, 5);
    let bold = fmt(|m| m.bold = true);
    let kinds: Vec<u64> = (0..5).filter(|_| ctx.rng.pct(60)).collect();
    for k in &kinds {
        let col = *k as u16 * 10;
        match k {
            0 => {
                let mut price = field("UnitPrice", "Price €");
                price.value_format = fmt(|m| m.numfmt = Some("0.00".to_string()));
                price.width = Some(20.0);
                let f = vec![
                    field("ItemName", "ItemName"),
                    field("Type", "Type"),
                    field("Count", "Count"),
                    field("Own", "Own"),
                    price,
                ];
                p.head::<D1>(ctx, row, col, "Renamed", f, true, bold.as_ref(), None);
            }
            1 => {
                let mut o = field("original", "original");
                o.width = Some(px_width(100));
                let f = vec![
                    field("firstName", "firstName"),
                    field("aB", "aB"),
                    field("type", "type"),
                    field("lastName", "lastName"),
                    o,
                ];
                p.head::<D2>(ctx, row, col, "D2", f, false, None, None);
            }
            2 => {
                let f = vec![
                    field("Two Times", "Two Times"),
                    field("Sept", "Sieben"),
                    field("LOOP", "LOOP"),
                    field("OTHER-THING", "OTHER-THING"),
                    field("ORIGINAL", "ORIGINAL"),
                ];
                p.head::<D3>(ctx, row, col, "D3", f, true, None, Some(false));
            }
            3 => {
                let mut l = field("lower", "lower");
                l.header_format = fmt(|m| m.italic = true);
                l.value_format = fmt(|m| m.numfmt = Some("0%".to_string()));
                let f = vec![
                    field("MixedCase", "MixedCase"),
                    l,
                    field("when", "when"),
                    field("maybe", "maybe"),
                ];
                p.head::<D4>(ctx, row, col, "D4", f, true, None, Some(false));
            }
            _ => {
                let mut y = field("YES_YES", "YES_YES");
                y.column_format = bold.clone();
                let f = vec![field("TEXT", "TEXT"), y, field("ORIGINAL", "ORIGINAL")];
                p.head::<D5<'static, i16>>(ctx, row, col, "D5", f, true, None, None);
            }
        }
    }
    let mut rows = 0;
    for n in 0..ctx.rng.u16(1, 12) {
        for k in &kinds {
            if n > 0 && ctx.rng.one_in(3) {
                continue;
            }
            rows += 1;
            let r = &mut ctx.rng;
            let text = gen::text(r, 12, TEXT);
            let num = gen::number(r);
            let (res, d) = match k {
                0 => {
                    let x = D1 {
                        item_name: text.clone(),
                        type_: r.u64() as u32,
                        _count: num,
                        own_name: r.bool(),
                        hidden_one: 1,
                        never: 2,
                        unit_price: gen::number(r),
                    };
                    let d = Dyn {
                        name: "Renamed",
                        fields: vec![
                            ("ItemName", Some(Val::Str(text))),
                            ("Type", Some(Val::U32(x.type_))),
                            ("Count", Some(Val::F64(num))),
                            ("Own", Some(Val::Bool(x.own_name))),
                            ("UnitPrice", Some(Val::F64(x.unit_price))),
                        ],
                    };
                    (p.ws.serialize(&x).map(|_| ()), d)
                }
                1 => {
                    let x = D2 {
                        first_name_: text.clone(),
                        a__b: r.u64() as i64 >> 20,
                        r#type: r.bool().then_some(3),
                        last_name: r.bool().then(|| "last".to_string()),
                        original: -4,
                    };
                    let d = Dyn {
                        name: "D2",
                        fields: vec![
                            ("firstName", Some(Val::Str(text))),
                            ("aB", Some(Val::I64(x.a__b))),
                            ("type", Some(x.r#type.map_or(Val::None, Val::U8))),
                            ("lastName", x.last_name.clone().map(Val::Str)),
                            ("original", Some(Val::I32(-4))),
                        ],
                    };
                    (p.ws.serialize(&x).map(|_| ()), d)
                }
                2 => {
                    let num = num / 8.0;
                    let x = D3 {
                        two_times: num,
                        seven: seven(),
                        r#loop: 'é',
                        other_thing: text.clone(),
                        original: r.bool(),
                    };
                    let d = Dyn {
                        name: "D3",
                        fields: vec![
                            ("Two Times", Some(Val::F64(num * 2.0))),
                            ("Sept", Some(Val::U16(7))),
                            ("LOOP", Some(Val::Char('é'))),
                            ("OTHER-THING", Some(Val::Str(text))),
                            ("ORIGINAL", Some(Val::Bool(x.original))),
                        ],
                    };
                    (p.ws.serialize(&x).map(|_| ()), d)
                }
                3 => {
                    let (y, mo, da) = (r.u16(1901, 9000), r.u8(1, 12), r.u8(1, 28));
                    let date = chrono::NaiveDate::from_ymd_opt(i32::from(y), u32::from(mo), u32::from(da)).unwrap_or_default();
                    let some = r.bool();
                    let x = D4 {
                        MixedCase: r.u8(0, 200),
                        lower: num,
                        when: date,
                        maybe: some.then_some(date),
                    };
                    let v = Val::Date(y, mo, da, 0, 0, 0);
                    let d = Dyn {
                        name: "D4",
                        fields: vec![
                            ("MixedCase", Some(Val::U8(x.MixedCase))),
                            ("lower", Some(Val::F64(num))),
                            ("when", Some(v.clone())),
                            ("maybe", Some(if some { v } else { Val::None })),
                        ],
                    };
                    (p.ws.serialize(&x).map(|_| ()), d)
                }
                _ => {
                    let n: i16 = r.u64() as i16;
                    let x = D5 {
                        text: &text,
                        no: 1i16,
                        yes_yes: n,
                        original: 9,
                    };
                    let d = Dyn {
                        name: "D5",
                        fields: vec![
                            ("TEXT", Some(Val::Str(text.clone()))),
                            ("YES_YES", Some(Val::I16(n))),
                            ("ORIGINAL", Some(Val::U8(9))),
                        ],
                    };
                    (p.ws.serialize(&x).map(|_| ()), d)
                }
            };
            ctx.log(format!("serialize {d:?}"));
            ctx.check(res.is_ok(), "serialize", || format!("{res:?}"));
            p.m.row(&d);
        }
    }
    let all: Vec<String> = m.targets.keys().cloned().collect();
    for n in all {
        m.finish(&n);
    }
    let Some(b) = open_wb(ctx, &mut wb) else { return };
    check(ctx, &b, &b.sheets[0], &m);
    ctx.add("rows", rows);
    ctx.add("derived rows", rows);
    ctx.nontrivial = rows > 0;
}
