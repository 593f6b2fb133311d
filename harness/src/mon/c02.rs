//! C02 every part is well-formed XML and every supplied text survives.

use crate::kit::{self, Opt};
use crate::pkg::Pkg;
use crate::run::Ctx;
use crate::xml::{xstring, Elem};
use std::collections::BTreeSet;

/// Every string a reader can get out of the package.
struct Strings {
    raw: BTreeSet<String>,
    /// With `_xHHHH_` undone, for the places where the schema says so.
    decoded: BTreeSet<String>,
    all: Vec<String>,
}

/// Characters that XML cannot carry, escaped as `_xHHHH_`.
fn carried(s: &str, cr: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\t' | '\n' => o.push(c),
            '\r' if !cr => o.push(c),
            '\0'..='\x1f' | '\u{FFFE}' | '\u{FFFF}' => o.push_str(&format!("_x{:04X}_", c as u32)),
            _ => o.push(c),
        }
    }
    o
}

fn gather(e: &Elem, out: &mut BTreeSet<String>) {
    for (_, v) in &e.attrs {
        out.insert(v.clone());
    }
    let t = e.text();
    if !t.is_empty() {
        out.insert(t);
    }
    for k in e.elems() {
        gather(k, out);
    }
}

impl Strings {
    /// As an ST_Xstring.
    fn xstring(&self, s: &str) -> bool {
        self.decoded.contains(s)
    }
    /// As plain XML text.
    fn plain(&self, s: &str) -> bool {
        self.raw.contains(&carried(s, false)) || self.raw.contains(&carried(s, true))
    }
    fn within(&self, s: &str) -> bool {
        let (a, b) = (carried(s, false), carried(s, true));
        self.all
            .iter()
            .any(|x| x.contains(s) || x.contains(&a) || x.contains(&b))
    }
}

/// Texts kept in an ST_Xstring.
const XSTRING: &[&str] = &[
    "cell string",
    "rich segment",
    "formula result",
    "link text",
    "link tip",
    "merge text",
    "table header",
    "total label",
    "note text",
    "note author",
    "header",
    "footer",
    "dv input title",
    "dv input message",
    "dv error title",
    "dv error message",
];

pub fn case(ctx: &mut Ctx) {
    let p = kit::prog(&mut ctx.rng, &Opt::default());
    p.log(ctx);
    let (mut wb, texts, bad) = p.build();
    for b in &bad {
        ctx.log(format!("rejected: {b}"));
        ctx.count("rejected calls");
    }
    let bytes = match wb.save_to_buffer() {
        Ok(b) => b,
        Err(e) => {
            ctx.log(format!("save: {e}"));
            ctx.count("rejected saves");
            return;
        }
    };
    ctx.artifact = Some(bytes.clone());
    let pkg = match Pkg::open(&bytes) {
        Ok(p) => p,
        Err(e) => {
            ctx.fail("package", e);
            return;
        }
    };
    let mut raw = BTreeSet::new();
    for e in &pkg.entries {
        if !Pkg::is_xml(&e.name) {
            continue;
        }
        ctx.observed += 1;
        ctx.count("xml parts");
        match crate::xml::parse(&e.data) {
            Ok(x) => gather(&x, &mut raw),
            Err(m) => ctx.fail("malformed", format!("{}: {m}", e.name)),
        }
    }
    let all: Vec<String> = raw.iter().flat_map(|v| [v.clone(), xstring(v)]).collect();
    let s = Strings {
        decoded: raw.iter().map(|v| xstring(v)).collect(),
        raw,
        all,
    };
    for g in &texts {
        ctx.count(&format!("text.{}", g.what));
        let ok = match g.what {
            // Part of a longer text.
            "dv list" | "cf text" => s.within(&g.text),
            // One paragraph per line.
            "shape text" => g.text.lines().all(|l| l.is_empty() || s.plain(l)),
            // The author prefix ends with a line break of the text's run.
            "note text" => s.xstring(&g.text) || s.xstring(&format!("\n{}", g.text)),
            w if XSTRING.contains(&w) => s.xstring(&g.text),
            _ => s.plain(&g.text),
        };
        ctx.check(ok, &format!("lost {}", g.what), || {
            format!("{} {:?} is nowhere in the file", g.what, g.text)
        });
    }
    ctx.nontrivial = texts.len() > 5;
}
