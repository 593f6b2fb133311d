//! C34 the shared-string table is exact.

use crate::book::V;
use crate::gen;
use crate::run::Ctx;
use crate::sheetops::{save_open, Mode, Sheets};
use std::collections::{BTreeMap, BTreeSet};

pub fn case(ctx: &mut Ctx) {
    let modes: Vec<Mode> = (0..1 + ctx.rng.usize(4))
        .map(|_| Mode::any(&mut ctx.rng))
        .collect();
    ctx.log(format!("modes {modes:?}"));
    let mut pool: Vec<String> = (0..1 + ctx.rng.usize(12))
        .map(|_| gen::text(&mut ctx.rng, 12, gen::ALL))
        .filter(|s| !s.is_empty())
        .collect();
    pool.push("a".into());
    pool.push(" a".into());
    pool.push("<r><t>a</t></r>".into());
    pool.push("A".into());
    let mut sh = Sheets::new(&modes);
    let mut want: Vec<BTreeMap<(u32, u16), String>> =
        modes.iter().map(|_| BTreeMap::new()).collect();
    let mut row: Vec<u32> = vec![0; modes.len()];
    let mut over = 0;
    for _ in 0..ctx.rng.usize(60) {
        let i = ctx.rng.usize(modes.len());
        let r = if modes[i].constant() {
            row[i]
        } else {
            ctx.rng.u32(0, 5)
        };
        let c = ctx.rng.u16(0, 4);
        if ctx.rng.one_in(4) {
            row[i] += 1;
        }
        let k = ctx.rng.below(12);
        let ws = sh.ws(i);
        let s = ctx.rng.pick(&pool).clone();
        ctx.log(format!("S{i} R{r}C{c} {k} {s:?}"));
        if want[i].contains_key(&(r, c)) {
            over += 1;
        }
        let res = match k {
            0 => {
                want[i].remove(&(r, c));
                ws.write_number(r, c, 1).map(|_| ())
            }
            1 if !modes[i].constant() => {
                want[i].remove(&(r, c));
                ws.clear_cell(r, c);
                Ok(())
            }
            2 => {
                let b = rust_xlsxwriter::Format::new().set_bold();
                let d = rust_xlsxwriter::Format::default();
                want[i].insert((r, c), format!("x{s}"));
                ws.write_rich_string(r, c, &[(&d, "x"), (&b, s.as_str())])
                    .map(|_| ())
            }
            3 => {
                want[i].insert((r, c), "inline".into());
                ws.write_formula(
                    r,
                    c,
                    rust_xlsxwriter::Formula::new("=1").set_result("inline"),
                )
                .map(|_| ())
            }
            _ => {
                want[i].insert((r, c), s.clone());
                ws.write_string(r, c, s).map(|_| ())
            }
        };
        if let Err(e) = res {
            ctx.fail("rejected", e.to_string());
        }
    }
    let saves = if ctx.rng.one_in(3) && !modes.iter().any(|m| m.constant()) {
        2
    } else {
        1
    };
    for n in 0..saves {
        let Some(b) = save_open(ctx, &mut sh) else {
            return;
        };
        verify(ctx, &b, &want, n, over > 0 && modes.iter().any(|m| m.low()));
    }
    ctx.nontrivial = over > 0 && modes.len() > 1;
}

fn verify(
    ctx: &mut Ctx,
    b: &crate::book::Book,
    want: &[BTreeMap<(u32, u16), String>],
    n: usize,
    low: bool,
) {
    let mut refs = 0i64;
    let mut used = BTreeSet::new();
    for (i, w) in want.iter().enumerate() {
        let Some(s) = b.sheet(&format!("S{i}")) else {
            ctx.fail("sheet-missing", format!("S{i}"));
            continue;
        };
        for ((r, c), text) in w {
            let got = match s.cells.get(&(*r, *c)).map(|x| &x.v) {
                Some(V::Str(t)) => Some(t.clone()),
                Some(V::Rich(rs)) => Some(rs.iter().map(|x| x.text.as_str()).collect()),
                _ => None,
            };
            ctx.check(got.as_ref() == Some(text), "text", || {
                format!(
                    "S{i}!{}: got {got:?}, expected {text:?}",
                    crate::book::a1(*r, *c)
                )
            });
        }
        for c in s.cells.values() {
            if c.t == "s" {
                refs += 1;
                if let Some(k) = c.raw_v.as_ref().and_then(|v| v.parse::<usize>().ok()) {
                    used.insert(k);
                    ctx.check(k < b.sst.len(), "index-range", || {
                        format!("index {k} of {}", b.sst.len())
                    });
                } else {
                    ctx.fail("index", format!("bad shared string index {:?}", c.raw_v));
                }
            }
        }
    }
    match &b.sst_xml {
        None => {
            ctx.check(refs == 0, "sst-missing", || {
                format!("{refs} references but no table")
            });
        }
        Some(x) => {
            let count = x.int("count");
            let unique = x.int("uniqueCount");
            ctx.check(unique == Some(b.sst.len() as i64), "unique-count", || {
                format!("uniqueCount {unique:?}, {} entries", b.sst.len())
            });
            ctx.check(
                count == Some(refs) || (low && count > Some(refs)),
                "count",
                || format!("count {count:?}, {refs} references (save {n})"),
            );
            // A low-memory sheet hands out entries as cells are written, so a
            // value it overwrote may stay in the table.
            let mut seen: Vec<String> = b.sst.iter().map(|v| format!("{v:?}")).collect();
            seen.sort();
            let l = seen.len();
            seen.dedup();
            ctx.check(seen.len() == l, "duplicate-entry", || {
                "the table has equal entries".into()
            });
            ctx.check(used.len() == l || low, "unused-entry", || {
                format!("{} of {l} entries referenced", used.len())
            });
        }
    }
    ctx.add("references", refs as u64);
    ctx.add("entries", b.sst.len() as u64);
}
