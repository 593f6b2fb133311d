mod book;
mod canon;
mod edge;
mod gen;
mod api;
mod heap;
mod hostile;
mod kit;
mod mon;
mod pkg;
mod rng;
mod run;
mod schema;
mod sheetops;
mod xml;
mod zipr;

use run::Prop;

macro_rules! props {
    ($($id:literal $m:ident $q:literal $t:literal $th:literal $rule:literal;)*) => {
        vec![$(Prop {
            id: $id,
            quick: $q,
            thorough: $t,
            f: mon::$m::case,
            rule: $rule,
            level: "exploration",
            threads: $th,
        }),*]
    };
}

/// id, module, quick cases, thorough cases, threads, what counts as non-trivial.
fn props() -> Vec<Prop> {
    props! {
        "C01" c01 6000 100000 8 "random histories of writes, overwrites, clears and format updates; non-trivial when at least one operation overwrote or removed existing content";
        "C02" c02 4000 60000 8 "random workbooks over all features with hostile text in every free-text option; non-trivial when more than five texts were supplied";
        "C03" c03 4000 60000 8 "random workbooks over all features, some with a VBA project, saved once or twice; non-trivial when the package has more than 15 parts";
        "C04" c04 4000 60000 8 "random workbooks over all features, saved once or twice; non-trivial when more than 400 elements were checked";
        "C05" c05 4000 60000 8 "random sets of formats on sheets of mixed modes; non-trivial when more than two formats are in use";
        "C06" c06 8000 100000 8 "random interleavings of row/column format and option calls with writes; non-trivial when a value was written where a row and a column format cross";
        "C07" c07 2000 30000 8 "random row-ordered programs over all features on sheets of mixed modes, with writes to passed rows injected; non-trivial when at least one sheet is a constant- or low-memory one";
        "C08" c08 2000 30000 8 "random workbooks over all features, calls interleaved across sheets with saves to buffers, writers and files in between; non-trivial when at least one save succeeded between the calls";
        "C09" c09 500 4000 1 "random workbooks saved under disturbed schedules; non-trivial when several threads ran interleaved";
        "C10" c10 3000 100000 8 "random calls of every public method with hostile arguments; non-trivial when more than 20 calls were made";
        "C11" c11 1500 40000 8 "random programs with hostile calls mixed in, then again without the calls that were rejected; non-trivial when at least one call was rejected and more than two accepted";
        "C12" c12 2000 40000 8 "calls with arguments on both sides of each limit, every worksheet method that takes positions and every documented limit; every case is non-trivial";
        "C13" c13 1500 30000 8 "the first 100 cases walk every day of 1900-9999 through every constructor, the rest are random instants and invalid inputs; every case is non-trivial";
        "C14" c14 3000 60000 8 "random merge and table requests around earlier ones with overwrites and saves between; non-trivial when one was refused and a sheet has more than one merge";
        "C15" c15 4000 80000 8 "random links of every kind with hostile characters over several sheets and modes, written over and saved in between; non-trivial when more than four links were written";
        "C16" c16 4000 80000 8 "random interleavings of every row and column setting with writes, at the origin and at the limits; non-trivial when more than two rows and two columns were set";
        "C17" c17 5000 100000 8 "random data and conditions over several columns and saves; non-trivial when more than five filtered rows were decided";
        "C18" c18 6000 120000 8 "random sheet names, orders, print settings, filters and names, good and bad; non-trivial when the file has more than two names";
        "C19" c19 3000 60000 8 "random tables over several sheets of all storage modes and saves; non-trivial when more than one table was saved";
        "C20" c20 6000 60000 8 "random conditional formats of every kind on shared, distinct and multiple ranges; non-trivial when a sheet has more than one";
        "C21" c21 6000 80000 8 "random data validations of every kind and text length on shared, distinct and multiple ranges; non-trivial when a sheet has more than one";
        "C22" c22 4000 60000 8 "random images of all formats inserted, embedded and used as backgrounds and headers over several sheets with other objects; non-trivial when more than one is used";
        "C23" c23 3000 60000 8 "random sheets of values with charts of every type whose series, names, titles and error bars refer to them, over several sheets and saves with changes in between; non-trivial when more than one chart is saved";
        "C24" c24 3000 100000 8 "random sparklines and groups over row and column slices of any sheet with random options, data bars beside them, in every sheet mode, over several saves; non-trivial when more than one sparkline is saved";
        "C25" c25 1500 20000 8 "random notes with authors, prefixes, sizes, colors, fonts and visibility on several sheets of all modes, with buttons and header images, changed between saves, up to 2050 per sheet; non-trivial when more than one note is saved";
        "C26" c26 4000 500000 8 "random structs and derived structs serialized with random headers, fields, formats, tables and containers; non-trivial when rows are written";
        "C27" c27 1500 40000 8 "random workbooks over all features saved to destinations that fail at any write, seek or flush, run full, write short or can't be opened, every operation in turn for small ones, with calls and saves afterwards; non-trivial when a save takes more than 20 operations";
        "C28" c28 4000 120000 8 "random document and custom properties of all types and dates of all kinds, over random sheets, chart sheets, visibility, defined names and print ranges, changed between saves; non-trivial when more than one property is set";
        "C29" c29 3000 90000 8 "random sequences of view, page, print, header, break, protection and ignored-error requests (with refused and out-of-range ones) on worksheets of every mode and chartsheets, saved up to three times; non-trivial when more than three kinds of settings were set";
        "C30" c30 4000 100000 8 "random rich strings of up to six fonts with markup, white space, escapes and lengths about the limit, mixed with plain strings that look like markup or repeat a rich text, in worksheets of every mode; non-trivial when more than one rich string is saved";
        "C31" c31 4000 120000 8 "random nested formulas of old, new, dynamic and user-defined functions, string literals, quoted sheets, bracketed references, array constants and pre-escaped calls through every formula entry point, in worksheets of every mode; non-trivial when more than two formulas are saved";
        "C32" c32 6000 400000 8 "random programs of adding, pushing, naming, moving, hiding, activating and looking up sheets; non-trivial when several sheets have such settings or are saved repeatedly";
        "C33" c33 8000 200000 8 "random cells, ranges and sheet names around the quoting rules plus one exhaustive pass over all columns; every case is non-trivial";
        "C34" c34 6000 100000 8 "random string histories over several sheets; non-trivial when a string was overwritten and there is more than one sheet";
        "C35" c35 6000 300000 8 "random cells of all types, column settings, filters and tables with autofits in between; non-trivial when several columns were fitted";
        "C36" c36 400 4000 8 "random row templates written thousands of times to constant and low memory sheets, in turns or one after another, saved between or not; every case is non-trivial";
        "C37" c37 2500 80000 8 "random projects, signatures, code names, sheets added and reordered, and buttons, changed between saves; non-trivial when a project or a button is saved";
        "C38" c38 4000 60000 8 "random column widths, row heights, hidden rows and columns with images, charts, shapes, buttons and notes of random size, offset and movement, sizes changed before and after; non-trivial when more than one object is saved";
        "C39" c39 3000 60000 8 "random charts with random settings of chart, axes, series, labels, markers, trendlines, error bars, legends, and text boxes; non-trivial when more than 30 settings are asked for";
    }
}

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    run::install_hook();
    let ps = props();
    let find = |id: &str| {
        ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(String::as_str) {
        Some("run") => run::run(find(&a[2])),
        Some("replay") => {
            let th = a.get(5).map(String::as_str) == Some("thorough");
            run::replay(
                find(&a[2]),
                a[3].parse().unwrap(),
                a[4].parse().unwrap(),
                th,
            )
        }
        Some("dump") => {
            // Random workbooks written to a directory, for exploring the format.
            for i in 0..a[3].parse::<u64>().unwrap_or(10) {
                let mut r = rng::Rng::new("dump", 1, i);
                let o = kit::Opt {
                    scratch: Some(a[2].clone().into()),
                    ..kit::Opt::default()
                };
                let (mut wb, _, _) = kit::prog(&mut r, &o).build();
                if let Ok(b) = wb.save_to_buffer() {
                    let _ = std::fs::write(format!("{}/{i}.xlsx", a[2]), b);
                }
            }
            0
        }
        Some("isolated") => mon::c36::isolated(&a[2]),
        Some("concurrent") => mon::c09::concurrent(&a[2..]),
        Some("list") => {
            for p in &ps {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: xlmon run ID | replay ID SEED INDEX [quick|thorough] | list");
            2
        }
    };
    std::process::exit(code);
}
