//! Calls with arguments at, within and beyond Excel's limits, with what the
//! documentation says should happen.

use crate::book::{parse_a1, Book, Sheet, V};
use crate::kit::{self, Res, WsFn};
use crate::rng::Rng;
use rust_xlsxwriter::*;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Ok,
    /// Any of these error variants.
    Err(Vec<&'static str>),
}

pub type See = Arc<dyn Fn(&Book, &Sheet) -> Result<(), String> + Send + Sync>;

#[derive(Clone)]
pub struct Edge {
    pub desc: String,
    pub what: String,
    pub want: Want,
    pub f: WsFn,
    pub row: u32,
    pub see: Option<See>,
    /// The outcome depends on the earlier calls made by the edge itself.
    pub alone: bool,
}

pub const ROWS: u32 = 1_048_576;
pub const COLS: u16 = 16_384;

pub fn variant(e: &XlsxError) -> String {
    let s = format!("{e:?}");
    s.split(['(', ' ', '{']).next().unwrap_or("").to_string()
}

pub fn verdict(want: &Want, got: &Res) -> Result<(), String> {
    match (want, got) {
        (Want::Ok, Ok(())) => Ok(()),
        (Want::Ok, Err(e)) => Err(format!("rejected with {} ({e})", variant(e))),
        (Want::Err(v), Ok(())) => Err(format!("accepted, expected {}", v.join(" or "))),
        (Want::Err(v), Err(e)) => {
            if v.iter().any(|x| *x == variant(e)) {
                Ok(())
            } else {
                Err(format!(
                    "rejected with {}, expected {}",
                    variant(e),
                    v.join(" or ")
                ))
            }
        }
    }
}

fn edge(what: &str, args: String, want: Want, row: u32, f: WsFn, see: Option<See>) -> Edge {
    Edge {
        desc: format!("{what}({args})"),
        what: what.to_string(),
        want,
        f,
        row,
        see,
        alone: false,
    }
}

/// Text of exactly `n` characters.
pub fn chars(r: &mut Rng, n: usize) -> String {
    let pool = match r.below(5) {
        0 => "a",
        1 => "é",
        2 => "漢",
        3 => "😀",
        _ => "aé漢😀 z",
    };
    let p: Vec<char> = pool.chars().collect();
    // Don't start or end with a space.
    (0..n)
        .map(|i| {
            if i == 0 || i + 1 == n {
                p[0]
            } else {
                p[(i * 7) % p.len()]
            }
        })
        .collect()
}

/// Lengths around a limit.
fn around(r: &mut Rng, limit: usize) -> usize {
    match r.below(8) {
        0 => limit - 1,
        1 | 2 | 3 => limit,
        4 | 5 => limit + 1,
        6 => limit + 2,
        _ => limit + r.usize(limit) + 1,
    }
}

fn a_row(r: &mut Rng) -> u32 {
    *r.pick(&[
        0,
        4,
        ROWS - 2,
        ROWS - 1,
        ROWS - 1,
        ROWS,
        ROWS,
        ROWS + 1,
        2_000_000,
        u32::MAX,
    ])
}
fn a_col(r: &mut Rng) -> u16 {
    *r.pick(&[
        0,
        3,
        COLS - 2,
        COLS - 1,
        COLS - 1,
        COLS,
        COLS,
        COLS + 1,
        20_000,
        u16::MAX,
    ])
}
fn in_row(r: &mut Rng) -> u32 {
    *r.pick(&[0, 1, 4, 100, ROWS - 2, ROWS - 1])
}
fn in_col(r: &mut Rng) -> u16 {
    *r.pick(&[0, 1, 3, 200, COLS - 2, COLS - 1])
}

fn limit_want(ok: bool) -> Want {
    if ok {
        Want::Ok
    } else {
        Want::Err(vec!["RowColumnLimitError"])
    }
}

type CellFn = fn(&mut Worksheet, u32, u16) -> Res;
type RangeFn = fn(&mut Worksheet, u32, u16, u32, u16) -> Res;

macro_rules! cell_ops {
    ($($name:literal $mark:literal |$w:ident, $r:ident, $c:ident| $e:expr;)*) => {
        &[$(($name, $mark, |$w: &mut Worksheet, $r: u32, $c: u16| -> Res { $e.map(|_| ()) })),*]
    };
}

fn bold() -> Format {
    Format::new().set_bold()
}
fn fixed_image() -> Image {
    let b = kit::png(7, 5, None, b"edge");
    Image::new_from_buffer(&b).expect("test image")
}
fn one_chart() -> Chart {
    let mut c = Chart::new(ChartType::Column);
    c.add_series().set_values(("Sheet1", 0, 0, 3, 0));
    c
}

/// `c`: leaves a cell, `d`: leaves a drawing, `n`: a note.
static CELL_OPS: &[(&str, char, CellFn)] = cell_ops! {
    "write f64" 'c' |w, r, c| w.write(r, c, 1.25);
    "write i32" 'c' |w, r, c| w.write(r, c, -7);
    "write u8" 'c' |w, r, c| w.write(r, c, 7u8);
    "write str" 'c' |w, r, c| w.write(r, c, "abc");
    "write String" 'c' |w, r, c| w.write(r, c, String::from("abd"));
    "write bool" 'c' |w, r, c| w.write(r, c, true);
    "write Option" 'c' |w, r, c| w.write(r, c, Some(3.5));
    "write Formula" 'c' |w, r, c| w.write(r, c, Formula::new("=1+1"));
    "write Url" 'c' |w, r, c| w.write(r, c, Url::new("https://a.b/"));
    "write ExcelDateTime" 'c' |w, r, c| w.write(r, c, ExcelDateTime::from_serial_datetime(100.5)?);
    "write_with_format" 'c' |w, r, c| w.write_with_format(r, c, 2, &bold());
    "write_with_format str" 'c' |w, r, c| w.write_with_format(r, c, "x", &bold());
    "write_row" 'c' |w, r, c| w.write_row(r, c, [1.0]);
    "write_row_with_format" 'c' |w, r, c| w.write_row_with_format(r, c, [1.0], &bold());
    "write_column" 'c' |w, r, c| w.write_column(r, c, ["q"]);
    "write_column_with_format" 'c' |w, r, c| w.write_column_with_format(r, c, ["q"], &bold());
    "write_row_matrix" 'c' |w, r, c| w.write_row_matrix(r, c, [[1]]);
    "write_column_matrix" 'c' |w, r, c| w.write_column_matrix(r, c, [[1]]);
    "write_number" 'c' |w, r, c| w.write_number(r, c, 3.0);
    "write_number nan" 'c' |w, r, c| w.write_number(r, c, f64::NAN);
    "write_number_with_format" 'c' |w, r, c| w.write_number_with_format(r, c, 3.0, &bold());
    "write_string" 'c' |w, r, c| w.write_string(r, c, "str");
    "write_string empty" '_' |w, r, c| w.write_string_with_format(r, c, "", &bold());
    "write_string_with_format" 'c' |w, r, c| w.write_string_with_format(r, c, "str", &bold());
    "write_rich_string" 'c' |w, r, c| w.write_rich_string(r, c, &[(&Format::default(), "a"), (&bold(), "b")]);
    "write_rich_string_with_format" 'c' |w, r, c| w.write_rich_string_with_format(r, c, &[(&Format::default(), "a"), (&bold(), "b")], &bold());
    "write_formula" 'c' |w, r, c| w.write_formula(r, c, "=A1+1");
    "write_formula_with_format" 'c' |w, r, c| w.write_formula_with_format(r, c, "=A1+1", &bold());
    "write_array_formula" 'c' |w, r, c| w.write_array_formula(r, c, r, c, "=SUM(A1:A2*2)");
    "write_array_formula_with_format" 'c' |w, r, c| w.write_array_formula_with_format(r, c, r, c, "=SUM(A1:A2*2)", &bold());
    "write_dynamic_array_formula" 'c' |w, r, c| w.write_dynamic_array_formula(r, c, r, c, "=SORT(A1:A2)");
    "write_dynamic_array_formula_with_format" 'c' |w, r, c| w.write_dynamic_array_formula_with_format(r, c, r, c, "=SORT(A1:A2)", &bold());
    "write_dynamic_formula" 'c' |w, r, c| w.write_dynamic_formula(r, c, "=SORT(A1:A2)");
    "write_dynamic_formula_with_format" 'c' |w, r, c| w.write_dynamic_formula_with_format(r, c, "=SORT(A1:A2)", &bold());
    "write_blank" 'c' |w, r, c| w.write_blank(r, c, &bold());
    "write_url" 'c' |w, r, c| w.write_url(r, c, "https://www.rust-lang.org");
    "write_url_with_text" 'c' |w, r, c| w.write_url_with_text(r, c, "https://www.rust-lang.org", "Rust");
    "write_url_with_format" 'c' |w, r, c| w.write_url_with_format(r, c, "internal:Sheet1!A1", &bold());
    "write_url_with_options" 'c' |w, r, c| w.write_url_with_options(r, c, "mailto:a@b.c", "mail", "tip", Some(&bold()));
    "write_datetime_with_format" 'c' |w, r, c| w.write_datetime_with_format(r, c, ExcelDateTime::from_serial_datetime(10.0)?, &bold());
    "write_datetime" 'c' |w, r, c| w.write_datetime(r, c, ExcelDateTime::from_serial_datetime(10.0)?);
    "write_date_with_format" 'c' |w, r, c| w.write_date_with_format(r, c, ExcelDateTime::from_serial_datetime(10.0)?, &bold());
    "write_time_with_format" 'c' |w, r, c| w.write_time_with_format(r, c, ExcelDateTime::from_serial_datetime(10.0)?, &bold());
    "write_boolean" 'c' |w, r, c| w.write_boolean(r, c, false);
    "write_boolean_with_format" 'c' |w, r, c| w.write_boolean_with_format(r, c, false, &bold());
    "insert_image" 'd' |w, r, c| w.insert_image(r, c, &fixed_image());
    "insert_image_with_offset" 'd' |w, r, c| w.insert_image_with_offset(r, c, &fixed_image(), 3, 4);
    "insert_image_fit_to_cell" 'd' |w, r, c| w.insert_image_fit_to_cell(r, c, &fixed_image(), true);
    "insert_chart" 'd' |w, r, c| w.insert_chart(r, c, &one_chart());
    "insert_chart_with_offset" 'd' |w, r, c| w.insert_chart_with_offset(r, c, &one_chart(), 1, 2);
    "insert_note" 'n' |w, r, c| w.insert_note(r, c, &Note::new("note"));
    "insert_shape" 'd' |w, r, c| w.insert_shape(r, c, &Shape::textbox().set_text("t"));
    "insert_shape_with_offset" 'd' |w, r, c| w.insert_shape_with_offset(r, c, &Shape::textbox(), 5, 6);
    "insert_button" '_' |w, r, c| w.insert_button(r, c, &Button::new());
    "insert_button_with_offset" '_' |w, r, c| w.insert_button_with_offset(r, c, &Button::new(), 1, 1);
    "insert_checkbox" 'c' |w, r, c| w.insert_checkbox(r, c, true);
    "insert_checkbox_with_format" 'c' |w, r, c| w.insert_checkbox_with_format(r, c, true, &bold());
    "add_sparkline" '_' |w, r, c| w.add_sparkline(r, c, &Sparkline::new().set_range(("Sheet1", 0, 0, 0, 4)));
    "set_top_left_cell" '_' |w, r, c| w.set_top_left_cell(r, c);
    "set_freeze_panes" '_' |w, r, c| w.set_freeze_panes(r, c);
    "set_freeze_panes_top_cell" '_' |w, r, c| w.set_freeze_panes_top_cell(r, c);
    "set_cell_format" 'c' |w, r, c| w.set_cell_format(r, c, &bold());
    "ignore_error" '_' |w, r, c| w.ignore_error(r, c, IgnoreError::NumberStoredAsText);
};

static EMBED_OPS: &[(&str, char, CellFn)] = cell_ops! {
    "embed_image" 'c' |w, r, c| w.embed_image(r, c, &fixed_image());
    "embed_image_with_format" 'c' |w, r, c| w.embed_image_with_format(r, c, &fixed_image(), &bold());
};

static ROW_OPS: &[(&str, char, CellFn)] = cell_ops! {
    "set_row_height" 'r' |w, r, _c| w.set_row_height(r, 22.5);
    "set_row_height_pixels" 'r' |w, r, _c| w.set_row_height_pixels(r, 30);
    "set_row_format" 'r' |w, r, _c| w.set_row_format(r, &bold());
    "set_row_hidden" 'r' |w, r, _c| w.set_row_hidden(r);
    "set_row_unhidden" '_' |w, r, _c| w.set_row_unhidden(r);
};

static COL_OPS: &[(&str, char, CellFn)] = cell_ops! {
    "set_column_width" 'k' |w, _r, c| w.set_column_width(c, 22.5);
    "set_column_width_pixels" 'k' |w, _r, c| w.set_column_width_pixels(c, 100);
    "set_column_autofit_width" 'k' |w, _r, c| w.set_column_autofit_width(c, 100);
    "set_column_format" 'k' |w, _r, c| w.set_column_format(c, &bold());
    "set_column_hidden" 'k' |w, _r, c| w.set_column_hidden(c);
};

macro_rules! range_ops {
    ($($name:literal |$w:ident, $r:ident, $c:ident, $r2:ident, $c2:ident| $e:expr;)*) => {
        &[$(($name, |$w: &mut Worksheet, $r: u32, $c: u16, $r2: u32, $c2: u16| -> Res { $e.map(|_| ()) })),*]
    };
}

static RANGE_OPS: &[(&str, RangeFn)] = range_ops! {
    "write_array_formula" |w, r, c, r2, c2| w.write_array_formula(r, c, r2, c2, "=A1:B2*2");
    "write_array_formula_with_format" |w, r, c, r2, c2| w.write_array_formula_with_format(r, c, r2, c2, "=A1:B2*2", &bold());
    "write_dynamic_array_formula" |w, r, c, r2, c2| w.write_dynamic_array_formula(r, c, r2, c2, "=SORT(A1:B2)");
    "write_dynamic_array_formula_with_format" |w, r, c, r2, c2| w.write_dynamic_array_formula_with_format(r, c, r2, c2, "=SORT(A1:B2)", &bold());
    "merge_range" |w, r, c, r2, c2| w.merge_range(r, c, r2, c2, "merged", &bold());
    "autofilter" |w, r, c, r2, c2| w.autofilter(r, c, r2, c2);
    "add_table" |w, r, c, r2, c2| w.add_table(r, c, r2, c2, &Table::new());
    "add_table no header" |w, r, c, r2, c2| w.add_table(r, c, r2, c2, &Table::new().set_header_row(false));
    "add_conditional_format" |w, r, c, r2, c2| w.add_conditional_format(r, c, r2, c2, &ConditionalFormatDuplicate::new().set_format(bold()));
    "add_data_validation" |w, r, c, r2, c2| w.add_data_validation(r, c, r2, c2, &DataValidation::new().allow_whole_number(DataValidationRule::LessThan(3)));
    "unprotect_range" |w, r, c, r2, c2| w.unprotect_range(r, c, r2, c2);
    "unprotect_range_with_options" |w, r, c, r2, c2| w.unprotect_range_with_options(r, c, r2, c2, "mine", "pw");
    "set_print_area" |w, r, c, r2, c2| w.set_print_area(r, c, r2, c2);
    "set_range_format" |w, r, c, r2, c2| w.set_range_format(r, c, r2, c2, &bold());
    "set_range_format_with_border" |w, r, c, r2, c2| w.set_range_format_with_border(r, c, r2, c2, &bold(), &Format::new().set_border(FormatBorder::Thin));
    "ignore_error_range" |w, r, c, r2, c2| w.ignore_error_range(r, c, r2, c2, IgnoreError::FormulaDiffers);
    "set_selection" |w, r, c, r2, c2| w.set_selection(r, c, r2, c2);
};

static ROW_RANGE_OPS: &[(&str, RangeFn)] = range_ops! {
    "group_rows" |w, r, _c, r2, _c2| w.group_rows(r, r2);
    "group_rows_collapsed" |w, r, _c, r2, _c2| w.group_rows_collapsed(r, r2);
    "set_repeat_rows" |w, r, _c, r2, _c2| w.set_repeat_rows(r, r2);
};

static COL_RANGE_OPS: &[(&str, RangeFn)] = range_ops! {
    "set_column_range_width" |w, _r, c, _r2, c2| w.set_column_range_width(c, c2, 33.0);
    "set_column_range_width_pixels" |w, _r, c, _r2, c2| w.set_column_range_width_pixels(c, c2, 99);
    "set_column_range_format" |w, _r, c, _r2, c2| w.set_column_range_format(c, c2, &bold());
    "set_column_range_hidden" |w, _r, c, _r2, c2| w.set_column_range_hidden(c, c2);
    "group_columns" |w, _r, c, _r2, c2| w.group_columns(c, c2);
    "group_columns_collapsed" |w, _r, c, _r2, c2| w.group_columns_collapsed(c, c2);
    "set_repeat_columns" |w, _r, c, _r2, c2| w.set_repeat_columns(c, c2);
};

fn see_mark(mark: char, r: u32, c: u16) -> Option<See> {
    match mark {
        'c' => Some(Arc::new(move |_, s| {
            if s.cells.contains_key(&(r, c)) {
                Ok(())
            } else {
                Err(format!("no cell at ({r}, {c})"))
            }
        })),
        'r' => Some(Arc::new(move |_, s| {
            if s.rows.contains_key(&r) {
                Ok(())
            } else {
                Err(format!("no row {r}"))
            }
        })),
        'k' => Some(Arc::new(move |_, s| {
            if s.col(c).is_some() {
                Ok(())
            } else {
                Err(format!("no column {c}"))
            }
        })),
        _ => None,
    }
}

/// Positions on both sides of the edge of the sheet.
pub fn position(r: &mut Rng, embed: bool) -> Edge {
    let n = CELL_OPS.len() as u64;
    let k = r.below(n + 24);
    if k < n {
        let op = &CELL_OPS[k as usize];
        return cell_edge(r, op);
    }
    match k - n {
        0 => {
            let op = if embed {
                r.pick(EMBED_OPS)
            } else {
                r.pick(CELL_OPS)
            };
            cell_edge(r, op)
        }
        1..=3 => {
            let (name, mark, f) = *r.pick(ROW_OPS);
            let row = a_row(r);
            let ok = row < ROWS;
            edge(
                name,
                format!("{row}"),
                limit_want(ok),
                row,
                Arc::new(move |w| f(w, row, 0)),
                see_mark(mark, row, 0),
            )
        }
        4..=6 => {
            let (name, mark, f) = *r.pick(COL_OPS);
            let col = a_col(r);
            edge(
                name,
                format!("{col}"),
                limit_want(col < COLS),
                0,
                Arc::new(move |w| f(w, 0, col)),
                see_mark(mark, 0, col),
            )
        }
        7..=9 => {
            let (name, f) = *r.pick(ROW_RANGE_OPS);
            let (r1, r2) = row_pair(r);
            let mut errs = vec![];
            // The row after a collapsed group shows the symbol.
            let last = if name == "group_rows_collapsed" {
                ROWS - 1
            } else {
                ROWS
            };
            if r1 >= ROWS || r2 >= last {
                errs.push("RowColumnLimitError");
            }
            if r1 > r2 {
                errs.push("RowColumnOrderError");
            }
            range_edge(
                name,
                format!("{r1}, {r2}"),
                errs,
                r1.min(r2),
                Arc::new(move |w| f(w, r1, 0, r2, 0)),
            )
        }
        10..=13 => {
            let (name, f) = *r.pick(COL_RANGE_OPS);
            let (c1, c2) = col_pair(r);
            let mut errs = vec![];
            let last = if name == "group_columns_collapsed" {
                COLS - 1
            } else {
                COLS
            };
            if c1 >= COLS || c2 >= last {
                errs.push("RowColumnLimitError");
            }
            if c1 > c2 {
                errs.push("RowColumnOrderError");
            }
            range_edge(
                name,
                format!("{c1}, {c2}"),
                errs,
                0,
                Arc::new(move |w| f(w, 0, c1, 0, c2)),
            )
        }
        _ => {
            let (name, f) = *r.pick(RANGE_OPS);
            let (r1, r2) = row_pair(r);
            let (c1, c2) = col_pair(r);
            let mut errs = vec![];
            if r1.max(r2) >= ROWS || c1.max(c2) >= COLS {
                errs.push("RowColumnLimitError");
            }
            if (r1 > r2 || c1 > c2) && name != "set_selection" {
                errs.push("RowColumnOrderError");
            }
            if name == "merge_range" && r1 == r2 && c1 == c2 {
                errs.push("MergeRangeSingleCell");
            }
            if name == "add_table" && r1 == r2 {
                errs.push("TableError");
            }
            range_edge(
                name,
                format!("{r1}, {c1}, {r2}, {c2}"),
                errs,
                r1.min(r2),
                Arc::new(move |w| f(w, r1, c1, r2, c2)),
            )
        }
    }
}

fn range_edge(name: &str, args: String, errs: Vec<&'static str>, row: u32, f: WsFn) -> Edge {
    let want = if errs.is_empty() {
        Want::Ok
    } else {
        Want::Err(errs)
    };
    edge(name, args, want, row, f, None)
}

fn cell_edge(r: &mut Rng, op: &(&'static str, char, CellFn)) -> Edge {
    let (name, mark, f) = *op;
    let (row, col) = match r.below(3) {
        0 => (a_row(r), in_col(r)),
        1 => (in_row(r), a_col(r)),
        _ => (a_row(r), a_col(r)),
    };
    edge(
        name,
        format!("{row}, {col}"),
        limit_want(row < ROWS && col < COLS),
        row,
        Arc::new(move |w| f(w, row, col)),
        see_mark(mark, row, col),
    )
}

/// Pairs that are close together, when valid, so as not to write many cells.
fn row_pair(r: &mut Rng) -> (u32, u32) {
    let base = *r.pick(&[0u32, 1, 5, 60, ROWS - 4]);
    let a = base + r.u32(0, 3);
    let b = match r.below(6) {
        0 => a,
        1 | 2 => base + r.u32(0, 3),
        3 => base + 3,
        4 => ROWS + r.u32(0, 2),
        _ => u32::MAX - r.u32(0, 2),
    };
    if r.one_in(8) {
        (b, a)
    } else {
        (a, b)
    }
}
fn col_pair(r: &mut Rng) -> (u16, u16) {
    let base = *r.pick(&[0u16, 1, 5, 60, COLS - 4]);
    let a = base + r.u16(0, 3);
    let b = match r.below(6) {
        0 => a,
        1 | 2 => base + r.u16(0, 3),
        3 => base + 3,
        4 => COLS + r.u16(0, 2),
        _ => u16::MAX - r.u16(0, 2),
    };
    if r.one_in(8) {
        (b, a)
    } else {
        (a, b)
    }
}

fn see_str(row: u32, col: u16, want: String) -> Option<See> {
    Some(Arc::new(move |_, s| {
        match s.cells.get(&(row, col)).map(|c| &c.v) {
            Some(V::Str(t)) if *t == want => Ok(()),
            Some(V::Rich(runs))
                if runs.iter().map(|x| x.text.as_str()).collect::<String>() == want =>
            {
                Ok(())
            }
            Some(V::Str(t)) => Err(format!(
                "text of {} characters saved, {} written",
                t.chars().count(),
                want.chars().count()
            )),
            o => Err(format!(
                "cell is {}",
                format!("{o:?}").chars().take(60).collect::<String>()
            )),
        }
    }))
}

/// Lengths on both sides of the limits for texts.
pub fn text(r: &mut Rng) -> Edge {
    const MAX: usize = 32767;
    let n = around(r, MAX);
    let ok = n <= MAX;
    let want = if ok {
        Want::Ok
    } else {
        Want::Err(vec!["MaxStringLengthExceeded"])
    };
    let (row, col) = (r.u32(0, 9), r.u16(0, 4));
    let t = chars(r, n);
    let see = see_str(row, col, t.clone());
    let args = format!(
        "{row}, {col}, {n} characters from '{}'",
        t.chars().next().unwrap_or(' ')
    );
    let k = r.below(14);
    let (what, f): (&str, WsFn) = match k {
        0 => (
            "write_string",
            Arc::new(move |w| w.write_string(row, col, &t).map(|_| ())),
        ),
        1 => (
            "write_string_with_format",
            Arc::new(move |w| {
                w.write_string_with_format(row, col, t.clone(), &bold())
                    .map(|_| ())
            }),
        ),
        2 => (
            "write str",
            Arc::new(move |w| w.write(row, col, t.as_str()).map(|_| ())),
        ),
        3 => (
            "write String",
            Arc::new(move |w| w.write(row, col, t.clone()).map(|_| ())),
        ),
        4 => (
            "write &String",
            Arc::new(move |w| w.write(row, col, &t).map(|_| ())),
        ),
        5 => (
            "write Cow",
            Arc::new(move |w| {
                w.write(row, col, std::borrow::Cow::Borrowed(t.as_str()))
                    .map(|_| ())
            }),
        ),
        6 => (
            "write_with_format str",
            Arc::new(move |w| {
                w.write_with_format(row, col, t.as_str(), &bold())
                    .map(|_| ())
            }),
        ),
        7 => (
            "write_row",
            Arc::new(move |w| w.write_row(row, col, [t.as_str()]).map(|_| ())),
        ),
        8 => (
            "write_column_with_format",
            Arc::new(move |w| {
                w.write_column_with_format(row, col, [t.clone()], &bold())
                    .map(|_| ())
            }),
        ),
        9 => (
            "write Option",
            Arc::new(move |w| w.write(row, col, Some(t.clone())).map(|_| ())),
        ),
        10 | 11 => {
            let at = 1 + r.usize(n - 2);
            let a: String = t.chars().take(at).collect();
            let b: String = t.chars().skip(at).collect();
            let fmt = k == 11;
            (
                "write_rich_string",
                Arc::new(move |w| {
                    let (d, bo) = (Format::default(), bold());
                    let segs = [(&d, a.as_str()), (&bo, b.as_str())];
                    if fmt {
                        w.write_rich_string_with_format(row, col, &segs, &bold())
                            .map(|_| ())
                    } else {
                        w.write_rich_string(row, col, &segs).map(|_| ())
                    }
                }),
            )
        }
        12 => (
            "merge_range",
            Arc::new(move |w| {
                w.merge_range(row, col, row + 1, col, &t, &bold())
                    .map(|_| ())
            }),
        ),
        _ => (
            "write_url_with_text",
            Arc::new(move |w| {
                w.write_url_with_text(row, col, "https://a.b", &t)
                    .map(|_| ())
            }),
        ),
    };
    edge(what, args, want, row, f, see)
}

/// Links and their tooltips.
pub fn link(r: &mut Rng) -> Edge {
    let (row, col) = (r.u32(0, 9), r.u16(0, 4));
    let tip_n = if r.one_in(3) {
        around(r, 255)
    } else {
        r.usize(20)
    };
    let tip = chars(r, tip_n);
    let (n, anchor_n) = match r.below(4) {
        0 => (around(r, 2080), 0),
        1 => (30 + r.usize(50), around(r, 2080)),
        _ => (20 + r.usize(60), r.usize(8)),
    };
    let kind = r.below(7);
    // Keep to characters that need no escaping.
    let body = |r: &mut Rng, n: usize| -> String {
        let p = *r.pick(&["a", "ab/c", "é", "漢字"]);
        p.chars().cycle().take(n).collect()
    };
    let mut over = false;
    let (url, known) = match kind {
        0 | 1 | 2 => {
            let p = *r.pick(&["https://", "http://", "ftp://", "ftps://"]);
            let b = body(r, n - p.len());
            let a = body(r, anchor_n);
            over = n > 2080 || anchor_n > 2080;
            (
                if anchor_n > 0 {
                    format!("{p}{b}#{a}")
                } else {
                    format!("{p}{b}")
                },
                true,
            )
        }
        3 => {
            over = n > 2080;
            let b = body(r, n - 7);
            (format!("mailto:{b}"), true)
        }
        4 => {
            over = n > 2080;
            let b = body(r, n.saturating_sub(3 + 9));
            (format!("internal:S!{b}"), n + 9 <= 2080 || n > 2080 + 20)
        }
        5 => {
            let b = body(r, n - 9);
            over = n > 2080 + 10;
            (format!("file:///x/{b}"), n < 2000 || over)
        }
        _ => (
            r.pick(&[
                "",
                "a",
                "www.a.b",
                "htp://a",
                "//a",
                "HTTPS:/a",
                "gopher://x",
                "internal",
                "mail:a",
            ])
            .to_string(),
            true,
        ),
    };
    let mut want = vec![];
    if kind > 5 {
        want.push("UnknownUrlType");
    } else {
        if over {
            want.push("MaxUrlLengthExceeded");
        }
        if tip_n > 255 {
            want.push("ParameterError");
        }
    }
    if !known {
        // How much of the prefix counts isn't documented.
        want.clear();
        want.push("?");
    }
    let want = if want.is_empty() {
        Want::Ok
    } else {
        Want::Err(want)
    };
    let args = format!(
        "{row}, {col}, '{}' of {} characters, tip of {tip_n}",
        url.chars().take(12).collect::<String>(),
        url.chars().count()
    );
    let t2 = tip.clone();
    let with_tip = tip_n > 0;
    let see: See = Arc::new(move |_, s: &Sheet| {
        let links = s.xml.find_all("hyperlink");
        let Some(h) = links
            .iter()
            .find(|h| h.attr("ref").and_then(parse_a1) == Some((row, col)))
        else {
            return Err("no hyperlink".to_string());
        };
        if with_tip && h.attr("tooltip") != Some(t2.as_str()) {
            return Err("tooltip differs".to_string());
        }
        Ok(())
    });
    let how = r.below(3);
    let f: WsFn = Arc::new(move |w| match how {
        0 => w
            .write_url_with_options(row, col, url.as_str(), "text", tip.as_str(), None)
            .map(|_| ()),
        1 => w
            .write_url(row, col, Url::new(&url).set_text("t").set_tip(tip.as_str()))
            .map(|_| ()),
        _ => w
            .write(row, col, Url::new(&url).set_text("t").set_tip(tip.as_str()))
            .map(|_| ()),
    });
    edge("write_url", args, want, row, f, Some(see))
}

/// The name of a worksheet.
pub fn sheet_name(r: &mut Rng) -> (String, Vec<&'static str>) {
    let mut want = vec![];
    let n = match r.below(4) {
        0 => around(r, 31),
        1 => 0,
        _ => 1 + r.usize(12),
    };
    let mut v: Vec<char> = chars(r, n).replace(' ', "x").chars().collect();
    if n > 31 {
        want.push("SheetnameLengthExceeded");
    }
    if n == 0 {
        want.push("SheetnameCannotBeBlank");
    } else {
        if r.one_in(3) {
            let i = r.usize(n);
            v[i] = *r.pick(&['*', '?', ':', '[', ']', '\\', '/']);
            want.push("SheetnameContainsInvalidCharacter");
        } else if r.one_in(3) {
            let i = *r.pick(&[0, n - 1, n / 2]);
            v[i] = '\'';
            if i == 0 || i == n - 1 {
                want.push("SheetnameStartsOrEndsWithApostrophe");
            }
        } else if r.one_in(4) {
            let i = r.usize(n);
            v[i] = *r.pick(&['"', '<', '&', '!', ';', '|', '#', '{', '\u{2018}', '／']);
        }
    }
    (v.into_iter().collect(), want)
}

pub fn vba_name(r: &mut Rng) -> (String, bool) {
    let n = match r.below(4) {
        0 => around(r, 31),
        1 => 0,
        _ => 1 + r.usize(12),
    };
    let mut v: Vec<char> = (0..n)
        .map(|i| ['a', 'Z', 'é', '9', '_'][(i * 3) % 5])
        .collect();
    let mut ok = n > 0 && n <= 31;
    if n > 0 && r.one_in(3) {
        let i = r.usize(n);
        v[i] = *r.pick(&[' ', '-', '!', '.', '$', '\'']);
        ok = false;
    } else if n > 0 && r.one_in(3) {
        v[0] = *r.pick(&['1', '_', '9']);
        ok = false;
    }
    (v.into_iter().collect(), ok)
}

fn param(ok: bool, e: &'static str) -> Want {
    if ok {
        Want::Ok
    } else {
        Want::Err(vec![e])
    }
}

/// Everything else that is checked.
pub fn other(r: &mut Rng, name: &str) -> Edge {
    let (row, col) = (r.u32(0, 30), r.u16(0, 8));
    match r.below(20) {
        0 => {
            let (v, ok) = vba_name(r);
            let args = format!("{v:?}");
            edge(
                "set_vba_name",
                args,
                param(ok, "VbaNameError"),
                0,
                Arc::new(move |w| w.set_vba_name(&v).map(|_| ())),
                None,
            )
        }
        1 => {
            let (v, mut want) = sheet_name(r);
            let args = format!("{v:?}");
            // Only the rejected ones, so as not to rename sheets.
            if want.is_empty() {
                want.push("?");
            }
            let what = if want[0] == "?" {
                "check_sheet_name"
            } else {
                "set_name"
            };
            let accept = want[0] == "?";
            edge(
                what,
                args,
                if accept { Want::Ok } else { Want::Err(want) },
                0,
                Arc::new(move |w| {
                    if accept {
                        utility::check_sheet_name(&v)
                    } else {
                        w.set_name(&v).map(|_| ())
                    }
                }),
                None,
            )
        }
        2 | 3 => {
            let limit = if r.bool() { 32 } else { 255 };
            let n = around(r, limit);
            let t = chars(r, n);
            let (title, error) = (limit == 32, r.bool());
            let what = match (title, error) {
                (true, true) => "set_error_title",
                (true, false) => "set_input_title",
                (false, true) => "set_error_message",
                (false, false) => "set_input_message",
            };
            let t2 = t.clone();
            let see: See = Arc::new(move |_, s: &Sheet| {
                let a = match (title, error) {
                    (true, true) => "errorTitle",
                    (true, false) => "promptTitle",
                    (false, true) => "error",
                    (false, false) => "prompt",
                };
                let all = s.xml.find_all("dataValidation");
                if all.iter().any(|d| d.attr(a) == Some(t2.as_str())) {
                    Ok(())
                } else {
                    Err(format!("no {a}"))
                }
            });
            edge(
                what,
                format!("{n} characters"),
                param(n <= limit, "DataValidationError"),
                0,
                Arc::new(move |w| {
                    let d =
                        DataValidation::new().allow_whole_number(DataValidationRule::LessThan(9));
                    let d = match (title, error) {
                        (true, true) => d.set_error_title(&t)?,
                        (true, false) => d.set_input_title(&t)?,
                        (false, true) => d.set_error_message(&t)?,
                        (false, false) => d.set_input_message(&t)?,
                    };
                    w.add_data_validation(row, col, row, col, &d).map(|_| ())
                }),
                Some(see),
            )
        }
        4 | 5 => {
            // A list of given total length, with the commas.
            let n = around(r, 255);
            let mut left = n;
            let mut v: Vec<String> = vec![];
            while left > 0 {
                let k = (1 + r.usize(60)).min(left);
                v.push(chars(r, k).replace(' ', "_"));
                left -= k;
                if left > 0 {
                    left -= 1;
                    if left == 0 {
                        v.push(String::new());
                    }
                }
            }
            let want = format!("\"{}\"", v.join(","));
            let see: See = Arc::new(move |_, s: &Sheet| {
                if s.xml.find_all("formula1").iter().any(|f| f.text() == want) {
                    Ok(())
                } else {
                    Err("list differs".to_string())
                }
            });
            edge(
                "allow_list_strings",
                format!("{} items, {n} characters", v.len()),
                param(n <= 255, "DataValidationError"),
                0,
                Arc::new(move |w| {
                    let d = DataValidation::new().allow_list_strings(&v)?;
                    w.add_data_validation(row, col, row, col, &d).map(|_| ())
                }),
                Some(see),
            )
        }
        6 => {
            let n = around(r, 32767 - 54);
            let t = chars(r, n);
            edge(
                "insert_note",
                format!("{n} characters"),
                param(n <= 32767 - 54, "MaxStringLengthExceeded"),
                row,
                Arc::new(move |w| w.insert_note(row, col, &Note::new(&t)).map(|_| ())),
                None,
            )
        }
        7 => {
            let n = match r.below(4) {
                0 => 1024 + r.usize(50),
                1 => 1023,
                _ => r.usize(40),
            };
            let base = r.u32(1, 100);
            let mut v: Vec<u32> = (0..n as u32).map(|i| base + i * 3).collect();
            let vertical = r.bool();
            let limit = if vertical { u32::from(COLS) } else { ROWS };
            let mut want = vec![];
            if n > 1023 {
                want.push("ParameterError");
            }
            if !v.is_empty() && r.one_in(4) {
                let x = *r.pick(&[limit, limit + 1, u32::MAX]);
                let i = r.usize(v.len());
                v[i] = x;
                want.push("RowColumnLimitError");
            } else if !v.is_empty() && n < 1000 {
                let i = r.usize(v.len());
                v[i] = limit - 1;
                v.push(0);
                v.push(v[0]);
            }
            r.shuffle(&mut v);
            let args = format!("{} breaks", v.len());
            edge(
                if vertical {
                    "set_vertical_page_breaks"
                } else {
                    "set_page_breaks"
                },
                args,
                if want.is_empty() {
                    Want::Ok
                } else {
                    Want::Err(want)
                },
                0,
                Arc::new(move |w| {
                    if vertical {
                        w.set_vertical_page_breaks(&v).map(|_| ())
                    } else {
                        w.set_page_breaks(&v).map(|_| ())
                    }
                }),
                None,
            )
        }
        8 => {
            let (pct, v) = (
                r.bool(),
                *r.pick(&[0u16, 1, 2, 99, 100, 101, 999, 1000, 1001, u16::MAX]),
            );
            let top = r.bool();
            let limit = if pct { 100 } else { 1000 };
            edge(
                "ConditionalFormatTop",
                format!("{v} percent {pct}"),
                param(v >= 1 && v <= limit, "ConditionalFormatError"),
                0,
                Arc::new(move |w| {
                    let rule = match (pct, top) {
                        (true, true) => ConditionalFormatTopRule::TopPercent(v),
                        (true, false) => ConditionalFormatTopRule::BottomPercent(v),
                        (false, true) => ConditionalFormatTopRule::Top(v),
                        (false, false) => ConditionalFormatTopRule::Bottom(v),
                    };
                    let f = ConditionalFormatTop::new()
                        .set_rule(rule)
                        .set_format(bold());
                    w.add_conditional_format(row, col, row + 2, col, &f)
                        .map(|_| ())
                }),
                None,
            )
        }
        9 => {
            let k = r.below(3);
            edge(
                [
                    "ConditionalFormatCell",
                    "ConditionalFormatText",
                    "ConditionalFormatFormula",
                ][k as usize],
                "no rule".to_string(),
                Want::Err(vec!["ConditionalFormatError"]),
                0,
                Arc::new(move |w| {
                    match k {
                        0 => w.add_conditional_format(
                            row,
                            col,
                            row,
                            col,
                            &ConditionalFormatCell::new().set_format(bold()),
                        ),
                        1 => w.add_conditional_format(
                            row,
                            col,
                            row,
                            col,
                            &ConditionalFormatText::new().set_format(bold()),
                        ),
                        _ => w.add_conditional_format(
                            row,
                            col,
                            row,
                            col,
                            &ConditionalFormatFormula::new().set_format(bold()),
                        ),
                    }
                    .map(|_| ())
                }),
                None,
            )
        }
        10 => {
            let (poly, v) = (r.bool(), r.u8(0, 8));
            let ok = v >= 2 && v <= if poly { 6 } else { 4 };
            let name = name.to_string();
            edge(
                "trendline",
                format!("{} {v}", if poly { "Polynomial" } else { "MovingAverage" }),
                param(ok, "ChartError"),
                0,
                Arc::new(move |w| {
                    let mut c = Chart::new(ChartType::Line);
                    let t = if poly {
                        ChartTrendlineType::Polynomial(v)
                    } else {
                        ChartTrendlineType::MovingAverage(v)
                    };
                    c.add_series()
                        .set_values((name.as_str(), 0, 0, 9, 0))
                        .set_trendline(ChartTrendline::new().set_type(t));
                    w.insert_chart(row, col, &c).map(|_| ())
                }),
                None,
            )
        }
        11 | 12 => {
            // Ranges of charts.
            let (r1, r2) = row_pair(r);
            let (c1, c2) = col_pair(r);
            let cat = r.bool();
            let (sname, mut want) = if r.one_in(3) {
                sheet_name(r)
            } else {
                (name.to_string(), vec![])
            };
            if sname.is_empty() {
                // Not a range at all.
                want.clear();
                want.push(if cat { "?" } else { "ChartError" });
            } else if want.is_empty() && sname != name {
                // A sheet that doesn't exist is only noticed on saving.
                want.push("?");
            }
            if r1 > r2 || c1 > c2 || r1.max(r2) >= ROWS || c1.max(c2) >= COLS {
                want.push("ChartError");
            }
            let args = format!("{sname:?}, {r1}, {c1}, {r2}, {c2}, categories {cat}");
            let name = name.to_string();
            edge(
                "insert_chart",
                args,
                if want.is_empty() {
                    Want::Ok
                } else {
                    Want::Err(want)
                },
                0,
                Arc::new(move |w| {
                    let mut c = Chart::new(ChartType::Column);
                    let s = c.add_series();
                    if cat {
                        s.set_values((name.as_str(), 0, 0, 3, 0));
                        s.set_categories((sname.as_str(), r1, c1, r2, c2));
                    } else {
                        s.set_values((sname.as_str(), r1, c1, r2, c2));
                    }
                    w.insert_chart(row, col, &c).map(|_| ())
                }),
                None,
            )
        }
        13 => {
            let k = r.below(3);
            let name = name.to_string();
            edge(
                "insert_chart",
                ["no series", "no values", "scatter without categories"][k as usize].to_string(),
                Want::Err(vec!["ChartError"]),
                0,
                Arc::new(move |w| {
                    let mut c = Chart::new(if k == 2 {
                        ChartType::Scatter
                    } else {
                        ChartType::Bar
                    });
                    if k > 0 {
                        let s = c.add_series();
                        if k == 2 {
                            s.set_values((name.as_str(), 0, 0, 3, 0));
                        }
                    }
                    w.insert_chart(row, col, &c).map(|_| ())
                }),
                None,
            )
        }
        14 | 15 => {
            // Sparklines.
            let k = r.below(5);
            let name = name.to_string();
            let what = [
                "no range",
                "2D range",
                "1D range for a group",
                "sizes differ",
                "no sheet",
            ][k as usize];
            let errs: Vec<&'static str> = if k == 4 {
                vec!["SheetnameCannotBeBlank", "SparklineError"]
            } else {
                vec!["SparklineError"]
            };
            edge(
                "add_sparkline",
                what.to_string(),
                Want::Err(errs),
                0,
                Arc::new(move |w| {
                    match k {
                        0 => w.add_sparkline(row, col, &Sparkline::new()),
                        1 => w.add_sparkline(
                            row,
                            col,
                            &Sparkline::new().set_range((name.as_str(), 0, 0, 2, 2)),
                        ),
                        2 => w.add_sparkline_group(
                            row,
                            col,
                            row + 2,
                            col,
                            &Sparkline::new().set_range((name.as_str(), 0, 0, 0, 4)),
                        ),
                        3 => w.add_sparkline_group(
                            row,
                            col,
                            row + 2,
                            col,
                            &Sparkline::new().set_range((name.as_str(), 0, 0, 7, 6)),
                        ),
                        _ => {
                            w.add_sparkline(row, col, &Sparkline::new().set_range(("", 0, 0, 0, 2)))
                        }
                    }
                    .map(|_| ())
                }),
                None,
            )
        }
        16 => {
            let k = r.below(3);
            edge(
                "write_rich_string",
                ["no parts", "an empty part", "only an empty part"][k as usize].to_string(),
                Want::Err(vec!["ParameterError"]),
                row,
                Arc::new(move |w| {
                    let (d, b) = (Format::default(), bold());
                    match k {
                        0 => w.write_rich_string(row, col, &[]),
                        1 => w.write_rich_string(row, col, &[(&d, "a"), (&b, "")]),
                        _ => w.write_rich_string_with_format(row, col, &[(&b, "")], &b),
                    }
                    .map(|_| ())
                }),
                None,
            )
        }
        17 => {
            // Tables with bad columns.
            let k = r.below(4);
            let t = chars(r, 32768);
            let what = [
                "repeated name",
                "repeated name in another case",
                "long name",
                "long total label",
            ][k as usize];
            edge(
                "add_table",
                what.to_string(),
                Want::Err(vec![if k < 2 {
                    "TableError"
                } else {
                    "MaxStringLengthExceeded"
                }]),
                row,
                Arc::new(move |w| {
                    let cols = match k {
                        0 => vec![
                            TableColumn::new().set_header("a"),
                            TableColumn::new().set_header("a"),
                        ],
                        1 => vec![
                            TableColumn::new().set_header("ÀB"),
                            TableColumn::new().set_header("àb"),
                        ],
                        2 => vec![TableColumn::new().set_header(&t)],
                        _ => vec![TableColumn::new().set_total_label(&t)],
                    };
                    let table = Table::new().set_columns(&cols).set_total_row(true);
                    w.add_table(row, col, row + 4, col + 2, &table).map(|_| ())
                }),
                None,
            )
        }
        18 => {
            // Images in headers without a place for them.
            let foot = r.bool();
            let k = r.below(3);
            let mut e = edge(
                if foot {
                    "set_footer_image"
                } else {
                    "set_header_image"
                },
                format!("no place {k}"),
                Want::Err(vec!["ParameterError"]),
                0,
                Arc::new(move |w| {
                    let pos = match k {
                        0 => HeaderImagePosition::Left,
                        1 => HeaderImagePosition::Center,
                        _ => HeaderImagePosition::Right,
                    };
                    if foot {
                        w.set_footer_image(&fixed_image(), pos).map(|_| ())
                    } else {
                        w.set_header_image(&fixed_image(), pos).map(|_| ())
                    }
                }),
                None,
            );
            e.alone = true;
            e
        }
        _ => {
            // Filters without a range.
            let col = *r.pick(&[0u16, 5, COLS - 1, COLS, u16::MAX]);
            let mut want = vec!["ParameterError"];
            if col >= COLS {
                want.push("RowColumnLimitError");
            }
            let mut e = edge(
                "filter_column",
                format!("{col}, no range"),
                Want::Err(want),
                0,
                Arc::new(move |w| {
                    w.filter_column(col, &FilterCondition::new().add_list_filter("a"))
                        .map(|_| ())
                }),
                None,
            );
            e.alone = true;
            e
        }
    }
}

pub fn any(r: &mut Rng, name: &str, embed: bool) -> Edge {
    match r.below(10) {
        0..=4 => position(r, embed),
        5 => text(r),
        6 => link(r),
        _ => other(r, name),
    }
}
