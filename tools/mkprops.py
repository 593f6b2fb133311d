#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,hook_needed=hook)))

WS="src/worksheet.rs"; PK="src/packager.rs"; WB="src/workbook.rs"; XW="src/xmlwriter.rs"
XLSX="the saved .xlsx package, decoded by an independent reader"

p("C01","Cell values round-trip: last write wins, nothing else appears",
 "For any sequence of cell writes, overwrites and clears on a worksheet, the saved file contains at every cell exactly the last value written there, with its type (number, text, boolean, date/time, formula plus result, array formula, blank-with-format) and contains no other cell. Finite numbers decode to the bit-identical double (NaN and infinities to their documented text), text decodes to the identical Unicode string, and cells and rows appear once each in ascending order inside the declared dimension.",
 ["inputs","histories","configurations"],"all finite sequences of write/overwrite/clear calls with arbitrary values at arbitrary in-range cells, on any number of sheets, with and without the fast float formatter",
 "The tests write a few fixed values at a few cells and compare whole files; overwrite/clear histories, extreme doubles and arbitrary Unicode are not enumerated.",
 [WS,"src/shared_strings.rs","src/shared_strings_table.rs",XW],
 [("insert_cell / store_* family",WS),("write_data_table",WS),("shared_string_index","src/shared_strings_table.rs")],[XLSX])
p("C02","Every part is well-formed XML, and text survives escaping",
 "Whatever text a caller supplies through any API (cells, sheet names, names, headers, notes, titles, links, tooltips, validation messages, table columns, properties...), every XML part of the saved file is well-formed XML 1.0. Decoding the part gives back the supplied text, undoing only the documented escape of control characters.",
 ["inputs"],"all Unicode strings, including markup characters, quotes, control characters, line breaks, non-characters, literal _xHHHH_ sequences and leading/trailing whitespace, in every text-bearing API",
 "Unit tests escape a handful of strings; no test feeds hostile text through every text-bearing API and re-parses all parts.",
 [XW,"src/comment.rs","src/chart.rs","src/table.rs","src/core.rs","src/app.rs","src/vml.rs","src/drawing.rs",WS],
 [("escape_attributes / escape_xml_data / escape_xml_escapes",XW)],[XLSX])
p("C03","The package is closed: content types, relationships and parts agree",
 "In every saved file the zip archive is valid with unique entry names, every part has a content type matching its kind, every internal relationship target exists in the package, and every part is reachable from the package root. Every relationship id used inside a part resolves, in that part's own relationships, to a target of the kind the use requires, and ids are unique.",
 ["inputs","programs","histories"],"all combinations of features over any number of sheets (links, images, backgrounds, header/footer images, charts, chartsheets, shapes, buttons, notes, tables, embedded images, VBA, metadata, properties), including after earlier saves",
 "Each integration test covers one or two features on one or two sheets; part numbering is only wrong for particular combinations across sheets.",
 [PK,WB,WS,"src/content_types.rs","src/relationship.rs"],
 [("PackagerOptions counters and write_*_files",PK),("prepare_drawings / prepare_vml / prepare_tables",WB),("rel_count sequencing in assemble_xml_file_end",WS)],[XLSX])
p("C04","Parts follow the SpreadsheetML schema structure",
 "In every saved file the children of each element of the worksheet, workbook, styles, shared-string, comment, table, drawing and chart parts occur in the order and multiplicity the schema prescribes, and count attributes equal the number of children. Attribute names and enumerated values are those the schema allows, and identifiers that must be unique (sheet, table, shape ids, conditional-format priorities, cell references) are unique.",
 ["programs","inputs","configurations"],"all combinations of worksheet, chart and workbook settings and features",
 "Fixed expected files exercise each optional element alone or in a few hand-picked pairings; the order matters only when several optional elements meet.",
 [WS,WB,"src/styles.rs","src/chart.rs","src/drawing.rs","src/table.rs","src/comment.rs"],
 [("assemble_xml_file",WS),("assemble_xml_file","src/chart.rs"),("assemble_xml_file","src/styles.rs")],[XLSX])
p("C05","Cell formats arrive intact at their cells",
 "For any set of formats applied to any cells of any sheets, each cell's style in the saved file denotes exactly the properties its format was given: font, number format, fill, borders, alignment, protection, quote prefix and checkbox. This holds however many distinct formats there are, whatever order they are first used in, and whether they are shared between sheets.",
 ["inputs","histories"],"all formats built from any combination of setters, any number of them, applied on any sheets in any order, plus per-range format updates that rewrite or merge existing cell formats",
 "Tests use one to three formats per file; index mapping between per-sheet and workbook tables and font/fill/border dedup depend on the combination and order.",
 ["src/format.rs","src/styles.rs",WB,WS],
 [("format_xf_index / local to global index map",WS+", "+WB),("prepare_fonts/fills/borders/num_formats",WB),("write_cell_xf","src/styles.rs")],[XLSX])
p("C06","Row and column formats apply exactly to cells without their own",
 "A cell shows the format it was written with; a cell without one shows its row's format, or else its column's format. Where both a row and a column format are in force when a cell is written without a format, it shows the row format merged with the column format, the row winning property by property. This does not depend on which other row or column options (height, width, hiding, grouping) were set before or after, nor on whether a format was set once or replaced.",
 ["inputs","histories"],"all interleavings of row-format, column-format, row/column size/hidden options and cell writes",
 "Tests fix one order of calls; the outcome depends on the history of option calls for the same row or column.",
 [WS,"src/format.rs"],[("get_cell_xf_index",WS),("set_row_format / set_column_format intersections",WS),("Format::merge","src/format.rs")],[XLSX])
p("C07","Constant- and low-memory worksheets equal standard ones",
 "For the same row-ordered sequence of calls, a constant-memory or low-memory worksheet saves a sheet that decodes to the same cells, values, formats, row and column properties and features as a standard worksheet. A write to a row already flushed is refused without altering what was written, and mixing sheets of different modes in one workbook does not change any of them.",
 ["histories","configurations"],"all row-ordered call sequences (plus injected out-of-order calls) over any mix of standard, low-memory and constant-memory sheets in one workbook",
 "A few fixed files are generated in each mode; formats, row options, merges, array formulas and multi-sheet interaction with flushing are not compared across modes.",
 [WS,WB,PK],[("flush_data_row / flush_to_row / write-ahead table",WS),("write_constant_worksheet",PK)],[XLSX])
p("C08","Saving is repeatable and independent of the destination",
 "Saving the same workbook again, with no calls in between, yields byte-identical output, and saving to a buffer, a writer and a path yields the same bytes; two workbooks built by the same calls yield identical bytes (with a fixed creation date). Adding content between two saves gives the same final file as making all the calls before one save.",
 ["histories","programs"],"all call histories with any number of saves (to path, buffer or writer) interleaved anywhere",
 "Only a handful of resave tests with a single feature exist; state left behind by one save for the next depends on which features are present.",
 [WB,WS,PK],[("prepare_* and reset between saves",WB+", "+WS),("Packager",PK)],[XLSX])
p("C09","Parallel assembly is schedule-independent and race-free",
 "The saved bytes do not depend on how the threads that assemble worksheets are scheduled, on the number of worksheets assembled in parallel, or on other workbooks being built and saved at the same time in other threads. Worksheets may be created and filled in different threads and then added to a workbook, and the result is the same as doing it all in one thread, with no data race.",
 ["schedules"],"all thread interleavings of worksheet assembly, of worksheets built on several threads, and of several workbooks saved concurrently",
 "Tests run each save once under whatever schedule occurs and never compare schedules.",
 [PK,WS,"src/shared_strings_table.rs","src/format.rs"],[("write_worksheet_files (scoped threads)",PK),("shared string table and format index maps behind locks",WS),("static once-cells","src/format.rs, src/formula.rs")],["bytes of saves under many schedules; ThreadSanitizer reports"])
p("C10","No public call panics: misuse is reported as an error",
 "Whatever in-type arguments a caller passes to the public API, in whatever order, each call and the final save return normally, with a value or an error, and never panic, overflow or hang. An unusable argument is either rejected with an error or ignored.",
 ["inputs","histories","programs"],"all sequences of public calls with boundary, reversed, empty, over-long and nonsensical arguments, including saving twice and saving after failed calls",
 "Tests call the API with sensible arguments, and error tests check one bad argument per method in isolation.",
 [WS,WB,"src/utility.rs","src/chart.rs","src/formula.rs","src/url.rs","src/datetime.rs","src/image.rs"],[("check_dimensions and parameter checks",WS),("define_name parsing",WB),("range parsing","src/chart.rs, src/utility.rs")],["return values and unwinding of every API call"])
p("C11","A rejected call leaves no trace",
 "When a call returns an error, the workbook afterwards behaves and saves exactly as if that call had not been made. This includes later calls: nothing that would have succeeded without the rejected call fails because of it. (A call that writes a sequence of cells may have written the cells ahead of the one that was refused.)",
 ["histories","inputs"],"all histories in which failing calls (out-of-range cells, over-long text, overlapping merges or tables, bad names, bad ranges, unknown links...) are inserted anywhere",
 "Error tests assert the error value and stop; the state after the error is never compared with the state before it.",
 [WS,WB],[("argument checks ahead of state changes",WS),("merge / table overlap maps",WS)],[XLSX+", with and without the rejected calls"])
p("C12","Excel's limits are enforced exactly at the boundary",
 "Everything within Excel's documented limits is accepted and saved intact, and everything beyond is refused with the matching error: rows and columns, text length, link and tooltip length, sheet-name length and characters, validation titles, messages and lists, note length, and range order. Lengths are counted in characters, not bytes.",
 ["inputs"],"all argument values on both sides of each limit, through every entry point that takes such an argument",
 "Tests probe some limits through one entry point each; there are dozens of entry points sharing the checks.",
 [WS,"src/utility.rs","src/url.rs","src/data_validation.rs"],[("check_dimensions, MAX_STRING_LEN, MAX_URL_LEN, MAX_PARAMETER_LEN checks",WS),("validate_sheetname","src/utility.rs")],["returned error variants and the saved file"])
p("C13","Dates and times convert to the correct Excel serials",
 "For every valid date and time in Excel's range the serial written is the true count of days (with Excel's fictitious 1900-02-29) plus the exact fraction of the day, whichever constructor produced it: components, parsed text, Unix timestamps, serial numbers or the chrono types. Invalid dates and times are refused, and later instants never have smaller serials.",
 ["inputs"],"every day from 1899-12-31 to 9999-12-31, all times of day to the millisecond, all constructors and all invalid component values",
 "Tests check a list of sample dates; leap-century and block-boundary arithmetic is hand-written.",
 ["src/datetime.rs"],[("to_excel_from_ymd_hms, unix_time_to_date_parts, parse_from_str","src/datetime.rs")],["serial values and saved cells"])
p("C14","Merged ranges are placed, filled and kept disjoint",
 "Every accepted merge appears in the saved file as exactly its range, with the given value in its first cell and formatted blanks in the others. A merge is refused exactly when it overlaps an earlier merge (or is a single cell, or is out of range) and a table exactly when it overlaps an earlier table (or has too few rows, or is out of range), so that accepted merges never share a cell, nor do accepted tables, and refusals do not affect later requests.",
 ["inputs","histories"],"all sequences of merge and table requests over arbitrary ranges",
 "Tests check two or three overlaps; the per-cell overlap index is only wrong for particular geometries and histories.",
 [WS],[("merge_range, merged_cells index",WS),("add_table, table_cells index",WS)],[XLSX+", and returned errors"])
p("C15","Hyperlinks point where they were told to",
 "Every link written to a cell appears once in the saved file, on that cell, with its target, location, tooltip and display text equal to what was requested (after the documented percent-escaping and file/internal prefix handling). Overwritten cells keep only the last link, and links on one sheet never take targets belonging to another cell or sheet.",
 ["inputs","histories"],"all sets of web, mail, internal and file links with and without anchors, tips and text, over many cells and sheets, in any order",
 "Tests write a few links in row order on one sheet; relationship ids depend on order and on which kinds are mixed.",
 ["src/url.rs",WS,PK],[("Url::initialize","src/url.rs"),("prepare_hyperlinks, write_hyperlinks",WS)],[XLSX])
p("C16","Row and column sizes, visibility and outlines are as set",
 "For any sequence of row and column settings (height, width, pixels, hidden/unhidden, grouping, collapsing, defaults, ranges), each row and column in the saved file has exactly the final settings requested and no other row or column is affected. Column ranges in the file are ascending, disjoint and cover exactly the configured columns.",
 ["inputs","histories"],"all interleavings of row/column option calls, including boundary rows and columns and repeated settings",
 "Tests set one option per row; range coalescing and interplay of hidden/zero-size/outline/default options depend on combinations.",
 [WS],[("row_options / column options, write_cols, write_row",WS)],[XLSX])
p("C17","Autofilters hide exactly the rows that fail the conditions",
 "With filter conditions set, after saving, the rows hidden within the filter range are exactly those data rows whose cells fail at least one column's condition, and no row outside the range is hidden. The filter conditions in the file say exactly what was requested, on the right column, and the filter range is the one given.",
 ["inputs"],"all data (numbers, text, blanks, numbers as text, mixed case) under all list and custom conditions with and/or, on any columns",
 "Tests use one fixed data set and about ten filters.",
 [WS,"src/filter.rs"],[("hide_autofilter_rows, row_matches_*",WS),("write_auto_filter",WS)],[XLSX])
p("C18","Defined names and print ranges refer to what was asked",
 "Every user-defined name, print area, repeat row/column range and autofilter range appears exactly once in the saved workbook with the right scope and a reference to the right sheet and cells, the sheet name quoted whenever Excel's rules require it. Names that break the documented rules (a first character that is not a letter, underscore or backslash, or a forbidden character) are refused, and local names bind to the named sheet whatever the sheet order.",
 ["inputs","programs"],"all sheet names, all sheet orders and all combinations of names, print ranges and filters over many sheets",
 "Tests use simple sheet names and a few sheets.",
 [WB,WS,"src/utility.rs"],[("define_name, prepare_defined_names",WB),("quote_sheet_name","src/utility.rs")],[XLSX])
p("C19","Tables are consistent with their worksheet cells",
 "Every table in the saved file has the requested range, a workbook-unique id and name, and unique column names that equal the text in its header cells; totals labels and functions, calculated-column formulas, column formats, style and flags are those requested, in the table part and in the worksheet cells alike. Adding tables on several sheets, and saving again, does not disturb any of them.",
 ["inputs","programs","histories"],"all table options over arbitrary ranges, several tables on several sheets, and repeated saves",
 "Tests contain fixed tables on one sheet, mostly with ASCII headers.",
 ["src/table.rs",WS,WB],[("add_table, initialize_columns",WS+", src/table.rs"),("prepare_tables",WB)],[XLSX])
p("C20","Conditional formats keep range, rule, style and priority",
 "Every conditional format added appears once in the saved file, on its range (or multi-range), with the requested rule, operands, stop flag and a differential style denoting the requested format. Priorities are unique on a sheet and follow the order of addition, and a data bar's extended settings belong to that same data bar.",
 ["inputs","histories"],"all rule kinds and operands, over any ranges, added in any order, on any number of sheets",
 "Tests add one or two formats of a kind, in sorted range order.",
 ["src/conditional_format.rs",WS,"src/styles.rs",WB],[("add_conditional_format, write_conditional_formats, write_conditional_formattings",WS),("dxf index mapping",WB)],[XLSX])
p("C21","Data validations say what was requested",
 "Every data validation added appears in the saved file on exactly its range(s) with the requested type, operator, operands, list, titles, messages, error style and flags, for every kind of rule. Requests exceeding Excel's length limits are refused and the rest of the sheet is unaffected.",
 ["inputs"],"all rule kinds, operands (numbers, dates, formulas, lists), texts and flags over any ranges",
 "Tests sample one value per rule.",
 ["src/data_validation.rs",WS],[("to_internal_rule","src/data_validation.rs"),("write_data_validation",WS)],[XLSX])
p("C22","Images: right bytes, right place, right type",
 "For every inserted, embedded, background or header/footer image, the part the sheet refers to at that position holds byte-for-byte the image supplied, under an extension and content type matching its format, with the requested alt text, link and placement option. Identical images may share a part but different images never do, on however many sheets they are used, together with other drawings.",
 ["inputs","programs","histories"],"all sets of PNG/JPEG/GIF/BMP images over any number of sheets and insertion kinds, including repeated saves",
 "Tests use one image kind per file; media numbering spans sheets and insertion kinds.",
 ["src/image.rs",WB,WS,PK,"src/drawing.rs","src/rich_value_rel.rs"],[("prepare_drawings, prepare_worksheet_images, prepare_header_footer_images",WB+", "+WS),("write_image_files",PK)],[XLSX])
p("C23","Charts reference and cache the right data",
 "Every series of every chart in the saved file references exactly the requested category, value and name ranges, and any cached points equal the worksheet's cell values over those ranges, in order, with the right point count. Each chart anchor leads to its own chart, and the axes each plot refers to exist in it.",
 ["inputs","programs"],"all chart types with any number of series, combined and secondary-axis charts, ranges in rows, columns, partially empty, on other sheets, with any sheet names",
 "Tests use fixed small ranges, full columns of numbers, and mostly one chart per file.",
 ["src/chart.rs",WB,WS],[("add_chart_data_caches / get_cache_data",WB+", "+WS),("new_from_string","src/chart.rs"),("add_axis_ids","src/chart.rs")],[XLSX])
p("C24","Sparklines are saved with their ranges and options",
 "Every sparkline or sparkline group added appears once in the saved file, at its cells, each cell referencing its own slice of the data range, with the requested type, colors, axis and marker options. They coexist with every other sheet feature, in particular other extended features.",
 ["inputs","programs"],"all sparkline options, row and column groups, data on any sheet, together with conditional formats",
 "Tests check sparklines alone.",
 ["src/sparkline.rs",WS],[("add_sparkline, add_sparkline_group",WS),("write_extensions",WS)],[XLSX])
p("C25","Notes stay on their cells with text and author",
 "Every note appears on its cell with exactly its text and author, and its drawn shape belongs to the same cell with the requested size, visibility, color and alt text. This holds for any number of notes, authors and sheets, and together with buttons.",
 ["inputs","programs","histories"],"all sets of notes with any authors in any order over any cells and sheets",
 "Tests use one author or a few in alphabetical order.",
 ["src/note.rs","src/comment.rs","src/vml.rs",WS,PK],[("prepare_vml_objects, note_authors",WS),("write_comment_files",PK)],[XLSX])
p("C26","Serialized structs land in the right rows and columns",
 "Serializing any sequence of records after defining headers writes each field's value, unchanged and of the right type, under that field's header in consecutive rows, skipping only fields the user skipped, with the requested headers, order, renames and formats. Several structures on one sheet, sequences and options never write into each other's columns, and tables requested for a structure cover exactly its headers and rows.",
 ["inputs","histories"],"all flat record types built from numbers, text, booleans, options, unit enums and dates, with any header options, interleaved over several structures",
 "Tests serialize a few fixed records per option.",
 ["src/serializer.rs",WS],[("SerializerState, serialize_to_worksheet_cell",  "src/serializer.rs")],[XLSX])
p("C27","I/O failures are reported and never mistaken for success",
 "If the destination fails at any point while saving (write error, short write, full device, missing directory), the save returns an error, does not panic and never reports success for an incomplete file. The workbook stays usable: a later save to a working destination produces the complete, correct file.",
 ["fault_sequences","crash_points"],"a fault of any kind at every write, seek or flush of the destination, for any workbook, followed by further saves",
 "No test injects an I/O fault.",
 [PK,WB,"src/error.rs"],[("save_internal error propagation",WB),("zip writer results",PK)],["result of save and bytes reaching the destination"])
p("C28","Document properties are saved as given",
 "Every document property and custom property set by the user is found in the saved file with its exact name, value and type, the creation date is the one given, and unset properties do not appear. Sheet counts and titles in the document summary match the actual sheets and names.",
 ["inputs","programs"],"all property values, custom property types and names, over any sheets and defined names",
 "Tests set a fixed list of values.",
 ["src/properties.rs","src/core.rs","src/app.rs","src/custom.rs",WB],[("assemble_xml_file","src/core.rs, src/app.rs, src/custom.rs")],[XLSX])
p("C29","Worksheet view, page and protection settings are as set",
 "After any sequence of settings calls, the saved sheet carries exactly the last requested value of every setting that applies to its kind of sheet (a chartsheet has no cells, gridlines, scaling or panes): paper, orientation, margins, scale, fit, centering, page order and numbering, headers and footers, breaks, gridlines, headings, zoom, view mode, freeze panes, selection, top-left cell, direction, tab color, protection options and password hash, and ignored errors. Settings never requested keep their defaults and out-of-range requests change nothing.",
 ["inputs","histories"],"all sequences of view/page/print/protection calls with any values",
 "Tests set one or two options per file.",
 [WS,"src/protection.rs","src/utility.rs"],[("write_sheet_views, write_page_setup, write_header_footer, write_sheet_protection, write_ignored_errors",WS),("hash_password","src/utility.rs")],[XLSX])
p("C30","Rich strings keep their segments",
 "A rich string decodes to the concatenation of its segments, each with exactly the font given and in order; whitespace and markup characters are preserved and the length limit counts the visible characters. A plain string is never interpreted as rich text, whatever it contains.",
 ["inputs"],"all sequences of segments with any text and fonts, and all plain strings, in every worksheet mode",
 "Tests contain a few fixed rich strings.",
 [WS,"src/shared_strings.rs","src/styles.rs"],[("store_rich_string",WS),("write_sst_strings","src/shared_strings.rs")],[XLSX])
p("C31","Formulas are stored as written apart from required prefixes",
 "A formula reaches the file with its text unchanged except that a leading equals sign (or array braces) is removed and each call of a function newer than the original file format gets its required prefix - never inside string literals, quoted sheet names or longer identifiers, and never twice. Formulas calling dynamic-array functions are stored as dynamic arrays with the metadata that requires, keeping range, result and format; other formulas are not.",
 ["inputs"],"all formulas built from old and new functions, user-defined names, string literals, quoted sheet names, array constants and pre-escaped text, through all formula entry points",
 "Tests list sample formulas per function.",
 ["src/formula.rs",WS,"src/metadata.rs"],[("escape_formula / future_functions","src/formula.rs"),("store_formula / store_array_formula",WS)],[XLSX])
p("C32","The workbook's sheets are named, ordered and activated correctly",
 "The saved workbook lists exactly the sheets added, in order, with unique names (ignoring case), unique ids, the requested hidden state, and each leads to its own content. Exactly one visible sheet is active (the last requested, by default the first), the first-visible-tab setting and selected flags agree with the requests, and workbooks that would break these rules fail to save with an error.",
 ["inputs","programs","histories"],"all sequences of adding, pushing, naming, renaming, hiding, activating, selecting and looking up worksheets and chartsheets",
 "Tests use two or three sheets with one such setting.",
 [WB,WS],[("add_worksheet, push_worksheet, set_active_worksheets",WB),("set_hidden, set_active, set_first_tab",WS)],[XLSX])
p("C33","Cell reference utilities are exact and quoting is sound",
 "Column-name and cell/range conversion functions are exact and mutually inverse over the whole grid, and quoting a valid sheet name yields a token that Excel's reference grammar reads back as that same name, quoted whenever the bare name would be read as something else. Sheet-name validation accepts exactly the names Excel's rules allow, and none of these functions fails on valid input.",
 ["inputs"],"all 16384 columns, all rows at boundaries, all sheet names",
 "Tests check tables of samples.",
 ["src/utility.rs"],[("column_number_to_name, column_name_to_number, row_col_to_cell, cell_range, quote_sheet_name, check_sheet_name","src/utility.rs")],["return values, and references in the saved file"])
p("C34","The shared string table is exact",
 "The shared string table contains each distinct string used by cells exactly once, its unique count equals its entries, its total count equals the number of cells referring to it, and every reference is in range. This holds across sheets and repeated saves, except that low-memory worksheets, which hand out entries as cells are written, may leave in it the text of values they overwrote.",
 ["inputs","histories"],"all multisets of plain and rich strings over all sheets of all modes, with overwrites and repeated saves",
 "Tests compare files with a handful of strings.",
 ["src/shared_strings_table.rs","src/shared_strings.rs",WS,PK],[("shared_string_index","src/shared_strings_table.rs"),("update_string_table_ids",WS)],[XLSX])
p("C35","Autofit widens columns to their longest cell, and only those",
 "After autofit, every column containing data is as wide as its widest cell's displayed text (measured by the library's published width function, with digit width for every character of a number, plus the allowance for a filter drop-down), limited by the maximum asked for. A wider width set explicitly is kept, and on constant memory sheets, where only the current row is seen, an earlier and wider autofit is kept. Columns without data, hidden and outline states, formats and cell contents are unaffected, and the published width of a text is the sum of the widths of its characters.",
 ["inputs","histories"],"all cell contents of all types over any columns, with filters, tables, explicit widths and limits, and repeated autofits",
 "Tests check fixed strings.",
 [WS,"src/utility.rs"],[("autofit_columns",WS),("cell_autofit_width","src/utility.rs")],[XLSX])
p("C36","Constant-memory mode uses bounded memory and cleans up",
 "While rows are written in order to a constant-memory worksheet, the heap used by the library does not grow with the number of rows (a low-memory worksheet grows only with distinct text), and temporary files live in the chosen directory and are gone once the workbook is dropped, whether or not it was saved. Saving streams those rows with bounded memory too, and standard worksheets use no temporary files at all.",
 ["histories","configurations"],"all row-ordered write histories of any length and any mix of sheets",
 "No test measures memory or temporary files.",
 [WS,WB,PK],[("flush_data_row to a temporary file",WS),("set_tempdir",WB)],["heap allocation counters and directory listings during the run"])
p("C37","Macro-enabled workbooks carry their VBA project intact",
 "When a VBA project (and optional signature) is added the package holds those files byte for byte, with the macro-enabled content type and relationships, and workbook and sheet code names are those set or the documented defaults. Buttons appear at their cells with their caption, macro and size, and workbooks without a project carry no macro content.",
 ["inputs","programs"],"all project byte strings, code names, buttons and sheet combinations",
 "Tests use one project file.",
 [WB,PK,"src/button.rs","src/vml.rs","src/content_types.rs"],[("add_vba_project",WB),("write_vba_project",PK),("write_button_shape","src/vml.rs")],[XLSX])
p("C38","Drawing objects cover exactly their requested rectangle",
 "Every image, chart, shape, button and note placed at a cell with an offset and size is anchored so that, with the sheet's actual column widths, row heights and hidden rows and columns, its rectangle starts at that cell plus offset and has the requested pixel size. Anchor offsets lie inside their cells, and the movement option is the one requested.",
 ["inputs"],"all insertion cells, offsets, sizes, scales and row/column size configurations including hidden ones, set before insertion or before saving",
 "Tests place objects on default-sized grids.",
 [WS,"src/drawing.rs","src/image.rs","src/chart.rs"],[("position_object_pixels / position_object_emus",WS)],[XLSX])
p("C39","Text boxes and chart settings are saved as requested",
 "Every text box keeps its text, link, fonts, alignment and formatting, and every chart keeps the titles, axis settings, legend, labels, markers, trendlines, error bars, gaps, styles and number formats requested for it. Settings of one chart, series or axis never appear on another.",
 ["inputs","programs"],"all combinations of chart, axis, series and shape settings",
 "Tests set one property per expected file.",
 ["src/chart.rs","src/shape.rs","src/drawing.rs"],[("write_* methods","src/chart.rs, src/drawing.rs")],[XLSX])

ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
