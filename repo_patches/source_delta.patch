From 7783c0b2b78446d7af95a6031e619a8734a0416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 001/110] fix: don't treat user strings like <r>...</r> as rich
 string XML

---
 src/shared_strings.rs       | 14 ++++++++++----
 src/shared_strings_table.rs | 24 +++++++++++++++++++++++-
 src/worksheet.rs            | 12 +++++++++---
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/shared_strings.rs b/src/shared_strings.rs
index a05b29c..e594054 100644
--- a/src/shared_strings.rs
+++ b/src/shared_strings.rs
@@ -62,20 +62,26 @@ impl SharedStrings {
     }
 
     // Write the <sst> string elements.
-    #[allow(clippy::from_iter_instead_of_collect)] // from_iter() is faster than collect() here.
     fn write_sst_strings(&mut self, string_table: &Arc<Mutex<SharedStringsTable>>) {
         let string_table = string_table.lock().unwrap();
 
-        let mut insertion_order_strings = Vec::from_iter(string_table.strings.iter());
+        let mut insertion_order_strings =
+            Vec::with_capacity(string_table.strings.len() + string_table.rich_strings.len());
+        for (string, index) in &string_table.strings {
+            insertion_order_strings.push((string, index, false));
+        }
+        for (string, index) in &string_table.rich_strings {
+            insertion_order_strings.push((string, index, true));
+        }
         insertion_order_strings.sort_by_key(|x| x.1);
         let whitespace = ['\t', '\n', ' '];
 
-        for (string, _) in insertion_order_strings {
+        for (string, _, is_rich) in insertion_order_strings {
             let preserve_whitespace =
                 string.starts_with(whitespace) || string.ends_with(whitespace);
 
             // Check if the string is a rich text element.
-            if string.starts_with("<r>") && string.ends_with("</r>") {
+            if is_rich {
                 xml_rich_si_element(&mut self.writer, string);
             } else {
                 xml_si_element(&mut self.writer, string, preserve_whitespace);
diff --git a/src/shared_strings_table.rs b/src/shared_strings_table.rs
index 0a23358..4043a20 100644
--- a/src/shared_strings_table.rs
+++ b/src/shared_strings_table.rs
@@ -19,6 +19,10 @@ pub struct SharedStringsTable {
     pub count: u32,
     pub unique_count: u32,
     pub strings: HashMap<Arc<str>, u32>,
+
+    // Rich strings are stored separately, as XML, since a user string can
+    // contain the same text.
+    pub rich_strings: HashMap<Arc<str>, u32>,
 }
 
 impl SharedStringsTable {
@@ -32,6 +36,7 @@ impl SharedStringsTable {
             count: 0,
             unique_count: 0,
             strings: HashMap::new(),
+            rich_strings: HashMap::new(),
         }
     }
 
@@ -46,10 +51,27 @@ impl SharedStringsTable {
         index
     }
 
+    // Get the index of the rich string XML in the Shared String table.
+    pub(crate) fn shared_rich_string_index(&mut self, key: Arc<str>) -> u32 {
+        let index = *self.rich_strings.entry(key).or_insert_with(|| {
+            let index = self.unique_count;
+            self.unique_count += 1;
+            index
+        });
+        self.count += 1;
+        index
+    }
+
     // Add a string to the Shared String table to get a consistent ordering with
     // files generated by Excel, when testing. This doesn't increment the count.
     pub(crate) fn populate_string_index(&mut self, key: Arc<str>, index: u32) {
-        self.strings.entry(key).or_insert_with(|| {
+        let strings = if key.starts_with("<r>") && key.ends_with("</r>") {
+            &mut self.rich_strings
+        } else {
+            &mut self.strings
+        };
+
+        strings.entry(key).or_insert_with(|| {
             self.unique_count += 1;
             index
         });
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56fdda5..9bb6bda 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15139,7 +15139,7 @@ impl Worksheet {
 
         if self.has_workbook_global_sst {
             let mut string_table = self.string_table.lock().unwrap();
-            string_id = Some(string_table.shared_string_index(Arc::clone(&string)));
+            string_id = Some(string_table.shared_rich_string_index(Arc::clone(&string)));
         }
 
         let cell = CellType::RichString {
@@ -18405,12 +18405,18 @@ impl Worksheet {
                 match cell {
                     CellType::String {
                         string, string_id, ..
+                    } => {
+                        if string_id.is_none() {
+                            let string_index = string_table.shared_string_index(Arc::clone(string));
+                            *string_id = Some(string_index);
+                        }
                     }
-                    | CellType::RichString {
+                    CellType::RichString {
                         string, string_id, ..
                     } => {
                         if string_id.is_none() {
-                            let string_index = string_table.shared_string_index(Arc::clone(string));
+                            let string_index =
+                                string_table.shared_rich_string_index(Arc::clone(string));
                             *string_id = Some(string_index);
                         }
                     }
-- 
2.43.0


From 0ed3d7a1fb43a92f67e982e8f95ea846ed37f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 002/110] fix: write non-finite formula results as strings

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9bb6bda..ad70c6d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19131,7 +19131,7 @@ impl Worksheet {
         };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
+        let result_type = if !result.parse::<f64>().is_ok_and(f64::is_finite) {
             match result {
                 // Handle error results.
                 "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
@@ -19186,7 +19186,7 @@ impl Worksheet {
         let cm = if is_dynamic { r#" cm="1""# } else { "" };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
+        let result_type = if !result.parse::<f64>().is_ok_and(f64::is_finite) {
             match result {
                 // Handle error results.
                 "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
-- 
2.43.0


From 22ecbfeb141cb668e4217429ede9989732942862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 003/110] fix: include set_range_format() cells in the
 worksheet dimensions

---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index ad70c6d..bb70949 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10350,6 +10350,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Store the range in the worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object.
         let xf_index = self.format_xf_index(format);
 
-- 
2.43.0


From 3ae13ebbf1082ffdd9d4298a44169deb88ac4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 004/110] fix: keep the user format of formulas with dynamic
 functions

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index bb70949..82535d6 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15172,7 +15172,7 @@ impl Worksheet {
     ) -> Result<&mut Worksheet, XlsxError> {
         // Transfer to dynamic formula handling function.
         if formula.has_dynamic_function {
-            return self.store_array_formula(row, col, row, col, formula, None, true);
+            return self.store_array_formula(row, col, row, col, formula, format, true);
         }
 
         // Check row and col are in the allowed range.
-- 
2.43.0


From 252512ae30b9ed0cefeda59c36bac6255e27c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 005/110] fix: escape control and non-characters in XML
 attributes and data

---
 src/xmlwriter.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xmlwriter.rs b/src/xmlwriter.rs
index 945d96e..ec557ba 100644
--- a/src/xmlwriter.rs
+++ b/src/xmlwriter.rs
@@ -168,6 +168,14 @@ fn match_attribute_html_char(ch: char) -> Option<&'static str> {
         '<' => Some("&lt;"),
         '>' => Some("&gt;"),
         '\n' => Some("&#xA;"),
+
+        // Tabs and carriage returns would be normalized to spaces.
+        '\t' => Some("&#x9;"),
+        '\r' => Some("&#xD;"),
+
+        // Other control and non-characters aren't allowed in XML.
+        '\x00'..='\x1F' | '\u{FFFE}' | '\u{FFFF}' => match_xml_char(ch),
+
         _ => None,
     }
 }
@@ -221,6 +229,10 @@ fn match_xml_char(ch: char) -> Option<&'static str> {
         '\x1E' => Some("_x001E_"),
         '\x1F' => Some("_x001F_"),
 
+        // These non-characters aren't allowed in XML.
+        '\u{FFFE}' => Some("_xFFFE_"),
+        '\u{FFFF}' => Some("_xFFFF_"),
+
         _ => None,
     }
 }
-- 
2.43.0


From 18a6901f4314f0c969923ae7972b11ec4dad58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 006/110] fix: escape literal _xHHHH_ strings in formula
 results

---
 src/worksheet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 82535d6..05c7f43 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19153,7 +19153,8 @@ impl Worksheet {
         };
 
         let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let result = crate::xmlwriter::escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
@@ -19208,7 +19209,8 @@ impl Worksheet {
         };
 
         let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let result = crate::xmlwriter::escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
-- 
2.43.0


From f97bea64ee0c88e7ea6c76fd777f90335500c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 007/110] fix: keep a format's number format and built-in index
 consistent

---
 src/format.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 599a63b..9f92b1b 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -828,6 +828,7 @@ impl Format {
     ///
     pub fn set_num_format(mut self, num_format: impl Into<String>) -> Format {
         self.num_format = num_format.into();
+        self.num_format_index = 0;
         self
     }
 
@@ -972,6 +973,8 @@ impl Format {
 
         if let Some(num_format) = num_formats.get(&num_format_index) {
             self.num_format = (*num_format).to_string();
+        } else {
+            self.num_format.clear();
         }
 
         self
@@ -2528,11 +2531,8 @@ impl Format {
         self.quote_prefix |= other.quote_prefix;
         self.locked &= other.locked;
 
-        if self.num_format.is_empty() {
+        if self.num_format.is_empty() && self.num_format_index == 0 {
             self.num_format.clone_from(&other.num_format);
-        }
-
-        if self.num_format_index == 0 {
             self.num_format_index = other.num_format_index;
         }
 
-- 
2.43.0


From 4b7c9765745aa50d6c446614781a9acd4c396b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 008/110] fix: retain user defined number formats when a
 workbook is resaved

---
 src/workbook.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 3d40929..7cac27e 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2676,11 +2676,13 @@ impl Workbook {
         self.num_formats = vec![];
 
         for xf_format in xf_formats.into_iter().flatten() {
-            if xf_format.num_format_index > 0 {
+            if xf_format.num_format.is_empty() {
                 continue;
             }
 
-            if xf_format.num_format.is_empty() {
+            // Ignore built-in formats, but not user defined formats that were
+            // assigned an index in a previous save.
+            if xf_format.num_format_index > 0 && xf_format.num_format_index < 164 {
                 continue;
             }
 
-- 
2.43.0


From 878ac592fee190ec0122d550c4ba459d1c9597b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 009/110] fix: use the latest row and column formats for cells
 at their intersection

---
 src/worksheet.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 05c7f43..274f216 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6591,7 +6591,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.xf_index = xf_index,
+            Some(row_options) => {
+                row_options.xf_index = xf_index;
+                row_options.format = Some(format.clone());
+            }
             None => {
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
@@ -8054,7 +8057,10 @@ impl Worksheet {
 
         // Update an existing col metadata object or create a new one.
         match self.changed_cols.get_mut(&col) {
-            Some(col_options) => col_options.xf_index = xf_index,
+            Some(col_options) => {
+                col_options.xf_index = xf_index;
+                col_options.format = Some(format.clone());
+            }
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
-- 
2.43.0


From ddfb649da5b8e72132d5d0c6cefc9310cadc38c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 010/110] fix: don't repeat or drop rows with options when
 closing constant memory sheets

---
 src/worksheet.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 274f216..d322b52 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18604,33 +18604,25 @@ impl Worksheet {
         let mut remaining_rows: Vec<_> = self.write_ahead.keys().copied().collect();
 
         // Add any changed row elements.
-        let max_changed_row = self.changed_rows.keys().max().unwrap_or(&0);
-        if *max_changed_row > self.current_row {
-            for row_num in self.current_row..=*max_changed_row {
-                if self.changed_rows.contains_key(&row_num) {
-                    remaining_rows.push(row_num);
-                }
-            }
-        }
+        remaining_rows.extend(self.changed_rows.keys());
 
-        // Add the current row.
-        remaining_rows.push(self.current_row);
-
-        // Remove any duplicate rows.
+        // Only keep the rows after the current row and remove any duplicates.
+        remaining_rows.retain(|row| *row > self.current_row);
         remaining_rows.sort_unstable();
         remaining_rows.dedup();
 
-        // If there is data to write (and not just write-ahead or rows) we move
-        // the final row ahead by one. This will start any subsequent write() on
-        // the next row, after a resave.
-        if self.data_table.contains_key(&self.current_row) {
-            remaining_rows.push(1 + *remaining_rows.last().unwrap());
-        }
-
-        // Flush all the remaining rows.
+        // Flush the current row and move ahead to each remaining row in turn.
         for remaining_row in remaining_rows {
             self.flush_data_row(remaining_row);
         }
+
+        // Flush the final row, if required, and move ahead by one. This will
+        // start any subsequent write() on the next row, after a resave.
+        if self.data_table.contains_key(&self.current_row)
+            || self.changed_rows.contains_key(&self.current_row)
+        {
+            self.flush_data_row(self.current_row + 1);
+        }
     }
 
     // Flush all constant memory data up to the next target row.
-- 
2.43.0


From 49b824ce6cf59cec1a5ca4e1ce8fea5c6ad3ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 011/110] fix: escape literal _xHHHH_ strings in rich strings

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d322b52..a869403 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15491,6 +15491,8 @@ impl Worksheet {
                 vec![]
             };
 
+            let string = &crate::xmlwriter::escape_xml_escapes(string);
+
             // First segment doesn't require a font run for the default format.
             if format.is_default() && first_segment {
                 xml_start_tag_only(&mut styler.writer, "r");
-- 
2.43.0


From 337a703d5c196b39cb1887f4eb16f36f624a994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 012/110] fix: apply the string length limit to rich string
 text rather than markup

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a869403..3f0b563 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15132,7 +15132,7 @@ impl Worksheet {
         }
 
         //  Check that the string is < Excel limit of 32767 chars.
-        if string.chars().count() > MAX_STRING_LEN {
+        if raw_string.chars().count() > MAX_STRING_LEN {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
-- 
2.43.0


From 17b6a93b85d0fa8e3bf0d6fdb55c2745c5d14ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 013/110] fix: don't treat names like A.1 as cell references
 when quoting sheet names

---
 src/utility.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility.rs b/src/utility.rs
index 4796619..a682b60 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -670,6 +670,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
         // Excel row and column limits.
         // --------------------------------------------------------------------
         else if (1..=3).contains(&string_part.len())
+            && string_part.chars().all(|c| c.is_ascii_uppercase())
             && number_part.chars().all(|c| c.is_ascii_digit())
         {
             let col = column_name_to_number(&string_part);
-- 
2.43.0


From 88d5c1242b678d4469928dc0b7a28de5710c2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 014/110] fix: avoid overflow in the cell reference utility
 functions

---
 src/utility.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index a682b60..1b7de3e 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -65,7 +65,7 @@ use crate::XlsxError;
 pub fn column_number_to_name(col_num: ColNum) -> String {
     let mut col_name = String::new();
 
-    let mut col_num = col_num + 1;
+    let mut col_num = u32::from(col_num) + 1;
 
     while col_num > 0 {
         // Set remainder from 1 .. 26
@@ -76,7 +76,7 @@ pub fn column_number_to_name(col_num: ColNum) -> String {
         }
 
         // Convert the remainder to a character.
-        let col_letter = char::from_u32(64u32 + u32::from(remainder)).unwrap();
+        let col_letter = char::from_u32(64u32 + remainder).unwrap();
 
         // Accumulate the column letters, right to left.
         col_name = format!("{col_letter}{col_name}");
@@ -112,12 +112,13 @@ pub fn column_name_to_number(column: &str) -> ColNum {
         return 0;
     }
 
-    let mut col_num = 0;
+    let mut col_num: ColNum = 0;
     for char in column.chars() {
-        col_num = (col_num * 26) + (char as u16 - 'A' as u16 + 1);
+        let letter = (char as u16).wrapping_sub('A' as u16).wrapping_add(1);
+        col_num = col_num.wrapping_mul(26).wrapping_add(letter);
     }
 
-    col_num - 1
+    col_num.wrapping_sub(1)
 }
 
 /// Convert zero indexed row and column cell numbers to a `A1` style string.
@@ -142,7 +143,7 @@ pub fn column_name_to_number(column: &str) -> ColNum {
 /// ```
 ///
 pub fn row_col_to_cell(row: RowNum, col: ColNum) -> String {
-    format!("{}{}", column_number_to_name(col), row + 1)
+    format!("{}{}", column_number_to_name(col), u64::from(row) + 1)
 }
 
 /// Convert zero indexed row and column cell numbers to an absolute `$A$1` style
@@ -168,7 +169,7 @@ pub fn row_col_to_cell(row: RowNum, col: ColNum) -> String {
 /// ```
 ///
 pub fn row_col_to_cell_absolute(row: RowNum, col: ColNum) -> String {
-    format!("${}${}", column_number_to_name(col), row + 1)
+    format!("${}${}", column_number_to_name(col), u64::from(row) + 1)
 }
 
 /// Convert zero indexed row and col cell numbers to a `A1:B1` style range
@@ -732,7 +733,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
 
 // Unquote an Excel single quoted string.
 pub(crate) fn unquote_sheetname(sheetname: &str) -> String {
-    if sheetname.starts_with('\'') && sheetname.ends_with('\'') {
+    if sheetname.len() > 1 && sheetname.starts_with('\'') && sheetname.ends_with('\'') {
         let sheetname = sheetname[1..sheetname.len() - 1].to_string();
         sheetname.replace("''", "'")
     } else {
-- 
2.43.0


From 8f1f418090efbfa7731d0a97f880430b9bcbf9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 015/110] fix: ignore positive time zone offsets when parsing
 datetimes

---
 src/datetime.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 32b9f0d..895a806 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -243,7 +243,10 @@ impl ExcelDateTime {
     ///
     #[allow(clippy::get_first)]
     pub fn parse_from_str(datetime: &str) -> Result<ExcelDateTime, XlsxError> {
-        let date_parts: Vec<&str> = datetime.trim().split(&['-', 'T', 'Z', ' ', ':']).collect();
+        let date_parts: Vec<&str> = datetime
+            .trim()
+            .split(&['-', '+', 'T', 'Z', ' ', ':'])
+            .collect();
 
         // Match date and optional time.
         if datetime.contains('-') {
-- 
2.43.0


From b7b229a0f469550e70b97d2f86af983a2ee5749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 016/110] fix: refuse negative and non-finite seconds in times

---
 src/datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 895a806..5097e7f 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -979,7 +979,7 @@ impl ExcelDateTime {
         }
 
         // Excel only supports milli-seconds.
-        if sec > 59.999 {
+        if !(0.0..=59.999).contains(&sec) {
             return Err(XlsxError::DateTimeRangeError(format!(
                 "Seconds: '{sec}' outside Excel range of 0-59.999"
             )));
-- 
2.43.0


From fb8a5a0b8a27c9434586d1ada9a40b013943caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 017/110] fix: write row outline levels in constant memory mode

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 3f0b563..41fde26 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18995,6 +18995,14 @@ impl Worksheet {
             {
                 attributes.push(("customHeight", "1".to_string()));
             }
+
+            if row_options.level > 0 {
+                attributes.push(("outlineLevel", row_options.level.to_string()));
+            }
+
+            if row_options.collapsed {
+                attributes.push(("collapsed", "1".to_string()));
+            }
         } else if self.user_default_row_height != DEFAULT_ROW_HEIGHT {
             attributes.push(("ht", self.user_default_row_height.to_string()));
             attributes.push(("customHeight", "1".to_string()));
-- 
2.43.0


From 8f9b803d0780ee60b2e7314ea52123c49493721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 018/110] fix: set the worksheet outline level for single level
 groups

---
 src/worksheet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 41fde26..1e0d1b1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17184,6 +17184,9 @@ impl Worksheet {
                 }
             }
             None => {
+                // Store max worksheet outline row level.
+                self.max_outline_row_level = std::cmp::max(1, self.max_outline_row_level);
+
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
                     xf_index: 0,
@@ -17282,6 +17285,9 @@ impl Worksheet {
                 }
             }
             None => {
+                // Store max worksheet outline column level.
+                self.max_outline_col_level = std::cmp::max(1, self.max_outline_col_level);
+
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
                     xf_index: 0,
-- 
2.43.0


From 5b5b0a00c9a1602d1cd8d16ed2b884b1cd279e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 019/110] fix: leave the worksheet unchanged when a group is
 rejected

---
 src/worksheet.rs | 52 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1e0d1b1..10182f5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6991,10 +6991,15 @@ impl Worksheet {
         first_row: RowNum,
         last_row: RowNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the row after the collapsed group.
-        self.set_collapsed_row(last_row + 1)?;
+        // Check that there is a row after the group for the collapsed property.
+        if last_row >= ROW_MAX - 1 {
+            return Err(XlsxError::RowColumnLimitError);
+        }
 
-        self.set_grouped_rows(first_row, last_row, true)
+        self.set_grouped_rows(first_row, last_row, true)?;
+
+        // Set the collapsed property to the row after the collapsed group.
+        self.set_collapsed_row(last_row + 1)
     }
 
     /// Group a range of columns into a worksheet outline group.
@@ -7365,10 +7370,15 @@ impl Worksheet {
         first_col: ColNum,
         last_col: ColNum,
     ) -> Result<&mut Worksheet, XlsxError> {
-        // Set the collapsed property to the column after the collapsed group.
-        self.set_collapsed_column(last_col + 1)?;
+        // Check that there is a column after the group for the collapsed property.
+        if last_col >= COL_MAX - 1 {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
+        self.set_grouped_columns(first_col, last_col, true)?;
 
-        self.set_grouped_columns(first_col, last_col, true)
+        // Set the collapsed property to the column after the collapsed group.
+        self.set_collapsed_column(last_col + 1)
     }
 
     /// Place the row outline group expand/collapse symbols above the range.
@@ -17140,7 +17150,9 @@ impl Worksheet {
         let min_col = self.get_min_col();
 
         // Check rows are in the allowed range.
-        if !self.check_dimensions(first_row, min_col) || !self.check_dimensions(last_row, min_col) {
+        if !self.check_dimensions_only(first_row, min_col)
+            || !self.check_dimensions_only(last_row, min_col)
+        {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17149,6 +17161,17 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits.
+        for row in first_row..=last_row {
+            if matches!(self.changed_rows.get(&row), Some(options) if options.level >= 7) {
+                return Err(XlsxError::MaxGroupLevelExceeded);
+            }
+        }
+
+        // Store the range in the worksheet dimensions.
+        self.check_dimensions(first_row, min_col);
+        self.check_dimensions(last_row, min_col);
+
         // Write group outline for each row.
         for row in first_row..=last_row {
             self.set_grouped_row(row, collapsed)?;
@@ -17241,7 +17264,9 @@ impl Worksheet {
         let min_row = self.get_min_row();
 
         // Check columns are in the allowed range.
-        if !self.check_dimensions(min_row, first_col) || !self.check_dimensions(min_row, last_col) {
+        if !self.check_dimensions_only(min_row, first_col)
+            || !self.check_dimensions_only(min_row, last_col)
+        {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17250,6 +17275,17 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the outline levels are within Excel's limits.
+        for col in first_col..=last_col {
+            if matches!(self.changed_cols.get(&col), Some(options) if options.level >= 7) {
+                return Err(XlsxError::MaxGroupLevelExceeded);
+            }
+        }
+
+        // Store the range in the worksheet dimensions.
+        self.check_dimensions(min_row, first_col);
+        self.check_dimensions(min_row, last_col);
+
         // Write group outline for each column.
         for col in first_col..=last_col {
             self.set_grouped_column(col, collapsed)?;
-- 
2.43.0


From 200311891afca5a5dbde4ef149b561354fc02a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 020/110] fix: don't extend the worksheet dimensions for
 rejected cell writes

---
 src/worksheet.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 10182f5..8d7d564 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -5749,7 +5749,7 @@ impl Worksheet {
         note: &Note,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check row and columns are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -5759,6 +5759,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Set the cell that the Note refers to. This is different form the cell
         // where the note appears.
         let mut note = note.clone();
@@ -15072,7 +15075,7 @@ impl Worksheet {
         }
 
         // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15081,6 +15084,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15137,7 +15143,7 @@ impl Worksheet {
         }
 
         // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15146,6 +15152,9 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15234,8 +15243,8 @@ impl Worksheet {
         is_dynamic: bool,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -15245,6 +15254,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Store the range in the worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15397,7 +15410,7 @@ impl Worksheet {
         format: Option<&Format>,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check row and columns are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15409,6 +15422,9 @@ impl Worksheet {
             )));
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(row, col);
+
         let image_id = match self.embedded_image_ids.get(&image.hash) {
             Some(image_id) => *image_id,
             None => {
-- 
2.43.0


From 032a9b5dba89a9e8b5b1cf8666322dc22752a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 021/110] fix: check merge, table and autofilter ranges before
 changing the worksheet

---
 src/worksheet.rs | 160 +++++++++++++++++++++++++++--------------------
 1 file changed, 91 insertions(+), 69 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8d7d564..e5c09ab 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -4972,8 +4972,8 @@ impl Worksheet {
         format: &Format,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -4988,6 +4988,30 @@ impl Worksheet {
             return Err(XlsxError::MergeRangeSingleCell);
         }
 
+        //  Check that the string is < Excel limit of 32767 chars.
+        if string.chars().count() > MAX_STRING_LEN {
+            return Err(XlsxError::MaxStringLengthExceeded);
+        }
+
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the merged range overlaps any previous merged range. This is
+        // a major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        let new_index = self.merged_ranges.len();
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.merged_cells.get(&(row, col)) {
+                    let previous_cell_range = self.merged_ranges.get(*index).unwrap();
+                    return Err(XlsxError::MergeRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         // Write the first cell in the range.
         self.write_string_with_format(first_row, first_col, string, format)?;
 
@@ -5006,29 +5030,12 @@ impl Worksheet {
         }
         self.set_writing_ahead(false);
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the merged range overlaps any previous merged range. This is
-        // a major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
-        let new_index = self.merged_ranges.len();
+        // Store the merge range if everything was okay.
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.merged_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.merged_ranges.get(*index).unwrap();
-                        return Err(XlsxError::MergeRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.merged_cells.insert((row, col), new_index),
-                };
+                self.merged_cells.insert((row, col), new_index);
             }
         }
-
-        // Store the merge range if everything was okay.
         self.merged_ranges.push(cell_range);
 
         Ok(self)
@@ -8449,6 +8456,20 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check that the worksheet autofilter doesn't overlap a table
+        // autofilter.
+        for col in first_col..=last_col {
+            let filter_data = self.cells_with_autofilter.get(&(first_row, col));
+            if let Some((FilterType::Table, filter_range)) = filter_data {
+                return Err(XlsxError::AutofilterRangeOverlaps(
+                    autofilter_area.to_error_string(),
+                    filter_range.to_error_string(),
+                ));
+            }
+        }
+
         // Store the defined name information.
         self.autofilter_defined_name.in_use = true;
         self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
@@ -8457,25 +8478,13 @@ impl Worksheet {
         self.autofilter_defined_name.last_row = last_row;
         self.autofilter_defined_name.last_col = last_col;
 
-        let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
-
         // Clear any previous filters.
         self.filter_conditions = BTreeMap::new();
+        self.cells_with_autofilter
+            .retain(|_, (filter_type, _)| *filter_type != FilterType::Worksheet);
 
         // Store the cells with the autofilter dropdown for the autofit calc.
         for col in first_col..=last_col {
-            // Check that the worksheet autofilter doesn't overlap a table
-            // autofilter.
-            let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-            if let Some((filter_type, filter_range)) = filter_data {
-                if *filter_type == FilterType::Table {
-                    return Err(XlsxError::AutofilterRangeOverlaps(
-                        autofilter_area.to_error_string(),
-                        filter_range.to_error_string(),
-                    ));
-                }
-            }
-
             self.cells_with_autofilter.insert(
                 (first_row, col),
                 (FilterType::Worksheet, autofilter_area.clone()),
@@ -8802,6 +8811,48 @@ impl Worksheet {
         table.cell_range = CellRange::new(first_row, first_col, last_row, last_col);
         table.initialize_columns(&default_headers)?;
 
+        // Check that the header and total strings are < Excel limit of 32767 chars.
+        for column in &table.columns {
+            if column.name.chars().count() > MAX_STRING_LEN
+                || column.total_label.chars().count() > MAX_STRING_LEN
+            {
+                return Err(XlsxError::MaxStringLengthExceeded);
+            }
+        }
+
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the table range overlaps any previous table range. This is a
+        // major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        let new_index = self.table_ranges.len();
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.table_cells.get(&(row, col)) {
+                    let previous_cell_range = self.table_ranges.get(*index).unwrap();
+                    return Err(XlsxError::TableRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
+        // Check that the table autofilter doesn't overlap the worksheet
+        // autofilter.
+        if table.show_autofilter {
+            for col in first_col..=last_col {
+                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
+                if let Some((FilterType::Worksheet, filter_range)) = filter_data {
+                    return Err(XlsxError::AutofilterRangeOverlaps(
+                        table.cell_range.to_error_string(),
+                        filter_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         let first_data_row = table.first_data_row();
         let last_data_row = table.last_data_row();
 
@@ -8867,43 +8918,9 @@ impl Worksheet {
             self.set_writing_ahead(false);
         }
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the table range overlaps any previous table range. This is a
-        // major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
-        let new_index = self.table_ranges.len();
-        for row in first_row..=last_row {
-            for col in first_col..=last_col {
-                match self.table_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.table_ranges.get(*index).unwrap();
-                        return Err(XlsxError::TableRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.table_cells.insert((row, col), new_index),
-                };
-            }
-        }
-
         // Store the cells with the autofilter dropdown for the autofit calc.
         if table.show_autofilter {
             for col in first_col..=last_col {
-                // Check that the table autofilter doesn't overlap the worksheet
-                // autofilter.
-                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-                if let Some((filter_type, filter_range)) = filter_data {
-                    if *filter_type == FilterType::Worksheet {
-                        return Err(XlsxError::AutofilterRangeOverlaps(
-                            table.cell_range.to_error_string(),
-                            filter_range.to_error_string(),
-                        ));
-                    }
-                }
-
                 self.cells_with_autofilter.insert(
                     (first_row, col),
                     (FilterType::Table, table.cell_range.clone()),
@@ -8912,6 +8929,11 @@ impl Worksheet {
         }
 
         // Store the table if everything was okay.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                self.table_cells.insert((row, col), new_index);
+            }
+        }
         self.table_ranges.push(cell_range);
         self.tables.push(table);
 
-- 
2.43.0


From 43cd949b37d432de99c257bdf8d559d123f1ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 022/110] fix: require a data row in tables with total rows

---
 src/worksheet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e5c09ab..563e33a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8798,7 +8798,8 @@ impl Worksheet {
         }
 
         // Check that the table has at least one valid row.
-        if first_row == last_row && table.show_header_row {
+        let num_rows = last_row - first_row + 1;
+        if num_rows <= u32::from(table.show_header_row) + u32::from(table.show_total_row) {
             return Err(XlsxError::TableError(
                 "Table must have at least one row".to_string(),
             ));
-- 
2.43.0


From d9553a527923805878daee0161370a11c690657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 023/110] fix: refer to shared rich strings in low memory mode

---
 src/worksheet.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 563e33a..d8ffd3c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18809,16 +18809,29 @@ impl Worksheet {
                 }
 
                 CellType::RichString {
-                    string, xf_index, ..
+                    string,
+                    string_id,
+                    xf_index,
+                    ..
                 } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
-                    Self::write_inline_rich_string_cell(
-                        &mut self.file_writer,
-                        current_row + 1,
-                        col_name,
-                        string,
-                        xf_index,
-                    );
+                    if let Some(string_id) = string_id {
+                        Self::write_string_cell(
+                            &mut self.file_writer,
+                            current_row + 1,
+                            col_name,
+                            *string_id,
+                            xf_index,
+                        );
+                    } else {
+                        Self::write_inline_rich_string_cell(
+                            &mut self.file_writer,
+                            current_row + 1,
+                            col_name,
+                            string,
+                            xf_index,
+                        );
+                    }
                 }
 
                 CellType::InlineString {
-- 
2.43.0


From 2b1f7fad236888a8f976a6b330c0f559e29f3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 024/110] fix: escape literal _xHHHH_ strings in notes,
 validations, links, headers and tables

---
 src/comment.rs   | 13 +++++++----
 src/table.rs     | 13 ++++++++---
 src/worksheet.rs | 61 ++++++++++++++++++++++++++++++++++++------------
 3 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/comment.rs b/src/comment.rs
index 353f865..8e29d8f 100644
--- a/src/comment.rs
+++ b/src/comment.rs
@@ -10,8 +10,8 @@ use std::collections::BTreeMap;
 use std::io::Cursor;
 
 use crate::xmlwriter::{
-    xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only,
-    xml_end_tag, xml_start_tag, xml_start_tag_only,
+    escape_xml_escapes, xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag,
+    xml_empty_tag_only, xml_end_tag, xml_start_tag, xml_start_tag_only,
 };
 use crate::{utility, ColNum, Note, RowNum};
 
@@ -90,7 +90,7 @@ impl Comment {
 
     // Write the <author> element.
     fn write_author(&mut self, author: &str) {
-        xml_data_element_only(&mut self.writer, "author", author);
+        xml_data_element_only(&mut self.writer, "author", &escape_xml_escapes(author));
     }
 
     // Write the <commentList> element.
@@ -216,6 +216,11 @@ impl Comment {
             vec![]
         };
 
-        xml_data_element(&mut self.writer, "t", text, &attributes);
+        xml_data_element(
+            &mut self.writer,
+            "t",
+            &escape_xml_escapes(text),
+            &attributes,
+        );
     }
 }
diff --git a/src/table.rs b/src/table.rs
index b579f1b..8295b65 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -12,7 +12,8 @@ use std::io::Cursor;
 use std::{collections::HashSet, fmt};
 
 use crate::xmlwriter::{
-    xml_data_element_only, xml_declaration, xml_empty_tag, xml_end_tag, xml_start_tag,
+    escape_xml_escapes, xml_data_element_only, xml_declaration, xml_empty_tag, xml_end_tag,
+    xml_start_tag,
 };
 use crate::{utility::ToXmlBoolean, CellRange, Format, Formula, RowNum, XlsxError};
 
@@ -1269,10 +1270,16 @@ impl Table {
 
     // Write the <tableColumn> element.
     fn write_column(&mut self, index: usize, column: &TableColumn) {
-        let mut attributes = vec![("id", index.to_string()), ("name", column.name.clone())];
+        let mut attributes = vec![
+            ("id", index.to_string()),
+            ("name", escape_xml_escapes(&column.name).to_string()),
+        ];
 
         if !column.total_label.is_empty() {
-            attributes.push(("totalsRowLabel", column.total_label.clone()));
+            attributes.push((
+                "totalsRowLabel",
+                escape_xml_escapes(&column.total_label).to_string(),
+            ));
         } else if column.total_function != TableFunction::None {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index d8ffd3c..892ade5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1388,8 +1388,9 @@ use crate::shared_strings_table::SharedStringsTable;
 use crate::styles::Styles;
 use crate::vml::VmlInfo;
 use crate::xmlwriter::{
-    xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only,
-    xml_end_tag, xml_raw_string, xml_start_tag, xml_start_tag_only, XML_WRITE_ERROR,
+    escape_xml_escapes, xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag,
+    xml_empty_tag_only, xml_end_tag, xml_raw_string, xml_start_tag, xml_start_tag_only,
+    XML_WRITE_ERROR,
 };
 use crate::{
     utility, xmlwriter, Button, Chart, ChartEmptyCells, ChartRangeCacheData,
@@ -18163,19 +18164,31 @@ impl Worksheet {
         }
 
         if !data_validation.error_title.is_empty() {
-            attributes.push(("errorTitle", data_validation.error_title.clone()));
+            attributes.push((
+                "errorTitle",
+                escape_xml_escapes(&data_validation.error_title).to_string(),
+            ));
         }
 
         if !data_validation.error_message.is_empty() {
-            attributes.push(("error", data_validation.error_message.clone()));
+            attributes.push((
+                "error",
+                escape_xml_escapes(&data_validation.error_message).to_string(),
+            ));
         }
 
         if !data_validation.input_title.is_empty() {
-            attributes.push(("promptTitle", data_validation.input_title.clone()));
+            attributes.push((
+                "promptTitle",
+                escape_xml_escapes(&data_validation.input_title).to_string(),
+            ));
         }
 
         if !data_validation.input_message.is_empty() {
-            attributes.push(("prompt", data_validation.input_message.clone()));
+            attributes.push((
+                "prompt",
+                escape_xml_escapes(&data_validation.input_message).to_string(),
+            ));
         }
 
         attributes.push(("sqref", range.to_string()));
@@ -18224,19 +18237,31 @@ impl Worksheet {
         }
 
         if !data_validation.error_title.is_empty() {
-            attributes.push(("errorTitle", data_validation.error_title.clone()));
+            attributes.push((
+                "errorTitle",
+                escape_xml_escapes(&data_validation.error_title).to_string(),
+            ));
         }
 
         if !data_validation.error_message.is_empty() {
-            attributes.push(("error", data_validation.error_message.clone()));
+            attributes.push((
+                "error",
+                escape_xml_escapes(&data_validation.error_message).to_string(),
+            ));
         }
 
         if !data_validation.input_title.is_empty() {
-            attributes.push(("promptTitle", data_validation.input_title.clone()));
+            attributes.push((
+                "promptTitle",
+                escape_xml_escapes(&data_validation.input_title).to_string(),
+            ));
         }
 
         if !data_validation.input_message.is_empty() {
-            attributes.push(("prompt", data_validation.input_message.clone()));
+            attributes.push((
+                "prompt",
+                escape_xml_escapes(&data_validation.input_message).to_string(),
+            ));
         }
 
         attributes.push(("sqref", range.to_string()));
@@ -18275,7 +18300,10 @@ impl Worksheet {
                 }
 
                 if !hyperlink.tool_tip.is_empty() {
-                    attributes.push(("tooltip", hyperlink.tool_tip.to_string()));
+                    attributes.push((
+                        "tooltip",
+                        escape_xml_escapes(&hyperlink.tool_tip).to_string(),
+                    ));
                 }
 
                 // Store the linkage to the worksheets rels file.
@@ -18290,10 +18318,13 @@ impl Worksheet {
                 attributes.push(("location", hyperlink.anchor.to_string()));
 
                 if !hyperlink.tool_tip.is_empty() {
-                    attributes.push(("tooltip", hyperlink.tool_tip.to_string()));
+                    attributes.push((
+                        "tooltip",
+                        escape_xml_escapes(&hyperlink.tool_tip).to_string(),
+                    ));
                 }
 
-                attributes.push(("display", hyperlink.text.to_string()));
+                attributes.push(("display", escape_xml_escapes(&hyperlink.text).to_string()));
             }
             HyperlinkType::Unknown => {}
         }
@@ -19541,7 +19572,7 @@ impl Worksheet {
             .replace("&[Pages]", "&N")
             .replace("&[Picture]", "&G");
 
-        xml_data_element_only(&mut self.writer, "oddHeader", &header);
+        xml_data_element_only(&mut self.writer, "oddHeader", &escape_xml_escapes(&header));
     }
 
     // Write the <oddFooter> element.
@@ -19557,7 +19588,7 @@ impl Worksheet {
             .replace("&[Pages]", "&N")
             .replace("&[Picture]", "&G");
 
-        xml_data_element_only(&mut self.writer, "oddFooter", &footer);
+        xml_data_element_only(&mut self.writer, "oddFooter", &escape_xml_escapes(&footer));
     }
 
     // Write the <drawing> element.
-- 
2.43.0


From 7f892a4b0c4dd9a320a6a9dee8a87f2fbe865391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 025/110] fix: close each worksheet extension element

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 892ade5..761486d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19827,6 +19827,7 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_conditional_formattings();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
         // Write the x14:sparklineGroups element.
@@ -19840,10 +19841,9 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_sparkline_groups();
+            xml_end_tag(&mut self.writer, "ext");
         }
 
-        xml_end_tag(&mut self.writer, "ext");
-
         xml_end_tag(&mut self.writer, "extLst");
     }
 
-- 
2.43.0


From e9297ea61935b31996ae2872a46dc9093aa66388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 026/110] fix: keep the alt text of embedded images with the
 same data

---
 src/image.rs     | 6 ++++++
 src/workbook.rs  | 5 +++--
 src/worksheet.rs | 5 +++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 2f52c3a..60d649f 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -867,6 +867,12 @@ impl Image {
         self.vml_name.clone()
     }
 
+    // Key to identify duplicate embedded images. The description is stored with
+    // the image so it must also match.
+    pub(crate) fn embedded_key(&self) -> String {
+        format!("{}:{}:{}", self.hash, self.decorative, self.alt_text)
+    }
+
     // Check if the image scale has changed. Mainly used by header/footer VML.
     pub(crate) fn is_scaled(&self) -> bool {
         self.scale_height != 1.0 || self.scale_width != 1.0
diff --git a/src/workbook.rs b/src/workbook.rs
index 7cac27e..3e8b89c 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2265,12 +2265,13 @@ impl Workbook {
 
             let mut global_embedded_image_ids = vec![];
             for image in &worksheet.embedded_images {
-                let image_id = match image_ids.get(&image.hash) {
+                let image_key = image.embedded_key();
+                let image_id = match image_ids.get(&image_key) {
                     Some(image_id) => *image_id,
                     None => {
                         global_image_id += 1;
                         embedded_images.push(image.clone());
-                        image_ids.insert(image.hash.clone(), global_image_id);
+                        image_ids.insert(image_key, global_image_id);
                         global_image_id
                     }
                 };
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 761486d..be1cc4d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15449,11 +15449,12 @@ impl Worksheet {
         // Store any changes in the worksheet dimensions.
         self.check_dimensions(row, col);
 
-        let image_id = match self.embedded_image_ids.get(&image.hash) {
+        let image_key = image.embedded_key();
+        let image_id = match self.embedded_image_ids.get(&image_key) {
             Some(image_id) => *image_id,
             None => {
                 let image_id = self.embedded_image_ids.len() as u32;
-                self.embedded_image_ids.insert(image.hash.clone(), image_id);
+                self.embedded_image_ids.insert(image_key, image_id);
                 self.embedded_images.push(image.clone());
                 image_id
             }
-- 
2.43.0


From e4230feb1879f999f372e276679a37f9891b6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 027/110] fix: number header/footer images and shape links
 consistently with the package

---
 src/workbook.rs  |  6 +-----
 src/worksheet.rs | 10 +++++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 3e8b89c..e8bf53c 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2340,11 +2340,7 @@ impl Workbook {
             }
 
             if worksheet.has_header_footer_images() {
-                // The header/footer images are counted from the last worksheet id.
-                let base_image_id =
-                    background_image_ids.len() as u32 + worksheet_image_ids.len() as u32;
-
-                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, base_image_id);
+                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, &mut image_id);
             }
         }
     }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index be1cc4d..54023ce 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16339,7 +16339,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16388,16 +16388,16 @@ impl Worksheet {
     pub(crate) fn prepare_header_footer_images(
         &mut self,
         image_ids: &mut HashMap<String, u32>,
-        base_image_id: u32,
+        image_id: &mut u32,
     ) {
         let mut rel_ids: HashMap<String, u32> = HashMap::new();
         for image in self.header_footer_images.clone().into_iter().flatten() {
             let image_id = match image_ids.get(&image.hash) {
                 Some(image_id) => *image_id,
                 None => {
-                    let image_id = 1 + base_image_id + image_ids.len() as u32;
-                    image_ids.insert(image.hash.clone(), image_id);
-                    image_id
+                    *image_id += 1;
+                    image_ids.insert(image.hash.clone(), *image_id);
+                    *image_id
                 }
             };
 
-- 
2.43.0


From d7ca1e60d42bc788d925357c67d00efc5ce3aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 028/110] fix: keep table column formats and default names when
 a workbook is resaved

---
 src/table.rs     | 8 ++++++--
 src/worksheet.rs | 9 +++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 8295b65..d30f998 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -116,6 +116,7 @@ pub struct Table {
 
     pub(crate) index: u32,
     pub(crate) name: String,
+    pub(crate) has_default_name: bool,
     pub(crate) style: TableStyle,
 
     pub(crate) cell_range: CellRange,
@@ -203,6 +204,7 @@ impl Table {
             columns: vec![],
             index: 0,
             name: String::new(),
+            has_default_name: false,
             style: TableStyle::Medium9,
             cell_range: CellRange::default(),
             show_first_column: false,
@@ -1284,8 +1286,8 @@ impl Table {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
 
-        if let Some(format) = &column.format {
-            attributes.push(("dataDxfId", format.dxf_index.to_string()));
+        if column.format.is_some() {
+            attributes.push(("dataDxfId", column.global_dxf_index.to_string()));
         }
 
         if column.formula.is_some() || matches!(&column.total_function, TableFunction::Custom(_)) {
@@ -1427,6 +1429,7 @@ pub struct TableColumn {
     pub(crate) formula: Option<Formula>,
     pub(crate) format: Option<Format>,
     pub(crate) header_format: Option<Format>,
+    pub(crate) global_dxf_index: u32,
 }
 
 impl TableColumn {
@@ -1440,6 +1443,7 @@ impl TableColumn {
             formula: None,
             format: None,
             header_format: None,
+            global_dxf_index: 0,
         }
     }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 54023ce..fcbd354 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16599,14 +16599,15 @@ impl Worksheet {
     pub(crate) fn prepare_worksheet_tables(&mut self, mut table_id: u32) -> u32 {
         for table in &mut self.tables {
             table.index = table_id;
-            if table.name.is_empty() {
+            if table.name.is_empty() || table.has_default_name {
                 table.name = format!("Table{table_id}");
+                table.has_default_name = true;
             }
 
-            // Change any column format local index from local to global.
+            // Map any column format index from local to global.
             for column in &mut table.columns {
-                if let Some(format) = column.format.as_mut() {
-                    format.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
+                if let Some(format) = &column.format {
+                    column.global_dxf_index = self.global_dxf_indices[format.dxf_index as usize];
                 }
             }
 
-- 
2.43.0


From ea1311337234583a1dcc0d2e80e31ad9d7d64e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 029/110] fix: write a rich value for each key of embedded
 images with alt text

---
 src/rich_value.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rich_value.rs b/src/rich_value.rs
index 57c2e94..692fb2f 100644
--- a/src/rich_value.rs
+++ b/src/rich_value.rs
@@ -57,14 +57,18 @@ impl RichValue<'_> {
 
         xml_start_tag(&mut self.writer, "rvData", &attributes);
 
+        // Each value must match the keys in the rich value structure, which has
+        // a Text key if any of the images has a description.
+        let has_descriptions = self.embedded_images.iter().any(|i| !i.alt_text.is_empty());
+
         for (index, image) in self.embedded_images.iter().enumerate() {
             // Write the <rv> element.
-            self.write_rv(index, image);
+            self.write_rv(index, image, has_descriptions);
         }
     }
 
     // Write the <rv> element.
-    fn write_rv(&mut self, index: usize, image: &Image) {
+    fn write_rv(&mut self, index: usize, image: &Image, has_descriptions: bool) {
         let attributes = [("s", "0")];
         let mut value = "5";
 
@@ -78,7 +82,7 @@ impl RichValue<'_> {
         self.write_v(&index.to_string());
         self.write_v(value);
 
-        if !image.alt_text.is_empty() {
+        if has_descriptions {
             self.write_v(&image.alt_text);
         }
 
-- 
2.43.0


From e23b507f8cd971eb4cbcd2be541b88eb73b1f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 030/110] fix: order the marker after the shape properties in
 scatter series

---
 src/chart.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 73b8b82..a9c5ceb 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3881,13 +3881,6 @@ impl Chart {
 
             self.write_series_title(&series.title);
 
-            if let Some(marker) = &series.marker {
-                if !marker.automatic {
-                    // Write the c:marker element.
-                    self.write_marker(marker);
-                }
-            }
-
             // Add default scatter line formatting to the series data unless it
             // has already been specified by the user.
             if self.chart_type == ChartType::Scatter && series.format.line.is_none() {
@@ -3899,6 +3892,13 @@ impl Chart {
             // Write the c:spPr formatting element.
             self.write_sp_pr(&series.format);
 
+            if let Some(marker) = &series.marker {
+                if !marker.automatic {
+                    // Write the c:marker element.
+                    self.write_marker(marker);
+                }
+            }
+
             // Write the point formatting for the series.
             if !series.points.is_empty() {
                 self.write_d_pt(&series.points, max_points);
-- 
2.43.0


From 8bf55e169fc83c3183da2a65fe381a204d8183a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 031/110] fix: do not write category axis intervals in date
 axes

---
 src/chart.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index a9c5ceb..e143f9d 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4375,16 +4375,6 @@ impl Chart {
         // Write the c:lblOffset element.
         self.write_lbl_offset();
 
-        // Write the c:tickLblSkip element.
-        if x_axis.label_interval > 1 {
-            self.write_tick_lbl_skip(x_axis.label_interval);
-        }
-
-        // Write the c:tickMarkSkip element.
-        if x_axis.tick_interval > 1 {
-            self.write_tick_mark_skip(x_axis.tick_interval);
-        }
-
         // Write the c:majorUnit element.
         if !x_axis.major_unit.is_empty() {
             self.write_major_unit(&x_axis.major_unit);
-- 
2.43.0


From 26bff52eaa4928259f6b325fe855d574e2164068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 032/110] fix: order the empty shape properties of custom data
 labels after the text

---
 src/chart.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index e143f9d..16ca447 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5033,15 +5033,6 @@ impl Chart {
                 // Write the c:delete element.
                 self.write_delete();
             } else {
-                // Add empty "c:spPr", as required, for Excel compatibility.
-                if !data_label.format.has_formatting() {
-                    if let Some(font) = &data_label.font {
-                        if font.color.is_auto_or_default() {
-                            xml_empty_tag_only(&mut self.writer, "c:spPr");
-                        }
-                    }
-                }
-
                 // If a custom point has a font then it may need to be applied
                 // to the title and/or the label.
                 let mut data_label = data_label.clone();
@@ -5096,6 +5087,14 @@ impl Chart {
         self.write_sp_pr(&data_label.format);
 
         if let Some(font) = &data_label.font {
+            // Add empty "c:spPr", as required, for Excel compatibility.
+            if data_label.is_custom
+                && !data_label.format.has_formatting()
+                && font.color.is_auto_or_default()
+            {
+                xml_empty_tag_only(&mut self.writer, "c:spPr");
+            }
+
             // Write the c:txPr element.
             self.write_tx_pr(&font.clone(), false);
         }
-- 
2.43.0


From 549cb0766d42d7539b025aa65145355f473919e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 033/110] fix: correct the name of the two digit text year
 ignored error

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index fcbd354..2b6b81a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -20939,7 +20939,7 @@ impl fmt::Display for IgnoreError {
         match self {
             Self::FormulaError => write!(f, "evalError"),
             Self::FormulaDiffers => write!(f, "formula"),
-            Self::TwoDigitTextYear => write!(f, "TwoDigitTextYear"),
+            Self::TwoDigitTextYear => write!(f, "twoDigitTextYear"),
             Self::FormulaOmitsCells => write!(f, "formulaRange"),
             Self::DataValidationError => write!(f, "listDataValidation"),
             Self::NumberStoredAsText => write!(f, "numberStoredAsText"),
-- 
2.43.0


From 01eb13e540ef5742b25b3f7fde51ab5867bab3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 034/110] fix: write the first page number in its own attribute

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2b6b81a..6c58f7f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18383,6 +18383,10 @@ impl Worksheet {
             attributes.push(("scale", self.print_scale.to_string()));
         }
 
+        if self.first_page_number > 1 {
+            attributes.push(("firstPageNumber", self.first_page_number.to_string()));
+        }
+
         if self.fit_to_page {
             if self.fit_width != 1 {
                 attributes.push(("fitToWidth", self.fit_width.to_string()));
@@ -18403,7 +18407,7 @@ impl Worksheet {
         }
 
         if self.first_page_number > 0 {
-            attributes.push(("useFirstPageNumber", self.first_page_number.to_string()));
+            attributes.push(("useFirstPageNumber", "1".to_string()));
         }
 
         if self.print_black_and_white {
-- 
2.43.0


From aea0c5ae157bc7bc23ae39e63688c84435e10a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 035/110] fix: use the same order for x14 and standard
 conditional formats

---
 src/worksheet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6c58f7f..051a055 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18067,12 +18067,17 @@ impl Worksheet {
         let mut guid_index = 1;
         let mut priority = 1;
 
-        for (cell_range, conditionals_for_range) in &self.conditional_formats {
+        // The order must match the order of the main conditional formats so that
+        // the priorities and GUIDs refer to the same rules.
+        for cell_range in &self.conditional_format_order {
+            let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
+
             // Only create an entry if range contains a x14 style conditional.
             if !conditionals_for_range
                 .iter()
                 .any(|rule| rule.has_x14_extensions())
             {
+                priority += conditionals_for_range.len() as u32;
                 continue;
             }
 
-- 
2.43.0


From 79d9bd2c36440f8ef2573181551ccc283796ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 036/110] fix: order the sheet properties elements as in the
 schema

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 051a055..adda450 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17704,15 +17704,15 @@ impl Worksheet {
         {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
 
-            // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
-
             // Write the tabColor element.
             self.write_tab_color();
 
             // Write the outlinePr element.
             self.write_outline_pr();
 
+            // Write the pageSetUpPr element.
+            self.write_page_set_up_pr();
+
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
             xml_empty_tag(&mut self.writer, "sheetPr", &attributes);
-- 
2.43.0


From 28a80517e040a7afe0da5df12781b23b5b64126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 037/110] fix: keep the authors of notes in the order of their
 ids

---
 src/packager.rs  | 6 +++++-
 src/worksheet.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index bdda890..56a5362 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -897,7 +897,11 @@ impl<W: Write + Seek + Send> Packager<W> {
 
                 let mut comment = Comment::new();
                 comment.notes = worksheet.notes.clone();
-                comment.note_authors = worksheet.note_authors.keys().cloned().collect();
+
+                // The notes refer to the authors by their index.
+                let mut authors: Vec<_> = worksheet.note_authors.iter().collect();
+                authors.sort_by_key(|(_, id)| **id);
+                comment.note_authors = authors.into_iter().map(|(name, _)| name.clone()).collect();
 
                 comment.assemble_xml_file();
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index adda450..f9fd148 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16448,6 +16448,9 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
+        // Keep the default author only, the others are added below.
+        self.note_authors.retain(|_, id| *id == 0);
+
         // Modify Note visibility and author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-- 
2.43.0


From d1f7d979bf317240ce3f7ad23c9c410140a9e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 038/110] fix: don't carry bar gaps and overlaps over to other
 axes or saves

---
 src/chart.rs | 55 +++++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 16ca447..d7b4497 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -846,7 +846,6 @@ pub struct Chart {
     show_na_as_empty: bool,
     default_num_format: String,
     overlap: Option<i8>,
-    gap: u16,
     style: u8,
     hole_size: u8,
     rotation: u16,
@@ -962,7 +961,6 @@ impl Chart {
             show_na_as_empty: false,
             default_num_format: "General".to_string(),
             overlap: None,
-            gap: 150,
             style: 2,
             hole_size: 50,
             rotation: 0,
@@ -3158,6 +3156,23 @@ impl Chart {
         xml_end_tag(&mut self.writer, "c:areaChart");
     }
 
+    // Write the bar gap and overlap for the series on the same axis. The last
+    // series that sets one of them applies to all of them.
+    fn write_bar_spacing(&mut self, series: &[ChartSeries]) {
+        let gap = series.iter().rev().map(|s| s.gap).find(|gap| *gap != 150);
+        let overlap = series.iter().rev().find_map(|s| s.overlap);
+
+        if let Some(gap) = gap {
+            // Write the c:gapWidth element.
+            self.write_gap_width(gap);
+        }
+
+        if let Some(overlap) = overlap.or(self.overlap) {
+            // Write the c:overlap element.
+            self.write_overlap(overlap);
+        }
+    }
+
     // Write the <c:barChart> element for Bar charts.
     fn write_bar_chart(&mut self, primary_axis: bool) {
         let series = self.get_series(primary_axis);
@@ -3177,13 +3192,8 @@ impl Chart {
         // Write the c:ser elements.
         self.write_series(&series);
 
-        if self.gap != 150 {
-            // Write the c:gapWidth element.
-            self.write_gap_width(self.gap);
-        }
-
-        // Write the c:overlap element.
-        self.write_overlap();
+        // Write the c:gapWidth and c:overlap elements.
+        self.write_bar_spacing(&series);
 
         // Write the c:axId elements.
         self.write_ax_ids(primary_axis);
@@ -3210,13 +3220,8 @@ impl Chart {
         // Write the c:ser elements.
         self.write_series(&series);
 
-        if self.gap != 150 {
-            // Write the c:gapWidth element.
-            self.write_gap_width(self.gap);
-        }
-
-        // Write the c:overlap element.
-        self.write_overlap();
+        // Write the c:gapWidth and c:overlap elements.
+        self.write_bar_spacing(&series);
 
         // Write the c:axId elements.
         self.write_ax_ids(primary_axis);
@@ -3772,16 +3777,6 @@ impl Chart {
 
             xml_start_tag_only(&mut self.writer, "c:ser");
 
-            // Copy a series overlap to the parent chart.
-            if series.overlap.is_some() {
-                self.overlap = series.overlap;
-            }
-
-            // Copy a series gap to the parent chart.
-            if series.gap != 150 {
-                self.gap = series.gap;
-            }
-
             // Write the c:idx element.
             self.write_idx(self.series_index);
 
@@ -6178,12 +6173,10 @@ impl Chart {
     }
 
     // Write the <c:overlap> element.
-    fn write_overlap(&mut self) {
-        if let Some(overlap) = &self.overlap {
-            let attributes = [("val", overlap.to_string())];
+    fn write_overlap(&mut self, overlap: i8) {
+        let attributes = [("val", overlap.to_string())];
 
-            xml_empty_tag(&mut self.writer, "c:overlap", &attributes);
-        }
+        xml_empty_tag(&mut self.writer, "c:overlap", &attributes);
     }
 
     // Write the <c:smooth> element.
-- 
2.43.0


From ecf26fe7f4cd92c7ac55cf47aa8f26405682ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 039/110] fix: keep cell formats set ahead of the current row
 in constant memory mode

---
 src/worksheet.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f9fd148..2098b05 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15622,7 +15622,27 @@ impl Worksheet {
     // Insert a cell format value into the worksheet data table structure. This
     // function creates a new blank cell if no other cell value exists.
     fn insert_cell_format(&mut self, row: RowNum, col: ColNum, format_id: u32) {
-        match self.data_table.entry(row) {
+        let mut data_table = &mut self.data_table;
+
+        if self.use_constant_memory {
+            #[cfg(feature = "constant_memory")]
+            {
+                // Ignore already flushed/written rows.
+                if row < self.current_row {
+                    eprintln!(
+                        "Ignoring format in previously written row {row} in 'constant memory' mode."
+                    );
+                    return;
+                }
+
+                // Store formats for later rows in the write-ahead buffer.
+                if row > self.current_row {
+                    data_table = &mut self.write_ahead;
+                }
+            }
+        }
+
+        match data_table.entry(row) {
             Entry::Occupied(mut entry) => {
                 // The row already exists.
                 let columns = entry.get_mut();
-- 
2.43.0


From f6a85adc78f38ae895525b7f71e4dcfe21183a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 040/110] fix: treat links the same in constant memory mode

---
 src/worksheet.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2098b05..9afdbe5 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15420,6 +15420,12 @@ impl Worksheet {
             }
         };
 
+        // The string isn't written to previously written rows in constant memory
+        // mode so don't add a link either.
+        if self.use_constant_memory && row < self.current_row {
+            return Ok(self);
+        }
+
         self.hyperlinks.insert((row, col), hyperlink);
 
         Ok(self)
@@ -18837,6 +18843,20 @@ impl Worksheet {
 
         // The row has data. Write it out cell by cell.
         self.write_constant_table_row(current_row, row_options, true);
+        for (&col_num, cell) in columns {
+            // Check for urls in cells that were overwritten, see write_hyperlink().
+            if !self.hyperlinks.is_empty()
+                && !matches!(
+                    cell,
+                    CellType::String { .. } | CellType::InlineString { .. }
+                )
+            {
+                if let Some(hyperlink) = self.hyperlinks.get_mut(&(current_row, col_num)) {
+                    hyperlink.is_object_link = true;
+                }
+            }
+        }
+
         for (&col_num, cell) in columns {
             let col_name = if col_num < 26 {
                 &COLUMN_LETTERS[col_num as usize..(col_num + 1) as usize]
-- 
2.43.0


From 0f2b8f857f65aa1fab10679089cf0b8953f0f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 041/110] fix: clear and format cells ahead of the current row
 in constant memory mode

---
 src/worksheet.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9afdbe5..2f13b3b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15698,7 +15698,7 @@ impl Worksheet {
     // Update the format index in a worksheet cell. This function ignores
     // non-existing cells (unlike the previous function).
     fn update_cell_format(&mut self, row: RowNum, col: ColNum, format_id: u32) {
-        let Some(columns) = self.data_table.get_mut(&row) else {
+        let Some(columns) = self.stored_row_mut(row) else {
             return;
         };
 
@@ -15725,13 +15725,24 @@ impl Worksheet {
     // Clear the data and formatting from a worksheet cell. Ignores non-existing
     // cells.
     fn clear_cell_internal(&mut self, row: RowNum, col: ColNum) {
-        let Some(columns) = self.data_table.get_mut(&row) else {
+        let Some(columns) = self.stored_row_mut(row) else {
             return;
         };
 
         columns.remove(&col);
     }
 
+    // Get the stored cells of a row, if any. In constant memory mode the cells
+    // of later rows are stored in the write-ahead buffer.
+    fn stored_row_mut(&mut self, row: RowNum) -> Option<&mut BTreeMap<ColNum, CellType>> {
+        #[cfg(feature = "constant_memory")]
+        if self.use_constant_memory && row > self.current_row {
+            return self.write_ahead.get_mut(&row);
+        }
+
+        self.data_table.get_mut(&row)
+    }
+
     // Clear the formatting from a worksheet cell. Ignores non-existing cells.
     fn clear_cell_format_internal(&mut self, row: RowNum, col: ColNum) {
         self.update_cell_format(row, col, 0);
@@ -17484,8 +17495,15 @@ impl Worksheet {
         // Write the cols element.
         self.write_cols();
 
+        // In constant memory mode there may also be cells stored for later rows.
+        #[cfg(feature = "constant_memory")]
+        let has_later_rows = !self.write_ahead.is_empty();
+        #[cfg(not(feature = "constant_memory"))]
+        let has_later_rows = false;
+
         // Write the <sheetData> element.
         if !self.has_sheet_data
+            && !has_later_rows
             && self.data_table.is_empty()
             && self.notes.is_empty()
             && self.changed_rows.is_empty()
-- 
2.43.0


From 9888140583e63feec5b6b1634a7738bc4039e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 042/110] fix: evaluate autofilters again on each save

---
 src/workbook.rs  | 14 +++++++++++++-
 src/worksheet.rs | 31 +++++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index e8bf53c..e5f9cf1 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2029,11 +2029,23 @@ impl Workbook {
         }
     }
 
+    // Internal function to save the workbook and to undo any changes that are
+    // only required during the save.
+    fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+        let result = self.assemble_workbook(writer);
+
+        for worksheet in &mut self.worksheets {
+            worksheet.restore_autofilter_rows();
+        }
+
+        result
+    }
+
     // Internal function to prepare the workbook and other component files for
     // writing to the xlsx file.
     #[allow(clippy::similar_names)]
     #[allow(clippy::too_many_lines)]
-    fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+    fn assemble_workbook<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
         // Reset workbook and worksheet state data between saves.
         self.reset();
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2f13b3b..bb90a98 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1560,6 +1560,7 @@ pub struct Worksheet {
     global_xf_indices: Vec<u32>,
     global_dxf_indices: Vec<u32>,
     changed_rows: HashMap<RowNum, RowOptions>,
+    rows_before_filter: HashMap<RowNum, Option<RowOptions>>,
     changed_cols: HashMap<ColNum, ColOptions>,
     page_setup_changed: bool,
     tab_color: Color,
@@ -1763,6 +1764,7 @@ impl Worksheet {
             global_xf_indices: vec![],
             global_dxf_indices: vec![],
             changed_rows: HashMap::new(),
+            rows_before_filter: HashMap::new(),
             changed_cols: HashMap::new(),
             page_setup_changed: false,
             fit_to_page: false,
@@ -14772,6 +14774,8 @@ impl Worksheet {
     // Hide any rows in the autofilter range that don't match the autofilter
     // conditions, like Excel does at runtime.
     pub(crate) fn hide_autofilter_rows(&mut self) {
+        self.rows_before_filter.clear();
+
         if self.filter_conditions.is_empty() || self.filter_automatic_off {
             return;
         }
@@ -14787,18 +14791,41 @@ impl Worksheet {
                 if filter_condition.is_list_filter {
                     // Handle list filters.
                     if !self.row_matches_list_filter(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_autofilter_row(row_num);
                     }
                 } else {
                     // Handle custom filters.
                     if !self.row_matches_custom_filters(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_autofilter_row(row_num);
                     }
                 }
             }
         }
     }
 
+    // Hide a row that doesn't match an autofilter and store its previous state.
+    fn hide_autofilter_row(&mut self, row: RowNum) {
+        let previous = self.changed_rows.get(&row).cloned();
+        self.rows_before_filter.entry(row).or_insert(previous);
+
+        self.set_row_hidden(row).unwrap();
+    }
+
+    // Restore the rows hidden by an autofilter, after saving. The filters are
+    // evaluated again, with any new data or conditions, in the next save.
+    pub(crate) fn restore_autofilter_rows(&mut self) {
+        for (row, row_options) in mem::take(&mut self.rows_before_filter) {
+            match row_options {
+                Some(row_options) => {
+                    self.changed_rows.insert(row, row_options);
+                }
+                None => {
+                    self.changed_rows.remove(&row);
+                }
+            }
+        }
+    }
+
     // Check if the data in a cell matches one of the values in the list of
     // filter conditions (which in the list filter case is a list of strings or
     // number values).
-- 
2.43.0


From 978df28d411cbdd658dea19dbb8251f3515e74bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 043/110] fix: don't panic on empty page breaks or defined
 names

---
 src/workbook.rs  | 2 +-
 src/worksheet.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index e5f9cf1..3f79c35 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1552,7 +1552,7 @@ impl Workbook {
 
         // Excel requires that the name starts with a letter or underscore.
         // Also, backspace is allowed but undocumented by Excel.
-        if !defined_name.name.chars().next().unwrap().is_alphabetic()
+        if !defined_name.name.starts_with(char::is_alphabetic)
             && !defined_name.name.starts_with('_')
             && !defined_name.name.starts_with('\\')
         {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index bb90a98..a200ea0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12877,7 +12877,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel column limit.
-        if *breaks.last().unwrap() >= ROW_MAX {
+        if matches!(breaks.last(), Some(&last) if last >= ROW_MAX) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -12917,7 +12917,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel col limit.
-        if *breaks.last().unwrap() >= u32::from(COL_MAX) {
+        if matches!(breaks.last(), Some(&last) if last >= u32::from(COL_MAX)) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15024,7 +15024,7 @@ impl Worksheet {
         breaks.sort_unstable();
 
         // Remove invalid 0 row/col.
-        if breaks[0] == 0 {
+        if breaks.first() == Some(&0) {
             breaks.remove(0);
         }
 
-- 
2.43.0


From a0f843690f7356db5dd734cdec00527acbdfd9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 044/110] fix: accept the highest trendline order and period

---
 src/chart.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index d7b4497..45e6c0e 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2719,7 +2719,7 @@ impl Chart {
 
             // Validate Polynomial trendline range.
             if let ChartTrendlineType::Polynomial(order) = series.trendline.trend_type {
-                if !(2..6).contains(&order) {
+                if !(2..=6).contains(&order) {
                     return Err(XlsxError::ChartError(
                         "Chart series Polynomial trendline order must be in the Excel range 2-6"
                             .to_string(),
@@ -2729,7 +2729,7 @@ impl Chart {
 
             // Validate Moving Average trendline range.
             if let ChartTrendlineType::MovingAverage(period) = series.trendline.trend_type {
-                if !(2..4).contains(&period) {
+                if !(2..=4).contains(&period) {
                     return Err(XlsxError::ChartError(
                         "Chart series Moving Average trendline period must be in the Excel range 2-4"
                             .to_string(),
-- 
2.43.0


From a1220443dd75bc80e222840205dfbb275ffc605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 045/110] fix: check the last column of a range before changing
 the others

---
 src/worksheet.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a200ea0..112923c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8202,6 +8202,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the last column before changing any of the others.
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         let width = width.into();
         for col_num in first_col..=last_col {
             self.set_column_width(col_num, width)?;
@@ -8240,6 +8245,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the last column before changing any of the others.
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_width_pixels(col_num, width)?;
         }
@@ -8323,6 +8333,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the last column before changing any of the others.
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_format(col_num, format)?;
         }
@@ -8358,6 +8373,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the last column before changing any of the others.
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_hidden(col_num)?;
         }
-- 
2.43.0


From 9744005223c315240eaef76e1a50bfbe8db3918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 046/110] fix: don't keep drawing objects of a failed save

---
 src/drawing.rs   | 2 +-
 src/worksheet.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 90cdda7..5f07727 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -22,7 +22,7 @@ pub struct Drawing {
     pub(crate) writer: Cursor<Vec<u8>>,
     pub(crate) drawings: Vec<DrawingInfo>,
     pub(crate) shapes: Vec<Shape>,
-    shape_id: usize,
+    pub(crate) shape_id: usize,
 }
 
 impl Drawing {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 112923c..4d8037b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16953,6 +16953,10 @@ impl Worksheet {
         self.drawing_rel_ids.clear();
         self.drawing_relationships.clear();
         self.drawing.drawings.clear();
+        self.drawing.shapes.clear();
+        self.drawing.shape_id = 0;
+        self.buttons_vml_info.clear();
+        self.comments_vml_info.clear();
         self.header_footer_vml_info.clear();
         self.hyperlink_relationships.clear();
         self.table_relationships.clear();
-- 
2.43.0


From c66421204e63b909987e48555932e6d918fbef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 047/110] fix: recognise every %xx escape when deciding whether
 a URL is already escaped

---
 src/url.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index 8d24eec..7ace07a 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -532,22 +532,9 @@ impl Url {
             return false;
         }
 
-        url.as_bytes().windows(3).any(|w| {
-            matches!(
-                w,
-                b"%25"
-                    | b"%22"
-                    | b"%20"
-                    | b"%3c"
-                    | b"%3e"
-                    | b"%5b"
-                    | b"%5d"
-                    | b"%5e"
-                    | b"%60"
-                    | b"%7b"
-                    | b"%7d"
-            )
-        })
+        url.as_bytes()
+            .windows(3)
+            .any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit())
     }
 }
 
-- 
2.43.0


From 1383e88827cc0d57f92cadfc6dc28aab0efbf5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 048/110] fix: match numbers and datetimes in the non-blanks
 and numeric custom filters

---
 src/worksheet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4d8037b..da32a1e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14998,7 +14998,7 @@ impl Worksheet {
                             }
                         }
                     }
-                    CellType::Number { number, .. } => {
+                    CellType::Number { number, .. } | CellType::DateTime { number, .. } => {
                         if filter.data_type == FilterDataType::Number {
                             match filter.criteria {
                                 FilterCriteria::EqualTo => return *number == filter.number,
@@ -15014,6 +15014,11 @@ impl Worksheet {
                                 _ => {}
                             }
                         }
+
+                        // Numbers are non-blank cells, see below.
+                        if filter.criteria == FilterCriteria::NotEqualTo && filter.string == " " {
+                            return true;
+                        }
                     }
                     CellType::Blank { .. } => {
                         // We need to handle "match non-blanks" as a special condition.
-- 
2.43.0


From d6d415a70bdc8a9469c8e5bd2df375250d64a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 049/110] fix: split local defined names at the last
 exclamation mark

---
 src/workbook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 3f79c35..78f68fb 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1538,7 +1538,7 @@ impl Workbook {
         let name = name.into();
 
         // Match Global/Workbook or Local/Worksheet defined names.
-        match name.find('!') {
+        match name.rfind('!') {
             Some(position) => {
                 defined_name.quoted_sheet_name = name[0..position].to_string();
                 defined_name.name = name[position + 1..].to_string();
-- 
2.43.0


From 00cfeb3dd4b192b7c4db974f5e2265e421a3e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:57 +0000
Subject: [PATCH 050/110] fix: clear the print area when it is set to the whole
 worksheet

---
 src/worksheet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index da32a1e..e8eea51 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14127,8 +14127,9 @@ impl Worksheet {
         }
 
         // The print range is the entire worksheet, therefore it is the same
-        // as the default, so we can ignore it.
+        // as the default, so we only need to remove any previous print area.
         if first_row == 0 && first_col == 0 && last_row == ROW_MAX - 1 && last_col == COL_MAX - 1 {
+            self.print_area_defined_name.in_use = false;
             return Ok(self);
         }
 
-- 
2.43.0


From 390fcbe126d5c310e09bef4643c621be90995803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 051/110] fix: split chart ranges at the last exclamation mark

---
 src/chart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 45e6c0e..e43711f 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8355,7 +8355,7 @@ impl ChartRange {
         let mut last_col = 0;
 
         // Parse the chart range string into the worksheet name and range parts.
-        if let Some(position) = range_string.find('!') {
+        if let Some(position) = range_string.rfind('!') {
             let range = &range_string[position + 1..].replace('$', "");
 
             if utility::is_valid_range(range) {
-- 
2.43.0


From e1d7b2db464384a89e3e0f94d30d9e7adb44a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 052/110] fix: don't panic on truncated image data

---
 src/image.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 60d649f..f5ddcb6 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -903,10 +903,10 @@ impl Image {
     fn process_image(&mut self) -> Result<(), XlsxError> {
         let data = self.data.clone();
 
-        let png_marker = &data[1..4];
+        let png_marker = data.get(1..4).unwrap_or_default();
         let jpg_marker = unpack_u16_from_be_bytes(&data, 0);
-        let bmp_marker = &data[0..2];
-        let gif_marker = &data[0..4];
+        let bmp_marker = data.get(0..2).unwrap_or_default();
+        let gif_marker = data.get(0..4).unwrap_or_default();
 
         if png_marker == "PNG".as_bytes() {
             self.process_png(&data);
@@ -948,7 +948,7 @@ impl Image {
         // Search through the image data to read the height and width in the
         // IHDR element. Also read the DPI in the pHYs element, if present.
         while offset < data_length {
-            let marker = &data[offset + 4..offset + 8];
+            let marker = data.get(offset + 4..offset + 8).unwrap_or_default();
             let length = unpack_u32_from_be_bytes(data, offset);
 
             // Read the image dimensions.
@@ -959,11 +959,11 @@ impl Image {
 
             // Read the image DPI values.
             if marker == "pHYs".as_bytes() {
-                let units = &data[offset + 16];
+                let units = data.get(offset + 16).copied().unwrap_or_default();
                 let x_density = unpack_u32_from_be_bytes(data, offset + 8);
                 let y_density = unpack_u32_from_be_bytes(data, offset + 12);
 
-                if *units == 1 && x_density > 0 && y_density > 0 {
+                if units == 1 && x_density > 0 && y_density > 0 {
                     width_dpi = f64::from(x_density) * 0.0254;
                     height_dpi = f64::from(y_density) * 0.0254;
                     self.has_default_dpi = false;
@@ -1012,16 +1012,16 @@ impl Image {
 
             // Read the DPI in the 0xFFE0 element.
             if marker == 0xFFE0 {
-                let units = &data[offset + 11];
+                let units = data.get(offset + 11).copied().unwrap_or_default();
                 let x_density = unpack_u16_from_be_bytes(data, offset + 12);
                 let y_density = unpack_u16_from_be_bytes(data, offset + 14);
 
-                if *units == 1 {
+                if units == 1 {
                     width_dpi = f64::from(x_density);
                     height_dpi = f64::from(y_density);
                 }
 
-                if *units == 2 {
+                if units == 2 {
                     width_dpi = f64::from(x_density) * 2.54;
                     height_dpi = f64::from(y_density) * 2.54;
                     self.has_default_dpi = false;
@@ -1191,19 +1191,26 @@ impl XlsxImageType {
     }
 }
 
-// Some helper functions to extract 2 and 4 byte integers from image data.
+// Some helper functions to extract 2 and 4 byte integers from image data. They
+// return 0 for data that is past the end of a truncated image.
+fn unpack_bytes<const N: usize>(data: &[u8], offset: usize) -> [u8; N] {
+    data.get(offset..offset + N)
+        .and_then(|bytes| bytes.try_into().ok())
+        .unwrap_or([0; N])
+}
+
 fn unpack_u16_from_be_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_be_bytes(data[offset..offset + 2].try_into().unwrap())
+    u16::from_be_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u16_from_le_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_le_bytes(data[offset..offset + 2].try_into().unwrap())
+    u16::from_le_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u32_from_be_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_be_bytes(data[offset..offset + 4].try_into().unwrap())
+    u32::from_be_bytes(unpack_bytes(data, offset))
 }
 
 fn unpack_u32_from_le_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
+    u32::from_le_bytes(unpack_bytes(data, offset))
 }
-- 
2.43.0


From e76ebf15764d735b586cf79fc70403972d5f5a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:03 +0000
Subject: [PATCH 053/110] fix: unescape doubled quotes in the sheet name of
 chart range strings

---
 src/chart.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index e43711f..0195d22 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8402,12 +8402,10 @@ impl ChartRange {
         }
 
         // Strip the quotes from quoted sheet names.
-        if sheet_name.starts_with('\'') && sheet_name.ends_with('\'') {
-            sheet_name = &sheet_name[1..sheet_name.len() - 1];
-        }
+        let sheet_name = utility::unquote_sheetname(sheet_name);
 
         ChartRange {
-            sheet_name: sheet_name.to_string(),
+            sheet_name,
             first_row,
             first_col,
             last_row,
-- 
2.43.0


From 6902e9468d0e29b424ff7c8c5e4dfe147602dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 054/110] fix: keep the anchor of relative file links of images
 and shapes

---
 src/url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/url.rs b/src/url.rs
index 7ace07a..440cec0 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -439,6 +439,9 @@ impl Url {
                 self.text = link_path;
             }
 
+            // Relative links from objects use forward slashes.
+            let object_link = self.link.replace('\\', "/");
+
             // Split the URL into URL + #anchor if that exists.
             let parts: Vec<&str> = self.link.splitn(2, '#').collect();
             if parts.len() == 2 {
@@ -450,7 +453,7 @@ impl Url {
             // anchor unless it is a link from an object like an image.
             if self.is_object_link {
                 if is_relative_path {
-                    self.relationship_link = self.link.replace('\\', "/");
+                    self.relationship_link = object_link;
                 } else {
                     self.relationship_link.clone_from(&self.original_url);
                 }
-- 
2.43.0


From 51471c50a72291ace7bde1d488fad7f834a8433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 055/110] fix: keep links of images apart when they differ in
 the anchor only

---
 src/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e8eea51..03856bf 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16335,11 +16335,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_rel_ids.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
@@ -16426,11 +16426,11 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                let rel_id = match self.drawing_rel_ids.get(&target) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(target.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
-- 
2.43.0


From e89ef731ab50c599b504d08182d7c971fe22191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 056/110] fix: escape quotes and count characters in text
 conditional format formulas

---
 src/conditional_format.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 3fa5a8a..d4e15b6 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3005,20 +3005,24 @@ impl ConditionalFormatText {
         // Set the rule attributes based on the criteria.
         let formula = match rule {
             ConditionalFormatTextRule::Contains(text) => {
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "containsText".to_string()));
                 format!(r#"NOT(ISERROR(SEARCH("{text}",{anchor})))"#)
             }
             ConditionalFormatTextRule::DoesNotContain(text) => {
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "notContainsText".to_string()));
                 format!(r#"ISERROR(SEARCH("{text}",{anchor}))"#)
             }
             ConditionalFormatTextRule::BeginsWith(text) => {
-                let length = text.len();
+                let length = text.encode_utf16().count();
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "beginsWith".to_string()));
                 format!(r#"LEFT({anchor},{length})="{text}""#)
             }
             ConditionalFormatTextRule::EndsWith(text) => {
-                let length = text.len();
+                let length = text.encode_utf16().count();
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "endsWith".to_string()));
                 format!(r#"RIGHT({anchor},{length})="{text}""#)
             }
-- 
2.43.0


From c9777895356b9aa96fa637defc789b4c68be5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 057/110] fix: write data bar negative border color when it
 only matches the fill color

---
 src/conditional_format.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index d4e15b6..a0ed6d4 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -5416,7 +5416,7 @@ impl ConditionalFormatDataBar {
             );
         }
 
-        if !self.border_off && self.fill_color != self.negative_border_color {
+        if self.has_negative_border_color() {
             Self::write_color(
                 &mut writer,
                 "x14:negativeBorderColor",
@@ -5434,6 +5434,14 @@ impl ConditionalFormatDataBar {
         cursor_to_string(&writer)
     }
 
+    // Check if the negative border color differs from the positive bar colors.
+    // Excel doesn't write the property if all of them are the same.
+    fn has_negative_border_color(&self) -> bool {
+        !self.border_off
+            && (self.negative_border_color != self.fill_color
+                || self.negative_border_color != self.border_color)
+    }
+
     // Write the <x14:dataBar> element.
     fn write_data_bar(writer: &mut Cursor<Vec<u8>>, data_bar: ConditionalFormatDataBar) {
         let mut attributes = vec![
@@ -5463,7 +5471,7 @@ impl ConditionalFormatDataBar {
             attributes.push(("negativeBarColorSameAsPositive", "1".to_string()));
         }
 
-        if !data_bar.border_off && data_bar.fill_color != data_bar.negative_border_color {
+        if data_bar.has_negative_border_color() {
             attributes.push(("negativeBarBorderColorSameAsPositive", "0".to_string()));
         }
 
-- 
2.43.0


From 64a2a8b1a1d68e8f7d5fcf752d7f7c558d9b7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:07 +0000
Subject: [PATCH 058/110] fix: write all the options of extended icon set
 conditional formats

---
 src/conditional_format.rs | 50 +++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index a0ed6d4..4684f66 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6161,12 +6161,18 @@ impl ConditionalFormatIconSet {
     // Return an extended x14 rule for conditional formats that support it.
     pub(crate) fn x14_rule(&self, priority: u32, guid: &str) -> String {
         let mut writer = Cursor::new(Vec::with_capacity(2048));
-        let attributes = [
+        let mut attributes = vec![
             ("type", "iconSet".to_string()),
             ("priority", priority.to_string()),
-            ("id", guid.to_string()),
         ];
 
+        // Set the "Stop if True" property.
+        if self.stop_if_true {
+            attributes.push(("stopIfTrue", "1".to_string()));
+        }
+
+        attributes.push(("id", guid.to_string()));
+
         // Write the rule.
         xml_start_tag(&mut writer, "x14:cfRule", &attributes);
 
@@ -6176,6 +6182,14 @@ impl ConditionalFormatIconSet {
             attributes.push(("iconSet", self.icon_type.to_string()));
         }
 
+        if self.icon_only {
+            attributes.push(("showValue", "0".to_string()));
+        }
+
+        if self.is_reversed {
+            attributes.push(("reverse", "1".to_string()));
+        }
+
         if self.has_custom_icons {
             attributes.push(("custom", "1".to_string()));
         }
@@ -6248,34 +6262,30 @@ impl ConditionalFormatIconSet {
         let value = icon.value.value.as_ref();
 
         match icon.rule_type {
-            ConditionalFormatType::Automatic
-            | ConditionalFormatType::Lowest
-            | ConditionalFormatType::Highest => {}
+            ConditionalFormatType::Lowest
+            | ConditionalFormatType::Highest
+            | ConditionalFormatType::Automatic
+            | ConditionalFormatType::Percent => {
+                attributes.push(("type", "percent".to_string()));
+            }
             ConditionalFormatType::Number => {
                 attributes.push(("type", "num".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
-            }
-            ConditionalFormatType::Percent => {
-                attributes.push(("type", "percent".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Formula => {
                 attributes.push(("type", "formula".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percentile => {
                 attributes.push(("type", "percentile".to_string()));
-                xml_start_tag(writer, "x14:cfvo", &attributes);
-                xml_data_element_only(writer, "xm:f", value);
-                xml_end_tag(writer, "x14:cfvo");
             }
         }
+
+        if icon.greater_than {
+            attributes.push(("gte", "0".to_string()));
+        }
+
+        xml_start_tag(writer, "x14:cfvo", &attributes);
+        xml_data_element_only(writer, "xm:f", value);
+        xml_end_tag(writer, "x14:cfvo");
     }
 }
 
-- 
2.43.0


From 5f2d7763c88f0502a0ffddfc7ab59406858cab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 059/110] fix: quote empty strings and single quotes in cell
 conditional formats

---
 src/conditional_format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 4684f66..4d3dc12 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6636,12 +6636,12 @@ impl ConditionalFormatValue {
     // Cell formats are quoted.
     pub(crate) fn quote_string(&mut self) {
         // Only quote string values.
-        if !self.is_string || self.value.is_empty() {
+        if !self.is_string {
             return;
         }
 
         // Ignore already quoted strings.
-        if self.value.starts_with('"') && self.value.ends_with('"') {
+        if self.value.len() > 1 && self.value.starts_with('"') && self.value.ends_with('"') {
             return;
         }
 
-- 
2.43.0


From 8d49b6eaa12577b2ad3f4203aa8f2e8036cc36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:31 +0000
Subject: [PATCH 060/110] fix: keep the order of addition as the priority of
 conditional formats

---
 src/worksheet.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 03856bf..1c77172 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1610,8 +1610,9 @@ pub struct Worksheet {
     filter_automatic_off: bool,
     has_drawing_object_linkage: bool,
     cells_with_autofilter: HashMap<(RowNum, ColNum), (FilterType, CellRange)>,
-    conditional_formats: BTreeMap<String, Vec<Box<dyn ConditionalFormat + Sync + Send>>>,
+    conditional_formats: BTreeMap<String, Vec<(u32, Box<dyn ConditionalFormat + Sync + Send>)>>,
     conditional_format_order: Vec<String>,
+    conditional_format_count: u32,
     data_validations: BTreeMap<String, DataValidation>,
     has_conditional_formats: bool,
     use_x14_extensions: bool,
@@ -1827,6 +1828,7 @@ impl Worksheet {
             cells_with_autofilter: HashMap::new(),
             conditional_formats: BTreeMap::new(),
             conditional_format_order: vec![],
+            conditional_format_count: 0,
             data_validations: BTreeMap::new(),
             has_conditional_formats: false,
             use_x14_extensions: false,
@@ -9121,16 +9123,20 @@ impl Worksheet {
             format.dxf_index = self.format_dxf_index(format);
         }
 
+        // The priority of the rule is the order that it was added in.
+        self.conditional_format_count += 1;
+        let priority = self.conditional_format_count;
+
         match self.conditional_formats.entry(cell_range.clone()) {
             Entry::Occupied(mut entry) => {
                 // The conditional format range already exists. Append the rule.
                 let rules = entry.get_mut();
-                rules.push(conditional_format);
+                rules.push((priority, conditional_format));
             }
             Entry::Vacant(entry) => {
                 // The row doesn't exist, create a new row with columns and insert
                 // the cell value.
-                let rules = vec![conditional_format];
+                let rules = vec![(priority, conditional_format)];
                 entry.insert(rules);
 
                 // Also store the order that the ranges are added in.
@@ -18116,14 +18122,13 @@ impl Worksheet {
     // Write the <conditionalFormatting> element.
     fn write_conditional_formats(&mut self) {
         let mut guid_index = 1;
-        let mut priority = 1;
 
         for cell_range in &self.conditional_format_order {
             let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
 
             let has_x14_only = conditionals_for_range
                 .iter()
-                .all(|rule| rule.has_x14_only());
+                .all(|(_, rule)| rule.has_x14_only());
 
             // Don't write classic CFs if range only contains new style x14 CFs.
             if !has_x14_only {
@@ -18131,7 +18136,7 @@ impl Worksheet {
                 xml_start_tag(&mut self.writer, "conditionalFormatting", &attributes);
             }
 
-            for conditional_format in conditionals_for_range {
+            for (priority, conditional_format) in conditionals_for_range {
                 // Create a pseudo GUID for each unique Excel 2010 data bar.
                 let mut guid = String::new();
                 if conditional_format.has_x14_extensions() {
@@ -18150,11 +18155,9 @@ impl Worksheet {
                 }
 
                 if !conditional_format.has_x14_only() {
-                    let rule = conditional_format.rule(dxf_index, priority, cell_range, &guid);
+                    let rule = conditional_format.rule(dxf_index, *priority, cell_range, &guid);
                     xml_raw_string(&mut self.writer, &rule);
                 }
-
-                priority += 1;
             }
 
             if !has_x14_only {
@@ -18169,7 +18172,6 @@ impl Worksheet {
         xml_start_tag_only(&mut self.writer, "x14:conditionalFormattings");
 
         let mut guid_index = 1;
-        let mut priority = 1;
 
         // The order must match the order of the main conditional formats so that
         // the priorities and GUIDs refer to the same rules.
@@ -18179,9 +18181,8 @@ impl Worksheet {
             // Only create an entry if range contains a x14 style conditional.
             if !conditionals_for_range
                 .iter()
-                .any(|rule| rule.has_x14_extensions())
+                .any(|(_, rule)| rule.has_x14_extensions())
             {
-                priority += conditionals_for_range.len() as u32;
                 continue;
             }
 
@@ -18192,7 +18193,7 @@ impl Worksheet {
 
             xml_start_tag(&mut self.writer, "x14:conditionalFormatting", &attributes);
 
-            for conditional_format in conditionals_for_range {
+            for (priority, conditional_format) in conditionals_for_range {
                 if conditional_format.has_x14_extensions() {
                     // Create a pseudo GUID for each unique Excel 2010 data bar.
                     let guid = format!(
@@ -18202,10 +18203,9 @@ impl Worksheet {
                     );
                     guid_index += 1;
 
-                    let rule = conditional_format.x14_rule(priority, &guid);
+                    let rule = conditional_format.x14_rule(*priority, &guid);
                     xml_raw_string(&mut self.writer, &rule);
                 }
-                priority += 1;
             }
 
             xml_data_element_only(&mut self.writer, "xm:sqref", cell_range);
-- 
2.43.0


From 50803e932718c398c407d2fe4cb448c0e098d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 061/110] fix: replace a chart text title when a range is set
 as the name

---
 src/chart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 0195d22..6d513bf 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8840,7 +8840,9 @@ impl ChartTitle {
 
         // If the name didn't convert to a populated range then it is probably
         // just a simple string title.
-        if !self.range.has_data() {
+        if self.range.has_data() {
+            self.name.clear();
+        } else {
             self.name.clone_from(&self.range.range_string);
         }
 
-- 
2.43.0


From ffd683a39e7ef1f07286ef85ada1cf2753537e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 062/110] fix: keep the place of points after empty rows in the
 cache of 2D chart ranges

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1c77172..d530252 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17104,7 +17104,11 @@ impl Worksheet {
                         }
                     }
                 }
-                None => data.push(String::new()),
+                None => {
+                    for _ in first_col..=last_col {
+                        data.push(String::new());
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 764803f6e1d4edf7c2347d7e4aca54ca06d4643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 063/110] fix: store formula results, rich strings and booleans
 in chart caches

---
 src/chart.rs     |  2 +-
 src/worksheet.rs | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 6d513bf..898d6c0 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4118,7 +4118,7 @@ impl Chart {
             if !value.is_empty() {
                 // Non numeric values in value/number caches are treated as zero
                 // by Excel.
-                if value.parse::<f64>().is_err() {
+                if !value.parse::<f64>().is_ok_and(f64::is_finite) {
                     self.write_pt(index, "0");
                 } else {
                     self.write_pt(index, value);
diff --git a/src/worksheet.rs b/src/worksheet.rs
index d530252..6c3c3a1 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17074,6 +17074,7 @@ impl Worksheet {
     ) -> ChartRangeCacheData {
         let mut cache = ChartRangeCacheData::new();
         let mut data = vec![];
+        let mut booleans = vec![];
 
         for row_num in first_row..=last_row {
             match self.data_table.get(&row_num) {
@@ -17097,7 +17098,25 @@ impl Worksheet {
                                     }
                                     data.push(number.to_string());
                                 }
-
+                                CellType::RichString { raw_string, .. } => {
+                                    data.push(raw_string.to_string());
+                                    cache.cache_type = ChartRangeCacheDataType::String;
+                                }
+                                CellType::Formula { result, .. }
+                                | CellType::ArrayFormula { result, .. } => {
+                                    if result.parse::<f64>().is_err() {
+                                        if !result.is_empty() {
+                                            cache.cache_type = ChartRangeCacheDataType::String;
+                                        }
+                                    } else if cache.cache_type == ChartRangeCacheDataType::None {
+                                        cache.cache_type = ChartRangeCacheDataType::Number;
+                                    }
+                                    data.push(result.to_string());
+                                }
+                                CellType::Boolean { boolean, .. } => {
+                                    booleans.push((data.len(), *boolean));
+                                    data.push(String::new());
+                                }
                                 _ => data.push(String::new()),
                             },
                             None => data.push(String::new()),
@@ -17112,6 +17131,16 @@ impl Worksheet {
             }
         }
 
+        // Booleans are stored as text or as a number to match the other data.
+        for (index, boolean) in booleans {
+            data[index] = match (cache.cache_type, boolean) {
+                (ChartRangeCacheDataType::String, true) => "TRUE".to_string(),
+                (ChartRangeCacheDataType::String, false) => "FALSE".to_string(),
+                (_, true) => "1".to_string(),
+                (_, false) => "0".to_string(),
+            };
+        }
+
         cache.data = data;
         cache
     }
-- 
2.43.0


From 9825a372441044ff726d8189917c5df1b00bf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:00 +0000
Subject: [PATCH 064/110] fix: read the height of top-down BMP images

---
 src/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index f5ddcb6..4549d30 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1056,7 +1056,8 @@ impl Image {
         let height_dpi: f64 = 96.0;
 
         let width = unpack_u32_from_le_bytes(data, 18);
-        let height = unpack_u32_from_le_bytes(data, 22);
+        // The height is negative if the rows are stored from the top down.
+        let height = (unpack_u32_from_le_bytes(data, 22) as i32).unsigned_abs();
 
         self.width = f64::from(width);
         self.height = f64::from(height);
-- 
2.43.0


From c42ffa102bcb9b7e6520ca88d9edd807399f02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 065/110] fix: save the object movement option of notes and
 buttons

---
 src/vml.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/vml.rs b/src/vml.rs
index 7210c7b..0961b56 100644
--- a/src/vml.rs
+++ b/src/vml.rs
@@ -8,7 +8,7 @@ mod tests;
 
 use std::io::Cursor;
 
-use crate::{drawing::DrawingInfo, ColNum, RowNum};
+use crate::{drawing::DrawingInfo, ColNum, ObjectMovement, RowNum};
 
 use crate::xmlwriter::{
     xml_data_element, xml_data_element_only, xml_empty_tag, xml_empty_tag_only, xml_end_tag,
@@ -512,6 +512,9 @@ impl Vml {
 
         xml_start_tag(&mut self.writer, "x:ClientData", &attributes);
 
+        // Write the object movement elements.
+        self.write_object_movement(vml_info);
+
         // Write the x:Anchor element.
         self.write_anchor(vml_info);
 
@@ -559,8 +562,9 @@ impl Vml {
         let attributes = [("ObjectType", "Note")];
 
         xml_start_tag(&mut self.writer, "x:ClientData", &attributes);
-        xml_empty_tag_only(&mut self.writer, "x:MoveWithCells");
-        xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+
+        // Write the object movement elements.
+        self.write_object_movement(vml_info);
 
         // Write the x:Anchor element.
         self.write_anchor(vml_info);
@@ -582,6 +586,21 @@ impl Vml {
         xml_end_tag(&mut self.writer, "x:ClientData");
     }
 
+    // Write the <x:MoveWithCells> and <x:SizeWithCells> elements. The elements
+    // are present if the object doesn't move or size with the cells.
+    fn write_object_movement(&mut self, vml_info: &VmlInfo) {
+        match vml_info.drawing_info.object_movement {
+            ObjectMovement::DontMoveOrSizeWithCells => {
+                xml_empty_tag_only(&mut self.writer, "x:MoveWithCells");
+                xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+            }
+            ObjectMovement::MoveButDontSizeWithCells => {
+                xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+            }
+            ObjectMovement::MoveAndSizeWithCells | ObjectMovement::MoveAndSizeWithCellsAfter => (),
+        }
+    }
+
     // Write the <x:Anchor> element for shape anchoring.
     fn write_anchor(&mut self, vml_info: &VmlInfo) {
         let anchor = format!(
-- 
2.43.0


From 99b1dbc49b123afc3d24d5fa08d65e7b1808e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:39 +0000
Subject: [PATCH 066/110] fix: apply the show all notes setting at each save

---
 src/worksheet.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6c3c3a1..2520152 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16547,14 +16547,9 @@ impl Worksheet {
         // Keep the default author only, the others are added below.
         self.note_authors.retain(|_, id| *id == 0);
 
-        // Modify Note visibility and author according to worksheet settings.
+        // Modify the Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-                // Set all notes visible if required.
-                if self.show_all_notes && note.is_visible.is_none() {
-                    note.is_visible = Some(true);
-                }
-
                 // Check for a user defined author name.
                 let Some(note_author) = &note.author else {
                     continue;
@@ -16581,6 +16576,7 @@ impl Worksheet {
                 let note_col = note.col();
 
                 let mut vml_info = note.vml_info();
+                vml_info.is_visible = note.is_visible.unwrap_or(self.show_all_notes);
                 vml_info.drawing_info = self.position_object_pixels(note_row, note_col, note);
                 vml_info.row = *cell_row;
                 vml_info.col = *cell_col;
-- 
2.43.0


From 874eed017148458214bbd7e9656f515924534db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:39 +0000
Subject: [PATCH 067/110] fix: count buttons in the ids of VML shapes

---
 src/workbook.rs  |  6 +++---
 src/worksheet.rs | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 78f68fb..eb91495 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2239,7 +2239,7 @@ impl Workbook {
 
         for worksheet in &mut self.worksheets {
             if worksheet.has_vml {
-                let note_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
+                let shape_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
                 worksheet.add_vml_drawing_rel_link(vml_drawing_id);
                 vml_drawing_id += 1;
 
@@ -2250,8 +2250,8 @@ impl Workbook {
                 }
 
                 // Each VML should start with a shape id incremented by 1024.
-                vml_data_id += (1024 + note_count) / 1024;
-                vml_shape_id += 1024 * ((1024 + note_count) / 1024);
+                vml_data_id += (1024 + shape_count) / 1024;
+                vml_shape_id += 1024 * ((1024 + shape_count) / 1024);
             }
 
             if worksheet.has_header_footer_images() {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2520152..ae8bbf3 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16542,7 +16542,7 @@ impl Worksheet {
     // Convert buttons into VML objects.
     pub(crate) fn prepare_vml_objects(&mut self, vml_data_id: u32, vml_shape_id: u32) -> u32 {
         let mut button_id = 1;
-        let mut note_count = 0;
+        let mut shape_count = 0;
 
         // Keep the default author only, the others are added below.
         self.note_authors.retain(|_, id| *id == 0);
@@ -16584,7 +16584,7 @@ impl Worksheet {
                 // Store the note vml data.
                 self.comments_vml_info.push(vml_info);
 
-                note_count += 1;
+                shape_count += 1;
             }
         }
 
@@ -16608,13 +16608,14 @@ impl Worksheet {
             self.buttons_vml_info.push(vml_info);
 
             button_id += 1;
+            shape_count += 1;
         }
 
         // The VML o:idmap data id contains a comma separated range when there
-        // is more than one 1024 block of comments, like this: data="1,2".
+        // is more than one 1024 block of shapes, like this: data="1,2".
         let mut oid_map = vml_data_id.to_string();
 
-        for i in 0..note_count / 1024 {
+        for i in 0..shape_count / 1024 {
             let next_id = vml_data_id + i + 1;
             oid_map = format!("{oid_map},{next_id}");
         }
@@ -16622,7 +16623,7 @@ impl Worksheet {
         self.vml_data_id = oid_map;
         self.vml_shape_id = vml_shape_id;
 
-        note_count
+        shape_count
     }
 
     // Store the commentN.xml file linkage to the worksheets rels file.
-- 
2.43.0


From a85ce160d708f8243bed9543e41b3e9b1bc21fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 068/110] fix: keep the workbook unchanged when a VBA signature
 can't be read

---
 src/workbook.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index eb91495..72cf45b 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1891,16 +1891,16 @@ impl Workbook {
         project: P,
         signature: P,
     ) -> Result<&mut Workbook, XlsxError> {
-        // Add the project binary file.
-        self.add_vba_project(project)?;
-
-        // Add the signature binary file.
+        // Read the signature binary file.
         let path_buf = signature.as_ref().to_path_buf();
         let file = File::open(path_buf)?;
         let mut reader = BufReader::new(file);
         let mut data = vec![];
         reader.read_to_end(&mut data)?;
 
+        // Add the project binary file.
+        self.add_vba_project(project)?;
+
         self.vba_signature = data;
 
         Ok(self)
-- 
2.43.0


From c2a62a4a3b512e7bf29faf2a6257cb1cbd8b8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:00 +0000
Subject: [PATCH 069/110] fix: number the default VBA sheet names at each save

---
 src/workbook.rs  |  5 +----
 src/worksheet.rs | 13 ++++++++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 72cf45b..9d1f817 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2164,10 +2164,7 @@ impl Workbook {
             // is a xlsm file. Note that the VBA sheet naming scheme is based on
             // SheetN and not on the actual sheet name.
             if self.is_xlsm_file {
-                let codename = format!("Sheet{}", i + 1);
-                if worksheet.vba_codename.is_none() {
-                    worksheet.vba_codename = Some(codename);
-                }
+                worksheet.default_vba_codename = Some(format!("Sheet{}", i + 1));
             }
 
             // Chartsheets shouldn't use constant memory mode.
diff --git a/src/worksheet.rs b/src/worksheet.rs
index ae8bbf3..7f15aaf 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1522,6 +1522,7 @@ pub struct Worksheet {
     pub(crate) embedded_images: Vec<Image>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
     pub(crate) vba_codename: Option<String>,
+    pub(crate) default_vba_codename: Option<String>,
     pub(crate) note_authors: BTreeMap<String, usize>,
     pub(crate) vml_data_id: String,
     pub(crate) vml_shape_id: u32,
@@ -1840,6 +1841,7 @@ impl Worksheet {
             has_sparklines: false,
             sparklines: vec![],
             vba_codename: None,
+            default_vba_codename: None,
             note_authors: BTreeMap::from([("Author".to_string(), 0)]),
             show_all_notes: false,
             vml_data_id: String::new(),
@@ -17818,10 +17820,15 @@ impl Worksheet {
 
     // Write the <sheetPr> element.
     fn write_sheet_pr(&mut self) {
+        let vba_codename = self
+            .vba_codename
+            .clone()
+            .or_else(|| self.default_vba_codename.clone());
+
         if self.filter_conditions.is_empty()
             && !self.fit_to_page
             && (self.tab_color == Color::Default || self.tab_color == Color::Automatic)
-            && self.vba_codename.is_none()
+            && vba_codename.is_none()
             && !self.is_chartsheet
             && !self.outline_symbols_above
             && !self.outline_symbols_left
@@ -17830,8 +17837,8 @@ impl Worksheet {
         }
 
         let mut attributes = vec![];
-        if let Some(codename) = &self.vba_codename {
-            attributes.push(("codeName", codename.clone()));
+        if let Some(codename) = vba_codename {
+            attributes.push(("codeName", codename));
         }
         if !self.filter_conditions.is_empty() {
             attributes.push(("filterMode", "1".to_string()));
-- 
2.43.0


From 3ce149739b9b4535c76b9ff9e6f47da9af67f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 070/110] fix: write serial dates in custom document properties

---
 src/datetime.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 5097e7f..79fb549 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -1281,10 +1281,27 @@ impl ExcelDateTime {
     // Convert to UTC date in RFC 3339 format. This is used in custom
     // properties.
     pub(crate) fn to_rfc3339(&self) -> String {
-        format!(
-            "{}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-            self.year, self.month, self.day, self.hour, self.min, self.sec
-        )
+        let serial_datetime = self.to_excel();
+
+        // Convert to whole seconds. The calculation is done in milliseconds,
+        // like the serial datetime, to avoid floating point errors.
+        let milliseconds = (serial_datetime * DAY_SECONDS as f64 * 1000.0).round();
+        let seconds = (milliseconds / 1000.0).floor() as i64;
+
+        // Get the Unix epoch relative to the Excel epoch. This accounts for
+        // Excel erroneously treating 1900 as a leap year.
+        let unix_epoch_days = if serial_datetime < 60.0 {
+            25_568
+        } else {
+            25_569
+        };
+
+        // Use a date that is 400 years later to handle dates before 1970.
+        let timestamp = seconds - unix_epoch_days * DAY_SECONDS as i64 + UNIX_EPOCH_PLUS_400;
+        let (year, month, day, hour, min, sec) = Self::unix_time_to_date_parts(timestamp as u64);
+        let year = year - 400;
+
+        format!("{year}-{month:02}-{day:02}T{hour:02}:{min:02}:{sec:02}Z")
     }
 
     // Chrono date handling functions.
-- 
2.43.0


From b66d2fa815619ee85f4f4bf669e871e979d3bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 071/110] fix: check sparkline groups against the data order

---
 src/sparkline.rs |  2 +-
 src/worksheet.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sparkline.rs b/src/sparkline.rs
index 762efd7..7a43132 100644
--- a/src/sparkline.rs
+++ b/src/sparkline.rs
@@ -527,7 +527,7 @@ pub struct Sparkline {
     pub(crate) custom_max: Option<f64>,
     pub(crate) group_max: bool,
     pub(crate) group_min: bool,
-    data_row_order: bool,
+    pub(crate) data_row_order: bool,
 }
 
 #[allow(clippy::new_without_default)]
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7f15aaf..0cae7c2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -9523,13 +9523,18 @@ impl Worksheet {
             )));
         }
 
-        // Check that the group data range matches 1 dimension of the sparkline
-        // data range.
+        // Check that the group range is 1D and that it matches the dimension of
+        // the sparkline data range in the data order.
         let row_range = (last_row - first_row + 1) as usize;
         let col_range = (last_col - first_col + 1) as usize;
-        let num_cells = std::cmp::max(row_range, col_range);
         let (num_rows, num_cols) = sparkline.data_range.number_of_range_points();
-        if num_cells != num_rows && num_cells != num_cols {
+        let num_ranges = if sparkline.data_row_order {
+            num_rows
+        } else {
+            num_cols
+        };
+        let is_1d = row_range == 1 || col_range == 1;
+        if !is_1d || row_range * col_range != num_ranges {
             let cell_range = format!("({first_row}, {first_col}, {last_row}, {last_col})");
             let sparkline_range = sparkline.data_range.error_range();
             return Err(XlsxError::SparklineError(format!(
-- 
2.43.0


From cbffea5945a6e2c082ebfd7ad25f08a29e7eea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 072/110] fix: allow the top left cell to be set back to A1

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 0cae7c2..5b14c1a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10076,7 +10076,9 @@ impl Worksheet {
         }
 
         // Ignore cell (0, 0) since that is the default top-left cell.
+        // Cell A1 is the default so it isn't stored.
         if row == 0 && col == 0 {
+            self.top_left_cell.clear();
             return Ok(self);
         }
 
-- 
2.43.0


From c5232b949e8c5db2436e7b90a04e09333ff1b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 073/110] fix: write the selection of a sheet with panes for
 the active pane

---
 src/worksheet.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 5b14c1a..8902c78 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18018,7 +18018,8 @@ impl Worksheet {
 
     // Write the elements associated with cell selections.
     fn write_selections(&mut self) {
-        if self.selected_range.0.is_empty() {
+        // With panes the selection is written for the active pane.
+        if self.selected_range.0.is_empty() || !self.panes.is_empty() {
             return;
         }
 
@@ -18037,6 +18038,9 @@ impl Worksheet {
         let row = self.panes.freeze_cell.0;
         let col = self.panes.freeze_cell.1;
 
+        // Move any user defined selection to the active pane.
+        let (active_cell, range) = self.selected_range.clone();
+
         // Write the pane and selection elements.
         if row > 0 && col > 0 {
             self.write_pane("bottomRight");
@@ -18050,13 +18054,13 @@ impl Worksheet {
                 &utility::row_col_to_cell(row, 0),
                 &utility::row_col_to_cell(row, 0),
             );
-            self.write_selection("bottomRight", "", "");
+            self.write_selection("bottomRight", &active_cell, &range);
         } else if col > 0 {
             self.write_pane("topRight");
-            self.write_selection("topRight", "", "");
+            self.write_selection("topRight", &active_cell, &range);
         } else {
             self.write_pane("bottomLeft");
-            self.write_selection("bottomLeft", "", "");
+            self.write_selection("bottomLeft", &active_cell, &range);
         }
     }
 
-- 
2.43.0


From 604f5a37b0690910cf46936d16aff5ec365cce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:50 +0000
Subject: [PATCH 074/110] fix: lock the objects of a chartsheet unless they can
 be edited

---
 src/worksheet.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8902c78..76f938c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1946,15 +1946,9 @@ impl Worksheet {
     /// }
     /// ```
     pub fn new_chartsheet() -> Worksheet {
-        let protection_options = ProtectionOptions {
-            edit_objects: true,
-            ..Default::default()
-        };
-
         Worksheet {
             is_chartsheet: true,
             is_portrait: false,
-            protection_options,
             ..Default::default()
         }
     }
@@ -19838,7 +19832,7 @@ impl Worksheet {
                 attributes.push(("content", "1".to_string()));
             }
 
-            if self.protection_options.edit_objects {
+            if !self.protection_options.edit_objects {
                 attributes.push(("objects", "1".to_string()));
             }
         } else {
-- 
2.43.0


From 4353ddce95bafe9b13e717847a0e5995e2e39726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:20 +0000
Subject: [PATCH 075/110] fix: escape future functions in formulas by whole
 name only

---
 src/formula.rs | 169 +++++++++++++++++++------------------------------
 1 file changed, 64 insertions(+), 105 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index e396e73..a8a4efd 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -762,16 +762,9 @@ impl Formula {
             formula = stripped;
         }
 
-        // We need to escape future functions in a formula string. If the user
-        // has already done this we simply copy the string. In both cases we
-        // need to determine if it contains dynamic functions.
-        let (formula_string, has_dynamic_function) = if formula.contains("_xlfn.") {
-            // Already escaped.
-            Self::copy_escaped_formula(formula)
-        } else {
-            // Needs escaping.
-            Self::escape_formula(formula)
-        };
+        // Escape any future functions in the formula string that the user hasn't
+        // already escaped and determine if it contains dynamic functions.
+        let (formula_string, has_dynamic_function) = Self::escape_formula(formula);
 
         Formula {
             formula_string,
@@ -834,45 +827,65 @@ impl Formula {
         self
     }
 
-    // Prefix any "future" functions in a formula with "_xlfn.". We parse the
-    // string to avoid replacements in string literal within the formula.
+    // Prefix any "future" functions in a formula with "_xlfn.", unless the user
+    // has already done so, and check for dynamic functions. We parse the string
+    // to avoid replacements in string literals, quoted sheet names and
+    // structured references within the formula.
     fn escape_formula(formula: &str) -> (String, bool) {
-        let mut start_position = 0;
-        let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut token_start = None;
+        let mut quote = None;
+        let mut bracket_depth = 0;
+        let mut is_escaped_char = false;
         let mut has_dynamic_function = false;
         let mut escaped_formula = String::with_capacity(formula.len());
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // escaping function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
+            // Copy string literals and quoted sheet names. In Excel a quote in
+            // either of these is doubled, so this will also match escapes.
+            if let Some(quote_char) = quote {
+                if char == quote_char {
+                    quote = None;
+                }
+                escaped_formula.push(char);
+                continue;
             }
 
-            // Copy the string literal.
-            if in_string_literal {
+            // Copy structured references and external workbook names. In these
+            // a single quote escapes the next character.
+            if bracket_depth > 0 {
+                if is_escaped_char {
+                    is_escaped_char = false;
+                } else {
+                    match char {
+                        '\'' => is_escaped_char = true,
+                        '[' => bracket_depth += 1,
+                        ']' => bracket_depth -= 1,
+                        _ => {}
+                    }
+                }
                 escaped_formula.push(char);
                 continue;
             }
 
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
+            // Accumulate the characters of a function, reference or defined
+            // name. A function name is only a function if it is the whole token.
+            if char.is_alphanumeric() || matches!(char, '_' | '.' | '\\' | '?') {
+                token_start.get_or_insert(current_position);
+                continue;
+            }
+
+            if let Some(start_position) = token_start.take() {
+                let token = &formula[start_position..current_position];
 
-            // Simple state machine where we are either accumulating possible
-            // function names in a buffer for evaluation, or copying non-function
-            // name characters.
-            if in_function {
-                if !is_function_char {
-                    let token = &formula[start_position..current_position];
+                // If the first non token char is an opening bracket then we have
+                // found a function name.
+                if char == '(' {
+                    let name = token.strip_prefix("_xlfn.").unwrap_or(token);
+                    let name = name.strip_prefix("_xlws.").unwrap_or(name);
 
-                    // If the first non function char is an opening bracket then we
-                    // have found a function name.
-                    if char == '(' {
-                        // Check if function is an Excel "future" function.
-                        if let Some(function_type) = Self::future_functions(token) {
+                    // Check if function is an Excel "future" function.
+                    if let Some(function_type) = Self::future_functions(name) {
+                        if name == token {
                             // Add the future function prefix.
                             escaped_formula.push_str("_xlfn.");
 
@@ -880,86 +893,32 @@ impl Formula {
                             if *function_type == 2 {
                                 escaped_formula.push_str("_xlws.");
                             }
-
-                            // Check if the function is "dynamic".
-                            has_dynamic_function |= *function_type > 0;
                         }
-                    }
 
-                    // Copy the token, whether it is a function name or not.
-                    escaped_formula.push_str(token);
-                    escaped_formula.push(char);
-                    in_function = false;
+                        // Check if the function is "dynamic".
+                        has_dynamic_function |= *function_type > 0;
+                    }
                 }
-            } else if is_function_char {
-                // Match the start of a possible function name.
-                start_position = current_position;
-                in_function = true;
-            } else {
-                escaped_formula.push(char);
-            }
-        }
 
-        // Clean up any trailing buffer that wasn't a function.
-        if in_function {
-            escaped_formula.push_str(&formula[start_position..]);
-        }
-
-        (escaped_formula, has_dynamic_function)
-    }
-
-    // This is a version of the previous escape_formula() function that only
-    // checks to see if a user escaped string contains a dynamic function and
-    // returns a clone of the string.
-    fn copy_escaped_formula(formula: &str) -> (String, bool) {
-        let mut start_position = 0;
-        let mut in_function = false;
-        let mut in_string_literal = false;
-        let mut has_dynamic_function = false;
-
-        for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // matching function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
+                // Copy the token, whether it is a function name or not.
+                escaped_formula.push_str(token);
             }
 
-            // Ignore the string literal.
-            if in_string_literal {
-                continue;
+            match char {
+                '"' | '\'' => quote = Some(char),
+                '[' => bracket_depth = 1,
+                _ => {}
             }
 
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
-            let is_function_start_char = char.is_ascii_uppercase() || char.is_ascii_digit();
-
-            // Simple state machine where we accumulate possible function names
-            // in a buffer for evaluation.
-            if in_function {
-                if !is_function_char {
-                    let token = &formula[start_position..current_position];
-
-                    // If the first non function char is an opening bracket then we
-                    // have found a function name.
-                    if char == '(' {
-                        // Check if function is an Excel "future" function.
-                        if let Some(function_type) = Self::future_functions(token) {
-                            has_dynamic_function |= *function_type > 0;
-                        }
-                    }
+            escaped_formula.push(char);
+        }
 
-                    in_function = false;
-                }
-            } else if is_function_start_char {
-                // Match the start of a possible function name.
-                start_position = current_position;
-                in_function = true;
-            }
+        // Clean up any trailing token that wasn't a function.
+        if let Some(start_position) = token_start {
+            escaped_formula.push_str(&formula[start_position..]);
         }
 
-        (formula.to_string(), has_dynamic_function)
+        (escaped_formula, has_dynamic_function)
     }
 
     // Escape/expand table functions. This mainly involves converting Excel 2010
-- 
2.43.0


From a2042304bbc0ff35cb66753610890f306b83f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 076/110] fix: keep the closing brace of array constants in
 formulas

---
 src/formula.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index a8a4efd..495dd9c 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -752,15 +752,15 @@ impl Formula {
     pub fn new(formula: impl AsRef<str>) -> Formula {
         // Remove array formula braces and the leading = if they exist.
         let mut formula = formula.as_ref();
-        if let Some(stripped) = formula.strip_prefix('{') {
+        if let Some(stripped) = formula
+            .strip_prefix('{')
+            .and_then(|stripped| stripped.strip_suffix('}'))
+        {
             formula = stripped;
         }
         if let Some(stripped) = formula.strip_prefix('=') {
             formula = stripped;
         }
-        if let Some(stripped) = formula.strip_suffix('}') {
-            formula = stripped;
-        }
 
         // Escape any future functions in the formula string that the user hasn't
         // already escaped and determine if it contains dynamic functions.
-- 
2.43.0


From cf09012b2de25cda69641db12d1b1065716f90eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 077/110] fix: set formula results of later rows in constant
 memory mode

---
 src/worksheet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 76f938c..2f3b982 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10146,13 +10146,15 @@ impl Worksheet {
         col: ColNum,
         result: impl Into<String>,
     ) -> &mut Worksheet {
+        // In constant memory mode the rows before the current one are no longer
+        // available.
         let lookup_row = if self.use_constant_memory {
-            self.current_row
+            row.max(self.current_row)
         } else {
             row
         };
 
-        if let Some(columns) = self.data_table.get_mut(&lookup_row) {
+        if let Some(columns) = self.stored_row_mut(lookup_row) {
             if let Some(cell) = columns.get_mut(&col) {
                 match cell {
                     CellType::Formula {
-- 
2.43.0


From cbf79778b6ef91eb4e9e10471f247be26737bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 078/110] fix: avoid default name clashes of pushed and added
 worksheets

---
 src/workbook.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 9d1f817..0f6b9b3 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1214,9 +1214,18 @@ impl Workbook {
     /// src="https://rustxlsxwriter.github.io/images/workbook_push_worksheet.png">
     ///
     pub fn push_worksheet(&mut self, mut worksheet: Worksheet) {
+        // Count the sheet in the same way as the add methods so that the default
+        // names don't clash.
+        let default_name = if worksheet.is_chartsheet {
+            self.num_chartsheets += 1;
+            format!("Chart{}", self.num_chartsheets)
+        } else {
+            self.num_worksheets += 1;
+            format!("Sheet{}", self.num_worksheets)
+        };
+
         if worksheet.name().is_empty() {
-            let name = format!("Sheet{}", self.worksheets.len() + 1);
-            worksheet.set_name(&name).unwrap();
+            worksheet.set_name(&default_name).unwrap();
         }
 
         self.worksheets.push(worksheet);
-- 
2.43.0


From bbaea3e2815930416dc6ddb3c741b8b32594eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:39 +0000
Subject: [PATCH 079/110] fix: reset the first tab of the workbook between
 saves

---
 src/workbook.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 0f6b9b3..2c11c52 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2223,6 +2223,7 @@ impl Workbook {
     // sheet. If none has been set, then defaults to the first sheet, like Excel.
     fn set_active_worksheets(&mut self) {
         let mut active_index = 0;
+        self.first_sheet = 0;
 
         for (i, worksheet) in self.worksheets.iter().enumerate() {
             if worksheet.active {
-- 
2.43.0


From 5319d6bcdfb47cdcfe65e2d4906e941cc5cd7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 080/110] fix: only activate the first worksheet by default for
 the save

---
 src/workbook.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 2c11c52..25e2c6a 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2041,10 +2041,24 @@ impl Workbook {
     // Internal function to save the workbook and to undo any changes that are
     // only required during the save.
     fn save_internal<W: Write + Seek + Send>(&mut self, writer: W) -> Result<(), XlsxError> {
+        // Ensure that there is at least one worksheet in the workbook.
+        if self.worksheets.is_empty() {
+            self.add_worksheet();
+        }
+
+        // Store the state of the worksheets that may change if the first one is
+        // activated by default.
+        let states: Vec<_> = self
+            .worksheets
+            .iter()
+            .map(|worksheet| (worksheet.active, worksheet.selected, worksheet.visible))
+            .collect();
+
         let result = self.assemble_workbook(writer);
 
-        for worksheet in &mut self.worksheets {
+        for (worksheet, state) in self.worksheets.iter_mut().zip(states) {
             worksheet.restore_autofilter_rows();
+            (worksheet.active, worksheet.selected, worksheet.visible) = state;
         }
 
         result
@@ -2058,10 +2072,6 @@ impl Workbook {
         // Reset workbook and worksheet state data between saves.
         self.reset();
 
-        // Ensure that there is at least one worksheet in the workbook.
-        if self.worksheets.is_empty() {
-            self.add_worksheet();
-        }
         // Ensure one sheet is active/selected.
         self.set_active_worksheets();
 
-- 
2.43.0


From 56bed792fb5a85f116d9179965ff42a85f3bfd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:22 +0000
Subject: [PATCH 081/110] fix: use the same field names as Serde in the
 XlsxSerialize derive

---
 macros/src/lib.rs | 93 +++++++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 35 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0220fea..cb4248f 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -82,6 +82,9 @@
 //!
 use proc_macro::TokenStream;
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
+use syn::meta::ParseNestedMeta;
+use syn::token::Paren;
 use syn::{
     parse_macro_input, Attribute, Data, DeriveInput, Expr, Fields, LitFloat, LitInt, LitStr, Token,
 };
@@ -676,7 +679,7 @@ use syn::{
 pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
     let ast = parse_macro_input!(input as DeriveInput);
     let (impl_generics, type_generics, where_clause) = ast.generics.split_for_impl();
-    let mut struct_name = ast.ident.to_string();
+    let mut struct_name = ast.ident.unraw().to_string();
     let struct_type = ast.ident;
 
     let mut field_case = "original".to_string();
@@ -755,11 +758,8 @@ pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
             'field: for field in &fields.named {
                 if let Some(field_name) = field.ident.as_ref() {
                     // Get the field name to map to a custom header.
-                    let mut field_name = field_name.to_string();
-
-                    if field_name != "original" {
-                        field_name = rename_field(&field_name, &field_case);
-                    }
+                    let field_name = field_name.unraw().to_string();
+                    let field_name = rename_field(&field_name, &field_case);
 
                     let mut custom_field_constructor = quote! {
                         ::rust_xlsxwriter::CustomSerializeField::new(#field_name)
@@ -977,39 +977,23 @@ fn parse_header_attribute(attribute: &Attribute) -> Vec<HeaderAttributeTypes> {
     // errors since that will be done by the Serde proc macros.
     if attribute.path().is_ident("serde") {
         let _ = attribute.parse_nested_meta(|meta| {
-            // We need to handle 2 `rename_all` cases here, one of which is nested:
-            //     #[serde(rename_all = "...")]
-            //     #[serde(rename_all(serialize = "..."))]
+            // Handle the #[serde(rename_all = "...")] container attribute.
             if meta.path.is_ident("rename_all") {
-                let not_nested = meta.input.peek(Token![=]);
-
-                if not_nested {
-                    let value = meta.value()?;
-                    let token = value.parse()?;
+                if let Some(token) = parse_serialize_name(&meta)? {
                     attributes.push(HeaderAttributeTypes::SerdeRenameAll(token));
-                } else {
-                    let _ = meta.parse_nested_meta(|meta| {
-                        if meta.path.is_ident("serialize") {
-                            let value = meta.value()?;
-                            let token = value.parse()?;
-                            attributes.push(HeaderAttributeTypes::SerdeRenameAll(token));
-                        }
-                        Ok(())
-                    });
                 }
-
                 Ok(())
             }
             // Handle the #[serde(rename = "")] container attribute.
             else if meta.path.is_ident("rename") {
-                let value = meta.value()?;
-                let token = value.parse()?;
-                attributes.push(HeaderAttributeTypes::SerdeRename(token));
+                if let Some(token) = parse_serialize_name(&meta)? {
+                    attributes.push(HeaderAttributeTypes::SerdeRename(token));
+                }
                 Ok(())
             }
             // Ignore everything else.
             else {
-                Ok(())
+                skip_meta_value(&meta)
             }
         });
     }
@@ -1135,14 +1119,14 @@ fn parse_field_attribute(attribute: &Attribute) -> Vec<FieldAttributeTypes> {
             }
             // Handle he #[serde(rename = "Price")] field attribute:
             else if meta.path.is_ident("rename") {
-                let value = meta.value()?;
-                let token = value.parse()?;
-                attributes.push(FieldAttributeTypes::SerdeRename(token));
+                if let Some(token) = parse_serialize_name(&meta)? {
+                    attributes.push(FieldAttributeTypes::SerdeRename(token));
+                }
                 Ok(())
             }
             // Ignore everything else.
             else {
-                Ok(())
+                skip_meta_value(&meta)
             }
         });
     }
@@ -1150,6 +1134,40 @@ fn parse_field_attribute(attribute: &Attribute) -> Vec<FieldAttributeTypes> {
     attributes
 }
 
+// Parse the name in a Serde `rename` or `rename_all` attribute. There are 2 cases
+// here, one of which is nested:
+//     #[serde(rename = "...")]
+//     #[serde(rename(serialize = "...", deserialize = "..."))]
+fn parse_serialize_name(meta: &ParseNestedMeta) -> syn::Result<Option<LitStr>> {
+    if meta.input.peek(Token![=]) {
+        return Ok(Some(meta.value()?.parse()?));
+    }
+
+    let mut name = None;
+    meta.parse_nested_meta(|meta| {
+        if meta.path.is_ident("serialize") {
+            name = Some(meta.value()?.parse()?);
+            Ok(())
+        } else {
+            skip_meta_value(&meta)
+        }
+    })?;
+
+    Ok(name)
+}
+
+// Skip the value of a Serde attribute that we don't handle so that any other
+// attributes after it can be parsed.
+fn skip_meta_value(meta: &ParseNestedMeta) -> syn::Result<()> {
+    if meta.input.peek(Token![=]) {
+        meta.value()?.parse::<Expr>()?;
+    } else if meta.input.peek(Paren) {
+        meta.parse_nested_meta(|meta| skip_meta_value(&meta))?;
+    }
+
+    Ok(())
+}
+
 // Field attribute return values.
 enum FieldAttributeTypes {
     Skip,
@@ -1170,7 +1188,6 @@ enum FieldAttributeTypes {
 // -----------------------------------------------------------------------
 fn rename_field(field_name: &str, rename_type: &str) -> String {
     match rename_type {
-        "lowercase" => field_name.to_ascii_lowercase(),
         "camelCase" => camel_case(field_name),
         "kebab-case" => field_name.replace('_', "-"),
         "PascalCase" => pascal_case(field_name),
@@ -1193,12 +1210,18 @@ fn camel_case(field_name: &str) -> String {
 
 fn uppercase_first(segment: &str) -> String {
     let mut segment = segment.to_string();
-    segment.remove(0).to_uppercase().to_string() + &segment
+    if let Some(first) = segment.get_mut(..1) {
+        first.make_ascii_uppercase();
+    }
+    segment
 }
 
 fn lowercase_first(segment: &str) -> String {
     let mut segment = segment.to_string();
-    segment.remove(0).to_lowercase().to_string() + &segment
+    if let Some(first) = segment.get_mut(..1) {
+        first.make_ascii_lowercase();
+    }
+    segment
 }
 
 // -----------------------------------------------------------------------
-- 
2.43.0


From 39b471a7c42d2e6b7d4fde9b4fa1e808b913b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 082/110] fix: return valid dimensions for serialized structs
 without rows

---
 src/serializer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/serializer.rs b/src/serializer.rs
index db42d67..7279ac3 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -2039,7 +2039,7 @@ impl SerializerState {
         Ok((
             header_config.min_row,
             header_config.min_col,
-            header_config.max_row - 1,
+            header_config.last_row(),
             header_config.max_col,
         ))
     }
@@ -2066,7 +2066,7 @@ impl SerializerState {
         Ok((
             header_config.min_row,
             field.col,
-            header_config.max_row - 1,
+            header_config.last_row(),
             field.col,
         ))
     }
@@ -2099,6 +2099,12 @@ pub(crate) struct SerializationHeaderConfig {
 }
 
 impl SerializationHeaderConfig {
+    // Get the last row of the serialized data. This is the first row if nothing
+    // has been written yet.
+    fn last_row(&self) -> RowNum {
+        self.max_row.saturating_sub(1).max(self.min_row)
+    }
+
     // Get table object and dimensions for the a serialization area.
     pub(crate) fn get_table(&mut self) -> Option<TableData> {
         let table = self.table.take();
@@ -2107,7 +2113,7 @@ impl SerializationHeaderConfig {
             Some(table) => Some(TableData(
                 self.min_row,
                 self.min_col,
-                self.max_row - 1,
+                self.last_row(),
                 self.max_col,
                 table,
             )),
-- 
2.43.0


From 09aa242ceada45e06586515a9818227a47b99630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:48 +0000
Subject: [PATCH 083/110] fix: ignore serialized values that aren't in a struct

---
 src/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializer.rs b/src/serializer.rs
index 7279ac3..92ca922 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -3775,6 +3775,9 @@ impl ser::SerializeStruct for &mut Worksheet {
     }
 
     fn end(self) -> Result<(), XlsxError> {
+        // Any values between this and the next struct don't belong to a field.
+        self.serializer_state.current_field.clear();
+
         Ok(())
     }
 }
-- 
2.43.0


From 36b6940ff66364024650b667214639a97bdf1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:58 +0000
Subject: [PATCH 084/110] fix: keep the column names of serialized tables in
 step with their headers

---
 src/worksheet.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2f3b982..27fff08 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12171,6 +12171,23 @@ impl Worksheet {
                 if !header_options.has_headers {
                     table.show_header_row = false;
                 }
+
+                // The table column names must match the header cells. Those
+                // may have been flushed, in constant memory mode, by the time
+                // that the table is added.
+                if table.show_header_row {
+                    let num_columns = usize::from(max_col - min_col) + 1;
+                    table
+                        .columns
+                        .resize_with(num_columns, crate::TableColumn::default);
+
+                    for header in fields.values() {
+                        table.columns[usize::from(header.col - min_col)]
+                            .name
+                            .clone_from(&header.header_name);
+                    }
+                }
+
                 table.is_serde_table = true;
                 Some(table)
             }
-- 
2.43.0


From a5e1aeca09500a14804c9b16914aa76643494d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 085/110] fix: ignore the autofilter of tables without a header
 row

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 27fff08..159f158 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8863,7 +8863,7 @@ impl Worksheet {
 
         // Check that the table autofilter doesn't overlap the worksheet
         // autofilter.
-        if table.show_autofilter {
+        if table.show_autofilter && table.show_header_row {
             for col in first_col..=last_col {
                 let filter_data = self.cells_with_autofilter.get(&(first_row, col));
                 if let Some((FilterType::Worksheet, filter_range)) = filter_data {
@@ -8941,7 +8941,7 @@ impl Worksheet {
         }
 
         // Store the cells with the autofilter dropdown for the autofit calc.
-        if table.show_autofilter {
+        if table.show_autofilter && table.show_header_row {
             for col in first_col..=last_col {
                 self.cells_with_autofilter.insert(
                     (first_row, col),
-- 
2.43.0


From 2eb8bce64fc73a5c01975a2a1d501d69111a350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:21 +0000
Subject: [PATCH 086/110] fix: keep the wider autofit of previous rows in
 constant memory mode

---
 src/worksheet.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 159f158..99ef36f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17329,6 +17329,17 @@ impl Worksheet {
         // Set the max character width for each column.
         for (col, pixels) in &max_widths {
             let width = Self::pixels_to_width(*pixels);
+
+            // Only the current row is available in constant memory mode so
+            // don't undo the autofit of a previous, wider, row.
+            if self.use_constant_memory {
+                if let Some(col_options) = self.changed_cols.get(col) {
+                    if col_options.autofit && col_options.width > width {
+                        continue;
+                    }
+                }
+            }
+
             self.store_column_width(*col, width, true);
         }
 
-- 
2.43.0


From c8c72aaf7e5d2e6dd5fe66e5dd588c86fa04b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 087/110] fix: return errors from copying constant memory data
 instead of panicking

---
 src/packager.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 56a5362..ed50fda 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -44,7 +44,7 @@ use std::collections::HashSet;
 use std::io::{Seek, Write};
 
 #[cfg(feature = "constant_memory")]
-use std::io::{BufRead, BufReader};
+use std::io::{self, BufReader, SeekFrom};
 
 use std::sync::{Arc, Mutex};
 #[cfg(not(target_arch = "wasm32"))]
@@ -457,17 +457,14 @@ impl<W: Write + Seek + Send> Packager<W> {
                 // We also need to flush the last remaining row.
                 worksheet.flush_last_row();
 
-                worksheet.file_writer.rewind().unwrap();
+                worksheet.file_writer.rewind()?;
                 let mut reader = BufReader::new(worksheet.file_writer.get_ref());
-                loop {
-                    let buffer = reader.fill_buf().unwrap();
-                    let length = buffer.len();
-                    if length == 0 {
-                        break;
-                    }
-                    self.zip.write_all(buffer).unwrap();
-                    reader.consume(length);
-                }
+                let result = io::copy(&mut reader, &mut self.zip);
+
+                // Any rows written after this save go at the end of the file,
+                // even if the copy failed.
+                worksheet.file_writer.seek(SeekFrom::End(0))?;
+                result?;
             }
 
             // Section 3. In memory metadata at end of the file.
-- 
2.43.0


From 456ff5a403d9f623404196cf195378c68f9f78ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 088/110] fix: flush the writer at the end of a save

---
 src/packager.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index ed50fda..a81a5c4 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -216,7 +216,8 @@ impl<W: Write + Seek + Send> Packager<W> {
         }
 
         // Close the zip file.
-        self.zip.finish()?;
+        // Flush the writer since errors are lost if it is left to its destructor.
+        self.zip.finish()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From a79318081f22c10fb299516ddf4292668023cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 089/110] fix: don't write to an output file after it returned
 an error

---
 src/packager.rs | 62 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index a81a5c4..80a4cc2 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -41,10 +41,10 @@
 // the package and writes them into the xlsx file.
 
 use std::collections::HashSet;
-use std::io::{Seek, Write};
+use std::io::{self, Seek, SeekFrom, Write};
 
 #[cfg(feature = "constant_memory")]
-use std::io::{self, BufReader, SeekFrom};
+use std::io::BufReader;
 
 use std::sync::{Arc, Mutex};
 #[cfg(not(target_arch = "wasm32"))]
@@ -76,7 +76,7 @@ use crate::{xmlwriter, Comment, DocProperties, Visible, NUM_IMAGE_FORMATS};
 
 // Packager struct to assemble the xlsx file.
 pub struct Packager<W: Write + Seek> {
-    zip: ZipWriter<W>,
+    zip: ZipWriter<OutputWriter<W>>,
     zip_options: SimpleFileOptions,
     zip_options_for_binary_files: SimpleFileOptions,
 }
@@ -88,7 +88,10 @@ impl<W: Write + Seek + Send> Packager<W> {
 
     // Create a new Packager struct.
     pub(crate) fn new(writer: W, use_large_file: bool) -> Packager<W> {
-        let zip = zip::ZipWriter::new(writer);
+        let zip = zip::ZipWriter::new(OutputWriter {
+            writer,
+            has_failed: false,
+        });
 
         let zip_options = SimpleFileOptions::default()
             .compression_method(zip::CompressionMethod::Deflated)
@@ -1109,6 +1112,57 @@ impl<W: Write + Seek + Send> Packager<W> {
     }
 }
 
+// Internal wrapper for the output writer that fails all operations after the
+// first error. Otherwise, the zip writer would try to complete the file, at the
+// wrong position, when it is dropped after the error.
+struct OutputWriter<W: Write + Seek> {
+    writer: W,
+    has_failed: bool,
+}
+
+impl<W: Write + Seek> OutputWriter<W> {
+    // Run an operation on the underlying writer and store if it failed.
+    fn check<T>(&mut self, operation: impl FnOnce(&mut W) -> io::Result<T>) -> io::Result<T> {
+        if self.has_failed {
+            return Err(io::Error::new(
+                io::ErrorKind::Other,
+                "Previous error in output file.",
+            ));
+        }
+
+        let result = operation(&mut self.writer);
+
+        if let Err(error) = &result {
+            self.has_failed = error.kind() != io::ErrorKind::Interrupted;
+        }
+
+        result
+    }
+}
+
+impl<W: Write + Seek> Write for OutputWriter<W> {
+    fn write(&mut self, buffer: &[u8]) -> io::Result<usize> {
+        let size = self.check(|writer| writer.write(buffer))?;
+        self.has_failed = size == 0 && !buffer.is_empty();
+
+        Ok(size)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.check(|writer| writer.flush())
+    }
+}
+
+impl<W: Write + Seek> Seek for OutputWriter<W> {
+    fn seek(&mut self, position: SeekFrom) -> io::Result<u64> {
+        self.check(|writer| writer.seek(position))
+    }
+
+    fn stream_position(&mut self) -> io::Result<u64> {
+        self.check(|writer| writer.stream_position())
+    }
+}
+
 // Internal struct to pass options to the Packager struct.
 pub(crate) struct PackagerOptions {
     pub(crate) has_sst_table: bool,
-- 
2.43.0


From b8fc38ddc18de4cd30d6851bdb2ab9d874d3ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:07 +0000
Subject: [PATCH 090/110] fix: only create temporary files for constant memory
 worksheets

---
 src/packager.rs  | 18 ++++++++++--------
 src/workbook.rs  | 29 ++++++++++++++++-------------
 src/worksheet.rs | 36 +++++++++++++++---------------------
 3 files changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 80a4cc2..7c3ba00 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -461,14 +461,16 @@ impl<W: Write + Seek + Send> Packager<W> {
                 // We also need to flush the last remaining row.
                 worksheet.flush_last_row();
 
-                worksheet.file_writer.rewind()?;
-                let mut reader = BufReader::new(worksheet.file_writer.get_ref());
-                let result = io::copy(&mut reader, &mut self.zip);
-
-                // Any rows written after this save go at the end of the file,
-                // even if the copy failed.
-                worksheet.file_writer.seek(SeekFrom::End(0))?;
-                result?;
+                if let Some(file_writer) = &mut worksheet.file_writer {
+                    file_writer.rewind()?;
+                    let mut reader = BufReader::new(file_writer.get_ref());
+                    let result = io::copy(&mut reader, &mut self.zip);
+
+                    // Any rows written after this save go at the end of the
+                    // file, even if the copy failed.
+                    file_writer.seek(SeekFrom::End(0))?;
+                    result?;
+                }
             }
 
             // Section 3. In memory metadata at end of the file.
diff --git a/src/workbook.rs b/src/workbook.rs
index 25e2c6a..cd02e36 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -224,7 +224,7 @@ use std::path::Path;
 use std::sync::{Arc, Mutex, RwLock};
 
 #[cfg(feature = "constant_memory")]
-use tempfile::tempfile_in;
+use tempfile::{tempfile, tempfile_in};
 
 #[cfg(feature = "constant_memory")]
 use std::io::BufWriter;
@@ -563,9 +563,7 @@ impl Workbook {
         let mut worksheet = Worksheet::new();
         worksheet.set_name(&name).unwrap();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        worksheet.file_writer = Some(self.new_file_writer());
 
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
@@ -636,9 +634,7 @@ impl Workbook {
         let mut worksheet = Worksheet::new();
         worksheet.set_name(&name).unwrap();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        worksheet.file_writer = Some(self.new_file_writer());
 
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
@@ -684,9 +680,7 @@ impl Workbook {
     pub fn new_worksheet_with_constant_memory(&mut self) -> Worksheet {
         let mut worksheet = Worksheet::new();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        worksheet.file_writer = Some(self.new_file_writer());
 
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
@@ -726,9 +720,7 @@ impl Workbook {
     pub fn new_worksheet_with_low_memory(&mut self) -> Worksheet {
         let mut worksheet = Worksheet::new();
 
-        if let Some(tempdir) = &self.tempdir {
-            worksheet.file_writer = BufWriter::new(tempfile_in(tempdir).unwrap());
-        }
+        worksheet.file_writer = Some(self.new_file_writer());
 
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
@@ -2064,6 +2056,17 @@ impl Workbook {
         result
     }
 
+    // Create a temporary file for the data of a constant memory worksheet.
+    #[cfg(feature = "constant_memory")]
+    fn new_file_writer(&self) -> BufWriter<File> {
+        let file = match &self.tempdir {
+            Some(tempdir) => tempfile_in(tempdir),
+            None => tempfile(),
+        };
+
+        BufWriter::new(file.unwrap())
+    }
+
     // Internal function to prepare the workbook and other component files for
     // writing to the xlsx file.
     #[allow(clippy::similar_names)]
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 99ef36f..b51af5b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1356,9 +1356,6 @@ use std::mem;
 use std::sync::{Arc, Mutex, RwLock};
 use std::{cmp, fmt};
 
-#[cfg(feature = "constant_memory")]
-use tempfile::tempfile_in;
-
 #[cfg(feature = "constant_memory")]
 use std::io::BufWriter;
 
@@ -1636,7 +1633,7 @@ pub struct Worksheet {
     outline_symbols_left: bool,
 
     #[cfg(feature = "constant_memory")]
-    pub(crate) file_writer: BufWriter<File>,
+    pub(crate) file_writer: Option<BufWriter<File>>,
 
     #[cfg(feature = "constant_memory")]
     write_ahead: BTreeMap<RowNum, BTreeMap<ColNum, CellType>>,
@@ -1733,9 +1730,6 @@ impl Worksheet {
             top_cell: (0, 0),
         };
 
-        #[cfg(feature = "constant_memory")]
-        let file_writer = BufWriter::new(tempfile_in(std::env::temp_dir()).unwrap());
-
         Worksheet {
             writer,
             name: String::new(),
@@ -1880,7 +1874,7 @@ impl Worksheet {
             has_workbook_global_sst: false,
 
             #[cfg(feature = "constant_memory")]
-            file_writer,
+            file_writer: None,
 
             #[cfg(feature = "constant_memory")]
             write_ahead: BTreeMap::new(),
@@ -19015,7 +19009,7 @@ impl Worksheet {
                 CellType::Number { number, xf_index } | CellType::DateTime { number, xf_index } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_number_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         *number,
@@ -19031,7 +19025,7 @@ impl Worksheet {
                     if let Some(string_id) = string_id {
                         let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                         Self::write_string_cell(
-                            &mut self.file_writer,
+                            self.file_writer.as_mut().unwrap(),
                             current_row + 1,
                             col_name,
                             *string_id,
@@ -19049,7 +19043,7 @@ impl Worksheet {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     if let Some(string_id) = string_id {
                         Self::write_string_cell(
-                            &mut self.file_writer,
+                            self.file_writer.as_mut().unwrap(),
                             current_row + 1,
                             col_name,
                             *string_id,
@@ -19057,7 +19051,7 @@ impl Worksheet {
                         );
                     } else {
                         Self::write_inline_rich_string_cell(
-                            &mut self.file_writer,
+                            self.file_writer.as_mut().unwrap(),
                             current_row + 1,
                             col_name,
                             string,
@@ -19071,7 +19065,7 @@ impl Worksheet {
                 } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_inline_string_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         string,
@@ -19086,7 +19080,7 @@ impl Worksheet {
                 } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_formula_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         formula,
@@ -19104,7 +19098,7 @@ impl Worksheet {
                 } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_array_formula_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         formula,
@@ -19118,7 +19112,7 @@ impl Worksheet {
                 CellType::Blank { xf_index } => {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     Self::write_blank_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         xf_index,
@@ -19129,7 +19123,7 @@ impl Worksheet {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
 
                     Self::write_boolean_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         *boolean,
@@ -19141,7 +19135,7 @@ impl Worksheet {
                     let xf_index = self.get_cell_xf_index(*xf_index, row_options, col_num);
                     let image_id = self.global_embedded_image_indices[*value as usize];
                     Self::write_error_cell(
-                        &mut self.file_writer,
+                        self.file_writer.as_mut().unwrap(),
                         current_row + 1,
                         col_name,
                         image_id,
@@ -19150,7 +19144,7 @@ impl Worksheet {
                 }
             }
         }
-        xml_end_tag(&mut self.file_writer, "row");
+        xml_end_tag(self.file_writer.as_mut().unwrap(), "row");
 
         // Swap back in changed rows data.
         mem::swap(&mut temp_changed_rows, &mut self.changed_rows);
@@ -19335,9 +19329,9 @@ impl Worksheet {
         }
 
         if has_data {
-            xml_start_tag(&mut self.file_writer, "row", &attributes);
+            xml_start_tag(self.file_writer.as_mut().unwrap(), "row", &attributes);
         } else {
-            xml_empty_tag(&mut self.file_writer, "row", &attributes);
+            xml_empty_tag(self.file_writer.as_mut().unwrap(), "row", &attributes);
         }
     }
 
-- 
2.43.0


From bb538d2609c289767f7c02723a8c47491f86f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:45 +0000
Subject: [PATCH 091/110] fix: don't give a format two indices when worksheets
 are written in several threads

---
 src/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b51af5b..d8cb7b7 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16180,12 +16180,12 @@ impl Worksheet {
         // add the format and create a new index.
         drop(xf_indices);
 
-        // Add the new format and give it an index.
+        // Add the new format and give it an index, unless another thread has
+        // added it since the read() lock was dropped.
         let mut xf_indices = self.workbook_xf_indices.write().expect("RwLock poisoned");
-        let xf_index = xf_indices.len() as u32;
-        xf_indices.insert(format.clone(), xf_index);
+        let next_index = xf_indices.len() as u32;
 
-        xf_index
+        *xf_indices.entry(format.clone()).or_insert(next_index)
     }
 
     // Look up the Format index from the worksheet/local format index table.
-- 
2.43.0


From db27296b934b406f37bee750660aa896812367b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:56 +0000
Subject: [PATCH 092/110] fix: don't cache chart data ranges larger than a
 worksheet column

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d8cb7b7..e65f759 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17089,6 +17089,14 @@ impl Worksheet {
         let mut data = vec![];
         let mut booleans = vec![];
 
+        // The cache is optional. Leave it out for ranges with more cells than
+        // fit in a column since its size isn't limited by the actual data.
+        let num_rows = u64::from(last_row.saturating_sub(first_row)) + 1;
+        let num_cols = u64::from(last_col.saturating_sub(first_col)) + 1;
+        if num_rows * num_cols > u64::from(ROW_MAX) {
+            return cache;
+        }
+
         for row_num in first_row..=last_row {
             match self.data_table.get(&row_num) {
                 Some(columns) => {
-- 
2.43.0


From 7ce8d921f81d1b7c613c9e51fb9c738ab4b67298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:56 +0000
Subject: [PATCH 093/110] fix: keep drawing objects within the worksheet

---
 src/worksheet.rs | 65 +++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index e65f759..a7a8e44 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16752,8 +16752,8 @@ impl Worksheet {
         drawing_info.from.col_offset = round_to_emus(drawing_info.from.col_offset);
         drawing_info.from.row_offset = round_to_emus(drawing_info.from.row_offset);
 
-        drawing_info.col_absolute *= 9525;
-        drawing_info.row_absolute *= 9525;
+        drawing_info.col_absolute = drawing_info.col_absolute.saturating_mul(9525);
+        drawing_info.row_absolute = drawing_info.row_absolute.saturating_mul(9525);
 
         drawing_info.width = round_to_emus(drawing_info.width);
         drawing_info.height = round_to_emus(drawing_info.height);
@@ -16814,41 +16814,48 @@ impl Worksheet {
         let width = object.width_scaled(); // Width of object frame.
         let height = object.height_scaled(); // Height of object frame.
 
-        let mut x_abs: u32 = 0; // Absolute distance to left side of object.
-        let mut y_abs: u32 = 0; // Absolute distance to top  side of object.
+        let mut x_abs: u64 = 0; // Absolute distance to left side of object.
+        let mut y_abs: u64 = 0; // Absolute distance to top  side of object.
 
         // Calculate the absolute x offset of the top-left vertex.
         for col in 0..col_start {
-            x_abs += self.column_pixel_width(col, object.object_movement());
+            x_abs += u64::from(self.column_pixel_width(col, object.object_movement()));
         }
-        x_abs += x1;
+        x_abs += u64::from(x1);
 
         // Calculate the absolute y offset of the top-left vertex.
         for row in 0..row_start {
-            y_abs += self.row_pixel_height(row, object.object_movement());
+            y_abs += u64::from(self.row_pixel_height(row, object.object_movement()));
         }
-        y_abs += y1;
+        y_abs += u64::from(y1);
 
         // Adjust start col for offsets that are greater than the col width.
+        // Like Excel, keep the object within the worksheet.
         loop {
             let col_size = self.column_pixel_width(col_start, object.object_movement());
-            if x1 >= col_size {
-                x1 -= col_size;
-                col_start += 1;
-            } else {
+            if x1 < col_size {
+                break;
+            }
+            if col_start >= COL_MAX - 1 {
+                x1 = col_size;
                 break;
             }
+            x1 -= col_size;
+            col_start += 1;
         }
 
         // Adjust start row for offsets that are greater than the row height.
         loop {
             let row_size = self.row_pixel_height(row_start, object.object_movement());
-            if y1 >= row_size {
-                y1 -= row_size;
-                row_start += 1;
-            } else {
+            if y1 < row_size {
+                break;
+            }
+            if row_start >= ROW_MAX - 1 {
+                y1 = row_size;
                 break;
             }
+            y1 -= row_size;
+            row_start += 1;
         }
 
         // Initialize end cell to the same as the start cell.
@@ -16862,23 +16869,29 @@ impl Worksheet {
         // Subtract the underlying cell widths to find the end cell.
         loop {
             let col_size = f64::from(self.column_pixel_width(col_end, object.object_movement()));
-            if x2 >= col_size {
-                x2 -= col_size;
-                col_end += 1;
-            } else {
+            if x2 < col_size {
+                break;
+            }
+            if col_end >= COL_MAX - 1 {
+                x2 = col_size;
                 break;
             }
+            x2 -= col_size;
+            col_end += 1;
         }
 
         //Subtract the underlying cell heights to find the end cell.
         loop {
             let row_size = f64::from(self.row_pixel_height(row_end, object.object_movement()));
-            if y2 >= row_size {
-                y2 -= row_size;
-                row_end += 1;
-            } else {
+            if y2 < row_size {
+                break;
+            }
+            if row_end >= ROW_MAX - 1 {
+                y2 = row_size;
                 break;
             }
+            y2 -= row_size;
+            row_end += 1;
         }
 
         // Create structs to hold the drawing information.
@@ -16899,8 +16912,8 @@ impl Worksheet {
         DrawingInfo {
             from,
             to,
-            col_absolute: u64::from(x_abs),
-            row_absolute: u64::from(y_abs),
+            col_absolute: x_abs,
+            row_absolute: y_abs,
             width,
             height,
             name: object.name(),
-- 
2.43.0


From 95400c05939f725b8eaecdd5de265118503a0dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:56 +0000
Subject: [PATCH 094/110] fix: support embedded images in all rows of constant
 memory worksheets

---
 src/workbook.rs  | 23 +++++++++++++++++++++++
 src/worksheet.rs | 16 ++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index cd02e36..b6ec193 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -340,6 +340,7 @@ pub struct Workbook {
     pub(crate) string_table: Arc<Mutex<SharedStringsTable>>,
     pub(crate) feature_property_bags: HashSet<FeaturePropertyBagTypes>,
 
+    constant_memory_images: Arc<Mutex<Vec<Image>>>,
     xf_indices: Arc<RwLock<HashMap<Format, u32>>>,
     dxf_indices: HashMap<Format, u32>,
     active_tab: u16,
@@ -422,6 +423,7 @@ impl Workbook {
             user_defined_names: vec![],
             xf_indices: Arc::new(RwLock::new(HashMap::from([(Format::default(), 0)]))),
             string_table: Arc::new(Mutex::new(SharedStringsTable::new())),
+            constant_memory_images: Arc::new(Mutex::new(vec![])),
             dxf_indices: HashMap::new(),
             embedded_images: vec![],
             is_xlsm_file: false,
@@ -568,6 +570,7 @@ impl Workbook {
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
 
+        worksheet.workbook_embedded_images = Arc::clone(&self.constant_memory_images);
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
@@ -639,6 +642,7 @@ impl Workbook {
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
 
+        worksheet.workbook_embedded_images = Arc::clone(&self.constant_memory_images);
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
@@ -685,6 +689,7 @@ impl Workbook {
         worksheet.use_inline_strings = true;
         worksheet.use_constant_memory = true;
 
+        worksheet.workbook_embedded_images = Arc::clone(&self.constant_memory_images);
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
@@ -725,6 +730,7 @@ impl Workbook {
         worksheet.use_inline_strings = false;
         worksheet.use_constant_memory = true;
 
+        worksheet.workbook_embedded_images = Arc::clone(&self.constant_memory_images);
         worksheet.workbook_xf_indices = Arc::clone(&self.xf_indices);
         worksheet.has_workbook_global_xfs = true;
 
@@ -2290,6 +2296,15 @@ impl Workbook {
         let mut image_ids: HashMap<String, u32> = HashMap::new();
         let mut global_image_id = 0;
 
+        // The images in constant memory worksheets already have global ids.
+        if self.worksheets.iter().any(|w| !w.embedded_images.is_empty()) {
+            for image in self.constant_memory_images.lock().unwrap().iter() {
+                global_image_id += 1;
+                embedded_images.push(image.clone());
+                image_ids.insert(image.embedded_key(), global_image_id);
+            }
+        }
+
         for worksheet in &mut self.worksheets {
             if worksheet.embedded_images.is_empty() {
                 continue;
@@ -2859,6 +2874,14 @@ impl Workbook {
             }
         }
 
+        // The embedded images may also come from worksheets that weren't added.
+        for image in &self.embedded_images {
+            package_options.image_types[image.image_type.clone() as usize] = true;
+            if !image.alt_text.is_empty() {
+                package_options.has_embedded_image_descriptions = true;
+            }
+        }
+
         // Map the sheet name and associated index so that we can map a sheet
         // reference in a Local/Sheet defined name to a worksheet index.
         for defined_name in &mut defined_names {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index a7a8e44..76aeb31 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1529,6 +1529,7 @@ pub struct Worksheet {
     pub(crate) current_row: RowNum,
     pub(crate) workbook_xf_indices: Arc<RwLock<HashMap<Format, u32>>>,
     pub(crate) string_table: Arc<Mutex<SharedStringsTable>>,
+    pub(crate) workbook_embedded_images: Arc<Mutex<Vec<Image>>>,
 
     pub(crate) has_workbook_global_xfs: bool,
     pub(crate) has_workbook_global_sst: bool,
@@ -1870,6 +1871,7 @@ impl Worksheet {
             current_row: 0,
             workbook_xf_indices: Arc::new(RwLock::new(HashMap::new())),
             string_table: Arc::new(Mutex::new(SharedStringsTable::new())),
+            workbook_embedded_images: Arc::new(Mutex::new(vec![])),
             has_workbook_global_xfs: false,
             has_workbook_global_sst: false,
 
@@ -15535,6 +15537,20 @@ impl Worksheet {
             Some(image_id) => *image_id,
             None => {
                 let image_id = self.embedded_image_ids.len() as u32;
+
+                // In constant memory mode the cell is written before the images
+                // are reconciled with the workbook so get the global id now.
+                if self.use_constant_memory {
+                    let mut images = self.workbook_embedded_images.lock().unwrap();
+                    let index = images.iter().position(|i| i.embedded_key() == image_key);
+                    let index = index.unwrap_or_else(|| {
+                        images.push(image.clone());
+                        images.len() - 1
+                    });
+
+                    self.global_embedded_image_indices.push(index as u32 + 1);
+                }
+
                 self.embedded_image_ids.insert(image_key, image_id);
                 self.embedded_images.push(image.clone());
                 image_id
-- 
2.43.0


From 9d548df3213593ca5c9dee28a86e9498b0f61a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:57 +0000
Subject: [PATCH 095/110] fix: don't overflow after an empty item of a matrix

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 76aeb31..454d41a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -2574,7 +2574,7 @@ impl Worksheet {
         let mut row = row;
         for item in data {
             self.write_row(row, col, item)?;
-            row += 1;
+            row = row.saturating_add(1);
         }
 
         Ok(self)
@@ -2659,7 +2659,7 @@ impl Worksheet {
         let mut col = col;
         for item in data {
             self.write_column(row, col, item)?;
-            col += 1;
+            col = col.saturating_add(1);
         }
 
         Ok(self)
-- 
2.43.0


From 78eaa5fa0161be3c7bc5b563ae06521548966176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:00 +0000
Subject: [PATCH 096/110] fix: don't overflow the index after writing at the
 last row or column

---
 src/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 454d41a..8b7ca32 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -2321,7 +2321,7 @@ impl Worksheet {
         let mut col = col;
         for item in data {
             self.write(row, col, item)?;
-            col += 1;
+            col = col.saturating_add(1);
         }
 
         Ok(self)
@@ -2365,7 +2365,7 @@ impl Worksheet {
         let mut col = col;
         for item in data {
             self.write_with_format(row, col, item, format)?;
-            col += 1;
+            col = col.saturating_add(1);
         }
 
         Ok(self)
@@ -2445,7 +2445,7 @@ impl Worksheet {
         let mut row = row;
         for item in data {
             self.write(row, col, item)?;
-            row += 1;
+            row = row.saturating_add(1);
         }
 
         Ok(self)
@@ -2489,7 +2489,7 @@ impl Worksheet {
         let mut row = row;
         for item in data {
             self.write_with_format(row, col, item, format)?;
-            row += 1;
+            row = row.saturating_add(1);
         }
 
         Ok(self)
-- 
2.43.0


From 12711aaf3bf43d31753eb1f88155c3925ada6319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:08 +0000
Subject: [PATCH 097/110] fix: don't write gradient fills without stops

---
 src/chart.rs | 5 ++++-
 src/shape.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 898d6c0..113ed96 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -13782,7 +13782,10 @@ impl ChartFormat {
     /// <img src="https://rustxlsxwriter.github.io/images/chart_gradient_fill.png">
     ///
     pub fn set_gradient_fill(&mut self, fill: &ChartGradientFill) -> &mut ChartFormat {
-        self.gradient_fill = Some(fill.clone());
+        // A gradient without any valid stops isn't a fill.
+        if !fill.gradient_stops.is_empty() {
+            self.gradient_fill = Some(fill.clone());
+        }
         self
     }
 
diff --git a/src/shape.rs b/src/shape.rs
index 87282ac..599d8fc 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -1030,7 +1030,10 @@ impl ShapeFormat {
     /// <img src="https://rustxlsxwriter.github.io/images/shape_format_set_gradient_fill.png">
     ///
     pub fn set_gradient_fill(mut self, fill: &ShapeGradientFill) -> ShapeFormat {
-        self.gradient_fill = Some(fill.clone());
+        // A gradient without any valid stops isn't a fill.
+        if !fill.gradient_stops.is_empty() {
+            self.gradient_fill = Some(fill.clone());
+        }
         self
     }
 }
-- 
2.43.0


From ddb95d31648ed1c18c4bea870818ef15968d3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:01 +0000
Subject: [PATCH 098/110] fix: update a custom property which is set twice

---
 src/properties.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/properties.rs b/src/properties.rs
index 16de26b..b9490b1 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -609,7 +609,17 @@ impl DocProperties {
         name: impl Into<String>,
         value: impl IntoCustomProperty,
     ) -> DocProperties {
-        self.custom_properties.push(value.new_custom_property(name));
+        let property = value.new_custom_property(name);
+
+        // The name of a custom property must be unique so update any existing one.
+        match self
+            .custom_properties
+            .iter_mut()
+            .find(|existing| existing.name == property.name)
+        {
+            Some(existing) => *existing = property,
+            None => self.custom_properties.push(property),
+        }
 
         self
     }
-- 
2.43.0


From 6a7d849d4b174e708dc3c3f92c5f10653660aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:21 +0000
Subject: [PATCH 099/110] fix: keep the format and marker of a series pushed to
 a chart

---
 src/chart.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 113ed96..dfbd8bb 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -1253,7 +1253,7 @@ impl Chart {
         let mut series = series.clone();
 
         // The default Scatter chart has a hidden line with a standard width.
-        if self.chart_type == ChartType::Scatter {
+        if self.chart_type == ChartType::Scatter && !series.format.has_formatting() {
             series.set_format(
                 ChartFormat::new().set_line(ChartLine::new().set_width(2.25).set_hidden(true)),
             );
@@ -1261,10 +1261,11 @@ impl Chart {
 
         // Turn off markers for chart types that can have markers but don't have
         // them by default.
-        if self.chart_type == ChartType::ScatterStraight
-            || self.chart_type == ChartType::ScatterSmooth
-            || self.chart_group_type == ChartType::Line
-            || self.chart_type == ChartType::Radar
+        if series.marker.is_none()
+            && (self.chart_type == ChartType::ScatterStraight
+                || self.chart_type == ChartType::ScatterSmooth
+                || self.chart_group_type == ChartType::Line
+                || self.chart_type == ChartType::Radar)
         {
             series.marker = Some(ChartMarker::new().set_none().clone());
         }
-- 
2.43.0


From ddd4be9a01f5c88d8ba5a5fc5d0b746619c9d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:21 +0000
Subject: [PATCH 100/110] fix: write the strikethrough of chart fonts

---
 src/chart.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index dfbd8bb..2518b76 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5765,6 +5765,10 @@ impl Chart {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
-- 
2.43.0


From ceef23c6fae5d9a08f975de32acdd843f91c88ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:42 +0000
Subject: [PATCH 101/110] fix: write the font of a formatted chart title which
 comes from a cell

---
 src/chart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 2518b76..597b72c 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -6223,7 +6223,9 @@ impl Chart {
         if title.format.has_formatting() {
             // Write the c:spPr formatting element.
             self.write_sp_pr(&title.format.clone());
-        } else {
+        }
+
+        if !title.format.has_formatting() || title.font != ChartFont::default() {
             // Write the c:txPr element.
             self.write_tx_pr(&title.font, title.is_horizontal);
         }
-- 
2.43.0


From 356e32b4397747c0750c9696aa776447e8783bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:42 +0000
Subject: [PATCH 102/110] fix: don't add a space to whitespace chart label
 separators

---
 src/chart.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 597b72c..e9edba0 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5527,7 +5527,13 @@ impl Chart {
 
     // Write the <c:separator> element.
     fn write_separator(&mut self, separator: char) {
-        xml_data_element_only(&mut self.writer, "c:separator", &format!("{separator} "));
+        // Whitespace separators aren't followed by a space.
+        let mut separator = separator.to_string();
+        if !separator.trim().is_empty() {
+            separator.push(' ');
+        }
+
+        xml_data_element_only(&mut self.writer, "c:separator", &separator);
     }
 
     // Write the <c:showLeaderLines> element for Excel 2007 (mainly only for Pie
-- 
2.43.0


From 55ea4c493961cdb96308069bc141f9bde29c80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:42 +0000
Subject: [PATCH 103/110] fix: don't write leader lines for custom chart data
 labels

---
 src/chart.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index e9edba0..ae871c8 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5137,7 +5137,8 @@ impl Chart {
             self.write_separator(data_label.separator);
         }
 
-        if data_label.show_leader_lines {
+        // Leader lines are a property of the series labels.
+        if data_label.show_leader_lines && !data_label.is_custom {
             match self.chart_group_type {
                 // Write the c:showLeaderLines element.
                 ChartType::Pie | ChartType::Doughnut => {
-- 
2.43.0


From 0efb17c65e78506291656d24cacc2af0b2b66ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:19 +0000
Subject: [PATCH 104/110] fix: use the right axis types for secondary axes of
 bar charts

---
 src/chart.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index ae871c8..3154287 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2940,11 +2940,11 @@ impl Chart {
         self.y_axis.axis_position = ChartAxisPosition::Left;
         self.y_axis.title.is_horizontal = true;
 
-        self.x2_axis.axis_type = ChartAxisType::Category;
+        self.x2_axis.axis_type = ChartAxisType::Value;
         self.x2_axis.axis_position = ChartAxisPosition::Bottom;
         self.x2_axis.crossing = ChartAxisCrossing::Automatic;
 
-        self.y2_axis.axis_type = ChartAxisType::Value;
+        self.y2_axis.axis_type = ChartAxisType::Category;
         self.y2_axis.axis_position = ChartAxisPosition::Left;
         self.y2_axis.crossing = ChartAxisCrossing::Max;
         self.y2_axis.is_hidden = true;
-- 
2.43.0


From 28878a5e200555a663fd5c420c63c84a35ccaa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:47 +0000
Subject: [PATCH 105/110] fix: index deleted chart legend entries by the order
 of the written series

---
 src/chart.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 3154287..0d2c91e 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2842,8 +2842,20 @@ impl Chart {
         let mut deleted_entries = vec![];
         let mut index = 0;
 
+        // The legend entries are in the order that the series are written:
+        // the primary axis series, the secondary axis series and then the
+        // series of any combined chart.
+        let mut all_series = vec![];
+        for chart in std::iter::once(self).chain(self.combined_chart.as_deref()) {
+            let (secondary, primary): (Vec<_>, Vec<_>) =
+                chart.series.iter().partition(|s| s.secondary_axis);
+
+            all_series.extend(primary);
+            all_series.extend(secondary);
+        }
+
         // Check for deleted series in legend.
-        for series in &self.series {
+        for series in &all_series {
             if series.delete_from_legend {
                 deleted_entries.push(index);
             }
@@ -2853,7 +2865,7 @@ impl Chart {
 
         // Check for deleted trendlines in legend. These are indexed after the
         // series they belong to.
-        for series in &self.series {
+        for series in &all_series {
             if series.trendline.trend_type != ChartTrendlineType::None {
                 if series.trendline.delete_from_legend {
                     deleted_entries.push(index);
-- 
2.43.0


From a4a478772e8be67097e876bfaa3c7ef7d847cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:01 +0000
Subject: [PATCH 106/110] fix: write date axes for bar charts and secondary
 axes

---
 src/chart.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 0d2c91e..faf535e 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3567,7 +3567,9 @@ impl Chart {
                 self.write_val_ax(&x_axis, &y_axis, self.axis_ids);
             }
             _ => {
-                if self.x_axis.axis_type == ChartAxisType::Date {
+                if self.x_axis.axis_type == ChartAxisType::Date
+                    || x_axis.axis_type == ChartAxisType::Date
+                {
                     // Write the c:dateAx element.
                     self.write_date_ax(&x_axis, &y_axis, self.axis_ids);
                 } else {
@@ -3615,7 +3617,9 @@ impl Chart {
                     // Write the c:valAx element.
                     self.write_val_ax(&x_axis, &y_axis, self.axis2_ids);
 
-                    if self.x_axis.axis_type == ChartAxisType::Date {
+                    if self.x_axis.axis_type == ChartAxisType::Date
+                        || x_axis.axis_type == ChartAxisType::Date
+                    {
                         // Write the c:dateAx element.
                         self.write_date_ax(&x_axis, &y_axis, self.axis2_ids);
                     } else {
-- 
2.43.0


From d178b34132612bb69bb5c1585be5f1f50e637919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:25 +0000
Subject: [PATCH 107/110] fix: write the text direction of custom chart data
 labels

---
 src/chart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index faf535e..91189a5 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -6346,7 +6346,7 @@ impl Chart {
     fn write_a_p_rich(&mut self, title: &ChartTitle) {
         xml_start_tag_only(&mut self.writer, "a:p");
 
-        if !title.ignore_rich_para {
+        if !title.ignore_rich_para || title.font.right_to_left.is_some() {
             // Write the a:pPr element.
             self.write_a_p_pr_rich(&title.font);
         }
-- 
2.43.0


From 5486fbf701bab6fda34ad33a8d79a5ad316dbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:56 +0000
Subject: [PATCH 108/110] fix: write the strikethrough and text direction of
 shape fonts

---
 src/drawing.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 5f07727..e541e9b 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1114,6 +1114,10 @@ impl Drawing {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
@@ -1165,19 +1169,25 @@ impl Drawing {
         xml_start_tag(&mut self.writer, "a:fld", &attributes);
     }
 
-    // Write the <a:rPr> element for horizontal text alignment.
+    // Write the <a:pPr> element for the text alignment and direction.
     fn write_text_alignment(&mut self, shape: &Shape) {
+        let mut attributes = vec![];
+
         match shape.text_options.horizontal_alignment {
             ShapeTextHorizontalAlignment::Default => {}
-            ShapeTextHorizontalAlignment::Left => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "l")]);
-            }
-            ShapeTextHorizontalAlignment::Center => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "ctr")]);
-            }
-            ShapeTextHorizontalAlignment::Right => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "r")]);
-            }
+            ShapeTextHorizontalAlignment::Left => attributes.push(("algn", "l")),
+            ShapeTextHorizontalAlignment::Center => attributes.push(("algn", "ctr")),
+            ShapeTextHorizontalAlignment::Right => attributes.push(("algn", "r")),
+        }
+
+        match shape.font.right_to_left {
+            Some(true) => attributes.push(("rtl", "1")),
+            Some(false) => attributes.push(("rtl", "0")),
+            None => {}
+        }
+
+        if !attributes.is_empty() {
+            xml_empty_tag(&mut self.writer, "a:pPr", &attributes);
         }
     }
 
-- 
2.43.0


From ff31bf7a89bb6b28652f1cd1a75fae7999240612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:57 +0000
Subject: [PATCH 109/110] fix: write the background image of chartsheets

---
 src/packager.rs  | 4 ++++
 src/worksheet.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/packager.rs b/src/packager.rs
index 7c3ba00..81652af 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -548,6 +548,10 @@ impl<W: Write + Seek + Send> Packager<W> {
             rels.add_document_relationship(&relationship.0, &relationship.1, &relationship.2);
         }
 
+        for relationship in &worksheet.background_relationships {
+            rels.add_document_relationship(&relationship.0, &relationship.1, &relationship.2);
+        }
+
         let filename = format!("xl/chartsheets/_rels/sheet{index}.xml.rels");
 
         self.zip.start_file(filename, self.zip_options)?;
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8b7ca32..2a6d97a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17832,6 +17832,11 @@ impl Worksheet {
             self.write_legacy_drawing_hf();
         }
 
+        // Write the picture element for the background image.
+        if self.background_image.is_some() {
+            self.write_picture();
+        }
+
         // Close the worksheet tag.
         xml_end_tag(&mut self.writer, "chartsheet");
     }
-- 
2.43.0


From 3594e9727b4578d4985b4789f2bbf69371bdb4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:03 +0000
Subject: [PATCH 110/110] fix: leave out settings that chartsheets don't have

---
 src/worksheet.rs | 56 +++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2a6d97a..6ad117f 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17799,16 +17799,6 @@ impl Worksheet {
             self.write_sheet_protection();
         }
 
-        // Write the protectedRange element.
-        if !self.unprotected_ranges.is_empty() {
-            self.write_protected_ranges();
-        }
-
-        // Write the printOptions element.
-        if self.print_options_changed {
-            self.write_print_options();
-        }
-
         // Write the pageMargins element.
         self.write_page_margins();
 
@@ -17903,29 +17893,35 @@ impl Worksheet {
             return;
         }
 
+        // A chartsheet doesn't have filter, outline or fit to page properties.
+        let has_tab_color = self.tab_color != Color::Default && self.tab_color != Color::Automatic;
+        let has_outline =
+            (self.outline_symbols_above || self.outline_symbols_left) && !self.is_chartsheet;
+        let has_page_setup = self.fit_to_page && !self.is_chartsheet;
+
         let mut attributes = vec![];
         if let Some(codename) = vba_codename {
             attributes.push(("codeName", codename));
         }
-        if !self.filter_conditions.is_empty() {
+        if !self.filter_conditions.is_empty() && !self.is_chartsheet {
             attributes.push(("filterMode", "1".to_string()));
         }
 
-        if self.fit_to_page
-            || self.outline_symbols_above
-            || self.outline_symbols_left
-            || (self.tab_color != Color::Default && self.tab_color != Color::Automatic)
-        {
+        if has_page_setup || has_outline || has_tab_color {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
 
             // Write the tabColor element.
             self.write_tab_color();
 
             // Write the outlinePr element.
-            self.write_outline_pr();
+            if has_outline {
+                self.write_outline_pr();
+            }
 
             // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
+            if has_page_setup {
+                self.write_page_set_up_pr();
+            }
 
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
@@ -18020,6 +18016,20 @@ impl Worksheet {
     fn write_sheet_view(&mut self) {
         let mut attributes = vec![];
 
+        // A chartsheet only has the selected and zoom properties.
+        if self.is_chartsheet {
+            if self.selected {
+                attributes.push(("tabSelected", "1".to_string()));
+            }
+            if self.zoom != 100 {
+                attributes.push(("zoomScale", self.zoom.to_string()));
+            }
+            attributes.push(("workbookViewId", "0".to_string()));
+
+            xml_empty_tag(&mut self.writer, "sheetView", &attributes);
+            return;
+        }
+
         if !self.screen_gridlines {
             attributes.push(("showGridLines", "0".to_string()));
         }
@@ -18057,9 +18067,7 @@ impl Worksheet {
                     attributes.push(("zoomScaleSheetLayoutView", self.zoom.to_string()));
                 }
                 PageView::Normal => {
-                    if !self.is_chartsheet {
-                        attributes.push(("zoomScaleNormal", self.zoom.to_string()));
-                    }
+                    attributes.push(("zoomScaleNormal", self.zoom.to_string()));
                 }
             }
         }
@@ -18596,7 +18604,7 @@ impl Worksheet {
             attributes.push(("paperSize", self.paper_size.to_string()));
         }
 
-        if self.print_scale != 100 {
+        if self.print_scale != 100 && !self.is_chartsheet {
             attributes.push(("scale", self.print_scale.to_string()));
         }
 
@@ -18604,7 +18612,7 @@ impl Worksheet {
             attributes.push(("firstPageNumber", self.first_page_number.to_string()));
         }
 
-        if self.fit_to_page {
+        if self.fit_to_page && !self.is_chartsheet {
             if self.fit_width != 1 {
                 attributes.push(("fitToWidth", self.fit_width.to_string()));
             }
@@ -18613,7 +18621,7 @@ impl Worksheet {
             }
         }
 
-        if !self.default_page_order {
+        if !self.default_page_order && !self.is_chartsheet {
             attributes.push(("pageOrder", "overThenDown".to_string()));
         }
 
-- 
2.43.0

