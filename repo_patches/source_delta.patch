From 0540daf75f1d2b9d3a24741c9a21d8a758727ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:45 +0000
Subject: [PATCH 01/29] fix: report an error when the output cannot be written
 out in full

Dropping a BufWriter (or stdout's buffer at exit) swallows write errors, so a
full disk or closed pipe at the end of the report still exited with status 0.
---
 twiggy/twiggy.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/twiggy/twiggy.rs b/twiggy/twiggy.rs
index e1119cf..dab6915 100644
--- a/twiggy/twiggy.rs
+++ b/twiggy/twiggy.rs
@@ -34,5 +34,11 @@ fn run(opts: &opt::Options) -> anyhow::Result<()> {
 
     let mut dest = opts.output_destination().open()?;
 
-    data.emit(&items, &mut *dest, opts.output_format())
+    data.emit(&items, &mut *dest, opts.output_format())?;
+
+    // Both kinds of destination buffer their output, and dropping them ignores
+    // errors: flush explicitly so that we never report success for a report
+    // that could not be written out in full.
+    dest.flush()?;
+    Ok(())
 }
-- 
2.43.0


From 51e4257e3c207063d645062299779a77572f6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:04 +0000
Subject: [PATCH 02/29] fix: do not report success for a JSON report missing
 its closing brackets

The closing brackets are written on drop, which discarded write errors, so
emit_json returned Ok for a truncated document.
---
 analyze/analyses/diff.rs             |  5 ++-
 analyze/analyses/dominators/emit.rs  |  5 ++-
 analyze/analyses/garbage.rs          |  5 ++-
 analyze/analyses/monos/emit.rs       |  5 ++-
 analyze/analyses/paths/paths_emit.rs |  5 ++-
 analyze/analyses/top.rs              |  5 ++-
 analyze/formats/json.rs              | 49 ++++++++++++++++++++++++++++
 7 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index d7613f7..3681641 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -68,7 +68,8 @@ impl traits::Emit for Diff {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, _items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        let mut arr = json::array(dest)?;
+        let mut dest = json::Document::new(dest);
+        let mut arr = json::array(&mut dest)?;
 
         for entry in &self.deltas {
             let mut obj = arr.object()?;
@@ -76,6 +77,8 @@ impl traits::Emit for Diff {
             obj.field("name", entry.name.as_str())?;
         }
 
+        drop(arr);
+        dest.finish()?;
         Ok(())
     }
 
diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 28b53d5..9c5f1ab 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -118,7 +118,8 @@ impl traits::Emit for DominatorTree {
         }
 
         // Scoping the borrow of `arr` so we can get another object in the next block
-        let mut obj = json::object(dest)?;
+        let mut dest = json::Document::new(dest);
+        let mut obj = json::object(&mut dest)?;
         {
             let mut arr = obj.array("items")?;
             for curr_id in &self.items {
@@ -141,6 +142,8 @@ impl traits::Emit for DominatorTree {
             unreachable_items_obj.field("retained_size_percent", size_percent)?;
         }
 
+        drop(obj);
+        dest.finish()?;
         Ok(())
     }
 
diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 77fce23..1ce9e30 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -79,7 +79,8 @@ impl traits::Emit for Garbage {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        let mut arr = json::array(dest)?;
+        let mut dest = json::Document::new(dest);
+        let mut arr = json::array(&mut dest)?;
 
         for &id in self.items.iter().take(self.limit) {
             let item = &items[id];
@@ -133,6 +134,8 @@ impl traits::Emit for Garbage {
             obj.field("size_percent", size_percent)?;
         }
 
+        drop(arr);
+        dest.finish()?;
         Ok(())
     }
 
diff --git a/analyze/analyses/monos/emit.rs b/analyze/analyses/monos/emit.rs
index 2449ad4..bf6b392 100644
--- a/analyze/analyses/monos/emit.rs
+++ b/analyze/analyses/monos/emit.rs
@@ -125,12 +125,15 @@ impl traits::Emit for Monos {
         }
 
         let items_size = f64::from(items.size());
-        let mut arr = json::array(dest)?;
+        let mut dest = json::Document::new(dest);
+        let mut arr = json::array(&mut dest)?;
         for entry in &self.monos {
             let mut obj = arr.object()?;
             process_entry(entry, &mut obj, items_size)?;
         }
 
+        drop(arr);
+        dest.finish()?;
         Ok(())
     }
 
diff --git a/analyze/analyses/paths/paths_emit.rs b/analyze/analyses/paths/paths_emit.rs
index 4d4b378..2f3d52a 100644
--- a/analyze/analyses/paths/paths_emit.rs
+++ b/analyze/analyses/paths/paths_emit.rs
@@ -60,7 +60,8 @@ impl traits::Emit for Paths {
 
         // Initialize a JSON array. For each path entry, add a object to the
         // array, and add that entry's information to the new JSON object.
-        let mut arr = json::array(dest)?;
+        let mut dest = json::Document::new(dest);
+        let mut arr = json::array(&mut dest)?;
         for entry in &self.entries {
             let mut obj = arr.object()?;
             process_entry(
@@ -73,6 +74,8 @@ impl traits::Emit for Paths {
             )?;
         }
 
+        drop(arr);
+        dest.finish()?;
         Ok(())
     }
 
diff --git a/analyze/analyses/top.rs b/analyze/analyses/top.rs
index 65d7f04..d3f65fb 100644
--- a/analyze/analyses/top.rs
+++ b/analyze/analyses/top.rs
@@ -135,7 +135,8 @@ impl traits::Emit for Top {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        let mut arr = json::array(dest)?;
+        let mut dest = json::Document::new(dest);
+        let mut arr = json::array(&mut dest)?;
 
         let max_items = self.opts.max_items() as usize;
         let items_iter = self.items.iter();
@@ -159,6 +160,8 @@ impl traits::Emit for Top {
             }
         }
 
+        drop(arr);
+        dest.finish()?;
         Ok(())
     }
 
diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index c7b5ead..5cab356 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -23,6 +23,55 @@ impl<'a> JsonPrimitive for &'a str {
     }
 }
 
+/// The destination of a whole JSON document.
+///
+/// Arrays and objects write their closing brackets when they are dropped, where
+/// a failed write cannot be returned. This wrapper remembers the first error,
+/// refuses all further writes after it, and hands it out from `finish`.
+pub struct Document<'a> {
+    w: &'a mut dyn io::Write,
+    error: Option<io::Error>,
+}
+
+impl<'a> Document<'a> {
+    pub fn new(w: &'a mut dyn io::Write) -> Document<'a> {
+        Document { w, error: None }
+    }
+
+    /// Finish the document, returning the first error hit while writing it.
+    pub fn finish(self) -> io::Result<()> {
+        match self.error {
+            Some(e) => Err(e),
+            None => Ok(()),
+        }
+    }
+
+    fn check(&self) -> io::Result<()> {
+        match self.error {
+            Some(ref e) => Err(io::Error::new(e.kind(), e.to_string())),
+            None => Ok(()),
+        }
+    }
+}
+
+impl<'a> io::Write for Document<'a> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.check()?;
+        let e = match self.w.write(buf) {
+            Ok(0) if !buf.is_empty() => io::ErrorKind::WriteZero.into(),
+            Err(e) if e.kind() != io::ErrorKind::Interrupted => e,
+            result => return result,
+        };
+        self.error = Some(e);
+        self.check().map(|_| 0)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.check()?;
+        self.w.flush()
+    }
+}
+
 impl JsonPrimitive for f64 {
     fn json_primitive(&self, w: &mut dyn io::Write) -> io::Result<()> {
         write!(w, "{}", self)
-- 
2.43.0


From 29ac2ac54a67c3b7c4eab7dd4e58c604483bb98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:20 +0000
Subject: [PATCH 03/29] fix: escape backslashes, newlines and control
 characters in JSON strings

Names containing any of these made the whole JSON report unparseable.
---
 analyze/formats/json.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index 5cab356..edb3915 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -14,8 +14,9 @@ impl<'a> JsonPrimitive for &'a str {
         for c in self.chars() {
             match c {
                 '"' => write!(w, "\\\"")?,
-                '\\' => write!(w, "\\")?,
-                '\n' => writeln!(w,)?,
+                '\\' => write!(w, "\\\\")?,
+                '\n' => write!(w, "\\n")?,
+                c if c < ' ' => write!(w, "\\u{:04x}", u32::from(c))?,
                 c => write!(w, "{}", c)?,
             }
         }
-- 
2.43.0


From 78fe30b02797e137fe0e7eedf6fdbd46faa16d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:33:24 +0000
Subject: [PATCH 04/29] fix: treat wasm data addresses as unsigned

A constant address of 2 GiB or more was sign-extended, so that adding the
load's offset to it overflowed: a panic with overflow checks, and without them
a reference to whatever data starts near address zero.
---
 parser/wasm_parse/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dee5313..0f93f0e 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -609,7 +609,12 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
                         if let Some(Operator::I32Const { value }) = prev {
-                            if let Some(data_id) = items.get_data(value as u64 + memarg.offset) {
+                            // Wasm addresses are unsigned, and the effective
+                            // address does not wrap around.
+                            let data_id = u64::from(value as u32)
+                                .checked_add(memarg.offset)
+                                .and_then(|address| items.get_data(address));
+                            if let Some(data_id) = data_id {
                                 edges.push((body_id, data_id));
                             }
                         }
@@ -972,7 +977,7 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
             if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
                 let mut iter = init_expr.get_operators_reader();
                 let offset = match iter.read()? {
-                    Operator::I32Const { value } => Some(i64::from(value)),
+                    Operator::I32Const { value } => Some(i64::from(value as u32)),
                     Operator::I64Const { value } => Some(value),
                     _ => None,
                 };
-- 
2.43.0


From 1ac5dffc124822c9d522401b07039848d339c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:55 +0000
Subject: [PATCH 05/29] fix: malformed wasm is an error, not a panic

Indices that are out of bounds, a code section that is cut short and function
and code sections that disagree about the number of functions used to panic.
---
 parser/wasm_parse/mod.rs | 72 ++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 0f93f0e..d90f427 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -7,7 +7,7 @@ use wasmparser::{self, Operator, SectionReader, Type};
 
 #[derive(Default)]
 pub struct SectionIndices {
-    type_: Option<usize>,
+    types: Vec<Option<Id>>,
     code: Option<usize>,
     functions: Vec<Id>,
     tables: Vec<Id>,
@@ -15,6 +15,17 @@ pub struct SectionIndices {
     globals: Vec<Id>,
 }
 
+/// Get the identifier at the given index of one of the wasm index spaces, or an
+/// error if the module refers to something that it does not have.
+fn lookup(ids: &[Id], index: u32) -> anyhow::Result<Id> {
+    ids.get(index as usize).cloned().ok_or_else(|| {
+        anyhow!(
+            "wasm binary refers to an index that is out of bounds: {}",
+            index
+        )
+    })
+}
+
 struct IndexedSection<'a>(usize, wasmparser::Payload<'a>);
 
 struct CodeSection<'a> {
@@ -70,12 +81,13 @@ impl<'a> ModuleReader<'a> {
         start_offset: usize,
         byte_range: wasmparser::Range,
     ) -> anyhow::Result<CodeSection<'a>> {
+        let data = self
+            .data
+            .get(byte_range.start..byte_range.end)
+            .ok_or_else(|| anyhow!("wasm binary cannot be fully parsed"))?;
         Ok(CodeSection {
             index: index,
-            reader: wasmparser::CodeSectionReader::new(
-                &self.data[byte_range.start..byte_range.end],
-                byte_range.start,
-            )?,
+            reader: wasmparser::CodeSectionReader::new(data, byte_range.start)?,
             byte_size: byte_range.end - start_offset,
         })
     }
@@ -256,8 +268,16 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         let mut indices = SectionIndices::default();
         for IndexedSection(idx, section) in sections.iter() {
             match section {
-                wasmparser::Payload::TypeSection(_reader) => {
-                    indices.type_ = Some(*idx);
+                wasmparser::Payload::TypeSection(reader) => {
+                    for (i, ty) in reader.clone().into_iter().enumerate() {
+                        // Only function types have an item.
+                        indices.types.push(match ty? {
+                            wasmparser::TypeDef::Func(_) => Some(Id::entry(*idx, i)),
+                            wasmparser::TypeDef::Module(_) | wasmparser::TypeDef::Instance(_) => {
+                                None
+                            }
+                        });
+                    }
                 }
                 wasmparser::Payload::ImportSection(reader) => {
                     for (i, import) in reader.clone().into_iter().enumerate() {
@@ -499,6 +519,11 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         (imported_functions, names): Self::ItemsExtra,
     ) -> anyhow::Result<()> {
         let (func_section, code_section) = self;
+        if func_section.reader.get_count() != code_section.reader.get_count() {
+            return Err(anyhow!(
+                "function and code sections have inconsistent lengths"
+            ));
+        }
 
         let func_section_index = func_section.index;
         let func_items: Vec<ir::Item> = iterate_with_size(&mut func_section.reader)
@@ -561,12 +586,15 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         // Function section reader parsing.
         for (func_i, type_ref) in iterate_with_size(&mut function_section.reader).enumerate() {
             let (type_ref, _) = type_ref?;
-            if let Some(type_idx) = indices.type_ {
-                let type_id = Id::entry(type_idx, type_ref as usize);
-                if let Some(code_idx) = indices.code {
-                    let body_id = Id::entry(code_idx, func_i);
-                    edges.push((body_id, type_id));
-                }
+            let type_id = indices
+                .types
+                .get(type_ref as usize)
+                .cloned()
+                .flatten()
+                .ok_or_else(|| anyhow!("function has an unknown type: {}", type_ref))?;
+            if let Some(code_idx) = indices.code {
+                let body_id = Id::entry(code_idx, func_i);
+                edges.push((body_id, type_id));
             }
         }
 
@@ -580,7 +608,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                 let prev = cache.take();
                 match op? {
                     Operator::Call { function_index } => {
-                        let f_id = indices.functions[function_index as usize];
+                        let f_id = lookup(&indices.functions, function_index)?;
                         edges.push((body_id, f_id));
                     }
 
@@ -590,7 +618,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::CallIndirect { .. } => continue,
 
                     Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
-                        let g_id = indices.globals[global_index as usize];
+                        let g_id = lookup(&indices.globals, global_index)?;
                         edges.push((body_id, g_id));
                     }
 
@@ -860,16 +888,16 @@ impl<'a> Parse<'a> for wasmparser::ExportSectionReader<'a> {
             let exp_id = Id::entry(idx, i);
             match exp.kind {
                 wasmparser::ExternalKind::Function => {
-                    items.add_edge(exp_id, indices.functions[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.functions, exp.index)?);
                 }
                 wasmparser::ExternalKind::Table => {
-                    items.add_edge(exp_id, indices.tables[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.tables, exp.index)?);
                 }
                 wasmparser::ExternalKind::Memory => {
-                    items.add_edge(exp_id, indices.memories[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.memories, exp.index)?);
                 }
                 wasmparser::ExternalKind::Global => {
-                    items.add_edge(exp_id, indices.globals[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.globals, exp.index)?);
                 }
                 wasmparser::ExternalKind::Tag
                 | wasmparser::ExternalKind::Type
@@ -903,7 +931,7 @@ impl<'a> Parse<'a> for StartSection<'a> {
     ) -> anyhow::Result<()> {
         items.add_edge(
             Id::section(idx),
-            indices.functions[self.function_index as usize],
+            lookup(&indices.functions, self.function_index)?,
         );
         Ok(())
     }
@@ -935,7 +963,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
 
             match elem.kind {
                 wasmparser::ElementKind::Active { table_index, .. } => {
-                    items.add_edge(indices.tables[table_index as usize], elem_id);
+                    items.add_edge(lookup(&indices.tables, table_index)?, elem_id);
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -944,7 +972,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
                 let element_item = element_item?;
                 match element_item {
                     wasmparser::ElementItem::Func(func_idx) => {
-                        items.add_edge(elem_id, indices.functions[func_idx as usize]);
+                        items.add_edge(elem_id, lookup(&indices.functions, func_idx)?);
                     }
                     wasmparser::ElementItem::Null(_ty) => {}
                 }
-- 
2.43.0


From 98a6bbf95e1ea1373df70257916478520ebbe78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:13 +0000
Subject: [PATCH 06/29] fix: do not silently drop duplicate function and code
 sections

---
 parser/wasm_parse/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index d90f427..4c19304 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -123,9 +123,15 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             let indexed_section = IndexedSection(idx, section);
             match indexed_section.1 {
                 wasmparser::Payload::CodeSectionStart { range, .. } => {
+                    if code_section.is_some() {
+                        return Err(anyhow!("duplicate code section"));
+                    }
                     code_section = Some(self.new_code_section(idx, start, range)?);
                 }
                 wasmparser::Payload::FunctionSection(reader) => {
+                    if function_section.is_some() {
+                        return Err(anyhow!("duplicate function section"));
+                    }
                     function_section = Some(FunctionSection {
                         index: idx,
                         byte_size: reader.range().end - start,
-- 
2.43.0


From 3afb9509c80311b611db0d887e0f5d049d8f5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:30 +0000
Subject: [PATCH 07/29] fix: report DWARF sizes that are out of range rather
 than overflow

---
 .../object_parse/die_parse/location_attrs.rs  | 19 +++++++++++++------
 parser/object_parse/die_parse/mod.rs          |  9 ++++++++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index d66bfba..3e056b3 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -1,6 +1,5 @@
 use super::FallilbleOption;
 use anyhow::anyhow;
-use fallible_iterator::FallibleIterator;
 use gimli;
 
 /// This struct holds the values for DWARF attributes related to an object's
@@ -53,7 +52,10 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
             (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                Ok(Some(high_pc - low_pc))
+                let size = high_pc
+                    .checked_sub(low_pc)
+                    .ok_or_else(|| anyhow!("DW_AT_high_pc is below DW_AT_low_pc"))?;
+                Ok(Some(size))
             }
             // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
             // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
@@ -75,10 +77,15 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
     ) -> FallilbleOption<u64> {
         if let Some(raw_offset) = self.dw_at_ranges()? {
             let offset = dwarf.ranges_offset_from_raw(unit, raw_offset);
-            let ranges = dwarf.ranges(unit, offset)?;
-            let size = ranges
-                .map(|r| Ok(r.end - r.begin))
-                .fold(0, |res, size| Ok(res + size))?;
+            let mut ranges = dwarf.ranges(unit, offset)?;
+            let mut size: u64 = 0;
+            while let Some(r) = ranges.next()? {
+                size = r
+                    .end
+                    .checked_sub(r.begin)
+                    .and_then(|len| size.checked_add(len))
+                    .ok_or_else(|| anyhow!("DW_AT_ranges has an invalid range"))?;
+            }
             Ok(Some(size))
         } else {
             Ok(None)
diff --git a/parser/object_parse/die_parse/mod.rs b/parser/object_parse/die_parse/mod.rs
index ef40092..6cc681f 100644
--- a/parser/object_parse/die_parse/mod.rs
+++ b/parser/object_parse/die_parse/mod.rs
@@ -1,4 +1,6 @@
+use anyhow::anyhow;
 use gimli;
+use std::convert::TryFrom;
 use twiggy_ir as ir;
 mod item_name;
 mod location_attrs;
@@ -21,11 +23,16 @@ pub(super) fn parse_items<R: gimli::Reader>(
     let item: ir::Item = match entry.tag() {
         gimli::DW_TAG_subprogram => {
             if let Some(size) = DieLocationAttributes::try_from(entry)?.entity_size(dwarf, unit)? {
+                // Item sizes, and sums of item sizes, are 32 bits.
+                let size = u32::try_from(size)
+                    .ok()
+                    .filter(|size| items.size_added().checked_add(*size).is_some())
+                    .ok_or_else(|| anyhow!("subprogram is too large: {} bytes", size))?;
                 let id = ir::Id::entry(unit_id, entry_id);
                 let name = item_name(entry, dwarf, unit)?
                     .unwrap_or_else(|| format!("Subroutine[{}][{}]", unit_id, entry_id));
                 let kind: ir::ItemKind = ir::Code::new(&name).into();
-                ir::Item::new(id, &name, size as u32, kind)
+                ir::Item::new(id, &name, size, kind)
             } else {
                 return Ok(());
             }
-- 
2.43.0


From 20464514cc0094841ef090b9e72ab973bd40abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:18 +0000
Subject: [PATCH 08/29] fix: implement CSV output of twiggy garbage instead of
 panicking

---
 analyze/analyses/garbage.rs | 50 +++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 1ce9e30..a294b74 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -1,7 +1,10 @@
+use std::cmp;
 use std::collections::BTreeSet;
 use std::io;
 
+use csv;
 use petgraph::visit::Walker;
+use serde_derive::Serialize;
 
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
@@ -140,8 +143,51 @@ impl traits::Emit for Garbage {
     }
 
     #[cfg(feature = "emit_csv")]
-    fn emit_csv(&self, _items: &ir::Items, _dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        unimplemented!();
+    fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
+        let mut wtr = csv::Writer::from_writer(dest);
+
+        #[derive(Serialize, Debug)]
+        #[serde(rename_all = "PascalCase")]
+        struct CsvRecord {
+            name: String,
+            bytes: u32,
+            size_percent: f64,
+        }
+
+        let mut write_record = |name: String, bytes: u32| -> anyhow::Result<()> {
+            let size_percent = f64::from(bytes) / f64::from(items.size()) * 100.0;
+            wtr.serialize(CsvRecord {
+                name,
+                bytes,
+                size_percent,
+            })?;
+            wtr.flush()?;
+            Ok(())
+        };
+        let total_size = |ids: &[ir::Id]| ids.iter().map(|&id| items[id].size()).sum();
+
+        let (shown, remaining) = self.items.split_at(cmp::min(self.limit, self.items.len()));
+        for &id in shown {
+            let item = &items[id];
+            write_record(item.name().to_string(), item.size())?;
+        }
+        if !remaining.is_empty() {
+            let name = format!("... and {} more", remaining.len());
+            write_record(name, total_size(remaining))?;
+        }
+
+        let name = format!("Σ [{} Total Rows]", self.items.len());
+        write_record(name, total_size(&self.items))?;
+
+        if !self.data_segments.is_empty() {
+            let name = format!(
+                "{} potential false-positive data segments",
+                self.data_segments.len()
+            );
+            write_record(name, total_size(&self.data_segments))?;
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From d54e7103112bde482755d6f1e6205476b0235457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:26 +0000
Subject: [PATCH 09/29] fix: account for all items that share a name in diffs

---
 analyze/analyses/diff.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index 3681641..4d358c5 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -103,12 +103,14 @@ pub fn diff(
 ) -> anyhow::Result<Box<dyn traits::Emit>> {
     let max_items = opts.max_items() as usize;
 
-    // Given a set of items, create a HashMap of the items' names and sizes.
+    // Given a set of items, create a HashMap of the items' names and sizes. If
+    // multiple items share a name, this is their total size.
     fn get_names_and_sizes(items: &ir::Items) -> HashMap<&str, i64> {
-        items
-            .iter()
-            .map(|item| (item.name(), i64::from(item.size())))
-            .collect()
+        let mut sizes = HashMap::new();
+        for item in items.iter() {
+            *sizes.entry(item.name()).or_insert(0) += i64::from(item.size());
+        }
+        sizes
     }
 
     // Collect the names and sizes of the items in the old and new collections.
-- 
2.43.0


From 895a302455728c9fcb39d051b7f47c4846207fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:47 +0000
Subject: [PATCH 10/29] fix: count every monomorphization, including ones of
 the same name and size

---
 analyze/analyses/monos/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index b6c1a3a..21503b2 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -1,5 +1,5 @@
 use std::cmp;
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use regex;
 use twiggy_ir as ir;
@@ -29,7 +29,7 @@ fn collect_monomorphizations<'a>(
     let using_regexps = opts.using_regexps();
     let regexps = regex::RegexSet::new(opts.functions())?;
 
-    let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
+    let unsorted_monos: MonosMap<'a> = items
         .iter()
         .filter_map(|item| {
             if let Some(generic) = item.monomorphization_of() {
@@ -46,15 +46,14 @@ fn collect_monomorphizations<'a>(
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
             monos
                 .entry(generic)
-                .or_insert_with(BTreeSet::new)
-                .insert((inst.name().to_string(), inst.size()));
+                .or_insert_with(Vec::new)
+                .push((inst.name().to_string(), inst.size()));
             monos
         });
 
     Ok(unsorted_monos
         .into_iter()
-        .map(|(generic, inst_set)| {
-            let mut insts = inst_set.into_iter().collect::<Vec<_>>();
+        .map(|(generic, mut insts)| {
             insts.sort_by(|(a_name, a_size), (b_name, b_size)| {
                 b_size.cmp(a_size).then(a_name.cmp(b_name))
             });
-- 
2.43.0


From d532a9ad5fe1b3e8049268d27a7b082b2b80916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:54 +0000
Subject: [PATCH 11/29] fix: honour item names in the CSV output of twiggy
 dominators

---
 analyze/analyses/dominators/emit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 9c5f1ab..081ffa9 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -168,7 +168,9 @@ impl traits::Emit for DominatorTree {
         }
 
         let mut wtr = csv::Writer::from_writer(dest);
-        recursive_add_children(items, &self.opts, &self.tree, items.meta_root(), &mut wtr)?;
+        for id in &self.items {
+            recursive_add_children(items, &self.opts, &self.tree, *id, &mut wtr)?;
+        }
 
         if let Some(UnreachableItemsSummary {
             count,
-- 
2.43.0


From 0bcd0f75fefa9bf2f837e989959ef2523e940f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 12/29] fix: do not parse exact names given to twiggy monos as
 regular expressions

---
 analyze/analyses/monos/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index 21503b2..9b586e9 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -27,7 +27,12 @@ fn collect_monomorphizations<'a>(
 ) -> anyhow::Result<MonosMap<'a>> {
     let args_given = !opts.functions().is_empty();
     let using_regexps = opts.using_regexps();
-    let regexps = regex::RegexSet::new(opts.functions())?;
+    // Exact names need not be valid regular expressions.
+    let regexps = if using_regexps {
+        regex::RegexSet::new(opts.functions())?
+    } else {
+        regex::RegexSet::empty()
+    };
 
     let unsorted_monos: MonosMap<'a> = items
         .iter()
-- 
2.43.0


From 67cd168e35b3f2b955903c3b9f99490fba284ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 13/29] fix: do not build call paths beyond the limits of
 twiggy paths

---
 analyze/analyses/paths/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 70b84e0..792ba07 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -29,7 +29,7 @@ pub fn paths(items: &mut ir::Items, opts: &opt::Paths) -> anyhow::Result<Box<dyn
     let opts = opts.clone();
     let entries = get_starting_positions(items, &opts)?
         .iter()
-        .map(|id| create_entry(*id, items, &opts, &mut BTreeSet::new()))
+        .map(|id| create_entry(*id, items, &opts, 0, &mut BTreeSet::new()))
         .collect();
 
     let paths = Paths { opts, entries };
@@ -97,11 +97,12 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
     Ok(res)
 }
 
-/// Create a `PathsEntry` object for the given item.
+/// Create a `PathsEntry` object for the given item, which is at the given depth.
 fn create_entry(
     id: ir::Id,
     items: &ir::Items,
     opts: &opt::Paths,
+    depth: u32,
     seen: &mut BTreeSet<ir::Id>,
 ) -> PathsEntry {
     // Determine the item's name and size.
@@ -129,10 +130,23 @@ fn create_entry(
 
     // Temporarily add the current item to the set of discovered nodes, and
     // create an entry for each child. Collect these into a `children` vector.
+    // Only the name of a child that is beyond the limits is ever needed, so do
+    // not follow the (possibly exponentially many) paths that continue from it.
     seen.insert(id);
     let children = children_ids
         .into_iter()
-        .map(|id| create_entry(id, items, opts, seen))
+        .enumerate()
+        .map(|(i, id)| {
+            if depth < opts.max_depth() && i < opts.max_paths() as usize {
+                create_entry(id, items, opts, depth + 1, seen)
+            } else {
+                PathsEntry {
+                    name: items[id].name().to_string(),
+                    size: items[id].size(),
+                    children: vec![],
+                }
+            }
+        })
         .collect();
     seen.remove(&id);
 
-- 
2.43.0


From 82833e91bac5be696e6db726462ce155f423e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 14/29] fix: make the row limit of twiggy dominators count the
 rows it shows

---
 analyze/analyses/dominators/emit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 081ffa9..80172cd 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -36,19 +36,19 @@ impl traits::Emit for DominatorTree {
         ) {
             assert_eq!(id == items.meta_root(), depth == 0);
 
-            if *row > opts.max_rows() || depth > opts.max_depth() {
+            if *row >= opts.max_rows() || depth > opts.max_depth() {
                 return;
             }
 
             if depth > 0 {
                 add_text_item(items, depth, id, table);
+                *row += 1;
             }
 
             if let Some(children) = dominator_tree.get(&id) {
                 let mut children = children.to_vec();
                 children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
                 for child in children {
-                    *row += 1;
                     recursive_add_rows(
                         table,
                         items,
-- 
2.43.0


From 89fa2b448207a99f8551db5a4c70d045f5ac52c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 15/29] fix: do not repeat items on the paths through a
 self-recursive item

An item that references itself is shown as its own first step. Finishing
that inner occurrence took the item out of the set of items already on the
path, so that paths through its remaining neighbours led back to it.
---
 analyze/analyses/paths/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 792ba07..7a3d720 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -132,7 +132,9 @@ fn create_entry(
     // create an entry for each child. Collect these into a `children` vector.
     // Only the name of a child that is beyond the limits is ever needed, so do
     // not follow the (possibly exponentially many) paths that continue from it.
-    seen.insert(id);
+    // An item that references itself is among its own children, and must stay
+    // in the set until we are done with the outer occurrence.
+    let newly_seen = seen.insert(id);
     let children = children_ids
         .into_iter()
         .enumerate()
@@ -148,7 +150,9 @@ fn create_entry(
             }
         })
         .collect();
-    seen.remove(&id);
+    if newly_seen {
+        seen.remove(&id);
+    }
 
     PathsEntry {
         name,
-- 
2.43.0


From 67a79db6dc92ec1f41158a728d687fa9933dc1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 16/29] fix: report sections outside of a native object rather
 than panic

A damaged section header made the object crate slice out of bounds.
---
 parser/object_parse/mod.rs | 44 +++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 96800f1..d4ea142 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -1,7 +1,7 @@
 use anyhow::anyhow;
 use fallible_iterator::FallibleIterator;
 use gimli;
-use object::{self, Object};
+use object::{self, Object, ObjectSection};
 use std::borrow::{Borrow, Cow};
 use twiggy_ir as ir;
 use typed_arena::Arena;
@@ -13,19 +13,33 @@ mod die_parse;
 fn load_section<'a, 'file, 'input, Sect, Endian>(
     arena: &'a Arena<Cow<'file, [u8]>>,
     file: &'file object::File<'input>,
+    file_size: usize,
     endian: Endian,
-) -> Sect
+) -> anyhow::Result<Sect>
 where
     Sect: gimli::Section<gimli::EndianSlice<'a, Endian>>,
     Endian: gimli::Endianity,
     'file: 'input,
     'a: 'file,
 {
-    let data = file
-        .section_data_by_name(Sect::section_name())
-        .unwrap_or(Cow::Borrowed(&[]));
+    let name = Sect::section_name();
+    let data = match file.section_by_name(name) {
+        Some(section) => {
+            // The `object` crate trusts the section header with this.
+            if let Some((offset, size)) = section.file_range() {
+                if offset
+                    .checked_add(size)
+                    .map_or(true, |end| end > file_size as u64)
+                {
+                    return Err(anyhow!("Section {} is outside of the file", name));
+                }
+            }
+            section.uncompressed_data()
+        }
+        None => Cow::Borrowed(&[][..]),
+    };
     let data_ref = (*arena.alloc(data)).borrow();
-    Sect::from(gimli::EndianSlice::new(data_ref, endian))
+    Ok(Sect::from(gimli::EndianSlice::new(data_ref, endian)))
 }
 
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
@@ -41,15 +55,15 @@ pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     };
 
     // Load the sections of the file containing debugging information.
-    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, endian);
-    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, endian);
-    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, endian);
-    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, endian);
-    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, endian);
-    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, endian);
-    let debug_str_offsets: gimli::DebugStrOffsets<_> = load_section(&arena, &file, endian);
-    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, endian);
-    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, endian);
+    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_str_offsets: gimli::DebugStrOffsets<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, data.len(), endian)?;
     let ranges = gimli::RangeLists::new(debug_ranges, debug_rnglists);
     let dwarf = gimli::Dwarf {
         debug_abbrev,
-- 
2.43.0


From 3d3c2c0678089bd2955fb622634293324c42a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 17/29] fix: report errors of the WebAssembly interface to its
 caller

A damaged module, or an analysis that fails, made the interface panic. That
aborts the instance, hides the message, and leaves the items it happened in
borrowed, so that every later call on them fails.
---
 wasm-api/wasm-api.rs | 56 ++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/wasm-api/wasm-api.rs b/wasm-api/wasm-api.rs
index 0d0638e..fd24c5c 100755
--- a/wasm-api/wasm-api.rs
+++ b/wasm-api/wasm-api.rs
@@ -1,12 +1,19 @@
 #![cfg(target_arch = "wasm32")]
 #![cfg(feature = "emit_json")]
 
+use std::fmt::Display;
 use twiggy_analyze as analyze;
 use twiggy_ir as ir;
 use twiggy_opt as opt;
 use twiggy_parser as parser;
 use wasm_bindgen::prelude::*;
 
+// Errors are returned, not unwrapped: a panic aborts the whole instance, and
+// leaves the `Items` it happened in borrowed for good.
+fn js_error(e: impl Display) -> JsError {
+    JsError::new(&e.to_string())
+}
+
 #[wasm_bindgen]
 pub struct Items {
     items: ir::Items,
@@ -14,43 +21,46 @@ pub struct Items {
 
 #[wasm_bindgen]
 impl Items {
-    pub fn parse(data: &[u8]) -> Items {
-        let items = parser::parse(data).unwrap();
-        Items { items }
+    pub fn parse(data: &[u8]) -> Result<Items, JsError> {
+        let items = parser::parse(data).map_err(js_error)?;
+        Ok(Items { items })
     }
 
-    pub fn top(&mut self, options: &opt::Top) -> String {
-        let top = analyze::top(&mut self.items, options).unwrap();
+    pub fn top(&mut self, options: &opt::Top) -> Result<String, JsError> {
+        let top = analyze::top(&mut self.items, options).map_err(js_error)?;
         let mut buf = Vec::new();
-        top.emit_json(&self.items, &mut buf).unwrap();
-        String::from_utf8(buf).unwrap()
+        top.emit_json(&self.items, &mut buf).map_err(js_error)?;
+        Ok(String::from_utf8(buf)?)
     }
 
-    pub fn dominators(&mut self, options: &opt::Dominators) -> String {
-        let dominators = analyze::dominators(&mut self.items, options).unwrap();
+    pub fn dominators(&mut self, options: &opt::Dominators) -> Result<String, JsError> {
+        let dominators = analyze::dominators(&mut self.items, options).map_err(js_error)?;
         let mut buf = Vec::new();
-        dominators.emit_json(&self.items, &mut buf).unwrap();
-        String::from_utf8(buf).unwrap()
+        dominators
+            .emit_json(&self.items, &mut buf)
+            .map_err(js_error)?;
+        Ok(String::from_utf8(buf)?)
     }
 
-    pub fn paths(&mut self, options: &opt::Paths) -> String {
-        let paths = analyze::paths(&mut self.items, options).unwrap();
+    pub fn paths(&mut self, options: &opt::Paths) -> Result<String, JsError> {
+        let paths = analyze::paths(&mut self.items, options).map_err(js_error)?;
         let mut buf = Vec::new();
-        paths.emit_json(&self.items, &mut buf).unwrap();
-        String::from_utf8(buf).unwrap()
+        paths.emit_json(&self.items, &mut buf).map_err(js_error)?;
+        Ok(String::from_utf8(buf)?)
     }
 
-    pub fn monos(&mut self, options: &opt::Monos) -> String {
-        let monos = analyze::monos(&mut self.items, options).unwrap();
+    pub fn monos(&mut self, options: &opt::Monos) -> Result<String, JsError> {
+        let monos = analyze::monos(&mut self.items, options).map_err(js_error)?;
         let mut buf = Vec::new();
-        monos.emit_json(&self.items, &mut buf).unwrap();
-        String::from_utf8(buf).unwrap()
+        monos.emit_json(&self.items, &mut buf).map_err(js_error)?;
+        Ok(String::from_utf8(buf)?)
     }
 
-    pub fn diff(&mut self, new_items: &mut Items, options: &opt::Diff) -> String {
-        let diff = analyze::diff(&mut self.items, &mut new_items.items, options).unwrap();
+    pub fn diff(&mut self, new_items: &mut Items, options: &opt::Diff) -> Result<String, JsError> {
+        let diff =
+            analyze::diff(&mut self.items, &mut new_items.items, options).map_err(js_error)?;
         let mut buf = Vec::new();
-        diff.emit_json(&self.items, &mut buf).unwrap();
-        String::from_utf8(buf).unwrap()
+        diff.emit_json(&self.items, &mut buf).map_err(js_error)?;
+        Ok(String::from_utf8(buf)?)
     }
 }
-- 
2.43.0


From be300dcdb04acba2e991591626d6eb4decb08197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 18/29] fix: let callers of the WebAssembly interface construct
 diff options

Without a constructor, the interface's diff cannot be called at all.
---
 opt/definitions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opt/definitions.rs b/opt/definitions.rs
index 5a3bbe3..0bf0efc 100644
--- a/opt/definitions.rs
+++ b/opt/definitions.rs
@@ -601,6 +601,11 @@ impl Diff {
 
 #[wasm_bindgen]
 impl Diff {
+    /// Construct a new, default `Diff`.
+    pub fn new() -> Diff {
+        Diff::default()
+    }
+
     /// The maximum number of items to display.
     pub fn max_items(&self) -> u32 {
         if self.all_items {
-- 
2.43.0


From 06c1927fbc8ef798c08b3fb271e5c5f72bc5c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 19/29] fix: link data that reaches up to the end of the
 address space

The bound was off by one, and where usize has 32 bits its computation
overflowed, which made the WebAssembly build panic.
---
 ir/ir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 5cb3d22..33bf9a3 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -79,8 +79,8 @@ impl ItemsBuilder {
 
     /// Add a range of static data and the `Id` that defines it.
     pub fn link_data(&mut self, offset: i64, len: usize, id: Id) {
-        if offset >= 0 && offset <= i64::from(u32::MAX) && offset as usize + len < u32::MAX as usize
-        {
+        // In 64 bits: where `usize` has 32, the sum may overflow.
+        if (0..=i64::from(u32::MAX)).contains(&offset) && offset as u64 + len as u64 <= 1 << 32 {
             self.data.insert(offset as u64, (id, len as u64));
         }
     }
-- 
2.43.0


From af27cc73a46d86acf020a362d17c286b342d55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 20/29] fix: tail calls and function references are references

A function that is only called by return_call, or whose reference is only
taken by ref.func, was reported as garbage and missing from call paths.
---
 parser/wasm_parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 4c19304..861c0f0 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -613,7 +613,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
             for op in body.get_operators_reader()? {
                 let prev = cache.take();
                 match op? {
-                    Operator::Call { function_index } => {
+                    Operator::Call { function_index }
+                    | Operator::ReturnCall { function_index }
+                    | Operator::RefFunc { function_index } => {
                         let f_id = lookup(&indices.functions, function_index)?;
                         edges.push((body_id, f_id));
                     }
-- 
2.43.0


From 2f6d4dbed3bc633d659d5e45c84e64743211d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 21/29] fix: read DWARF 5 addresses and ranges that are given
 by index

DW_FORM_addrx and DW_FORM_rnglistx, which clang uses by default with
DWARF 5, were rejected as unexpected attribute values, and with them the
whole file.
---
 .../object_parse/die_parse/location_attrs.rs  | 53 ++++++++++++-------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index 3e056b3..626dc56 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -35,7 +35,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(size) = self.contiguous_entity_size()? {
+        if let Some(size) = self.contiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
         } else if let Some(size) = self.noncontiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
@@ -46,22 +46,28 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
 
     /// Compute the size of an entity occupying a contiguous range of machine
     /// code addresses in the binary.
-    fn contiguous_entity_size(&self) -> FallilbleOption<u64> {
-        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc()?;
+    fn contiguous_entity_size(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
+        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc(dwarf, unit)?;
         match (dw_at_low_pc, &self.dw_at_high_pc) {
+            // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
+            // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
+            (Some(_), Some(gimli::AttributeValue::Udata(offset))) => Ok(Some(*offset)),
             // If DW_AT_high_pc is encoded as an address, return the difference
-            // between that value and the DW_AT_low_pc address.
-            (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
+            // between that value and the DW_AT_low_pc address. Return an error
+            // if DW_AT_high_pc is not encoded as expected.
+            (Some(low_pc), Some(high_pc)) => {
+                let high_pc = dwarf
+                    .attr_address(unit, high_pc.clone())?
+                    .ok_or_else(|| anyhow!("Unexpected DW_AT_high_pc attribute value"))?;
                 let size = high_pc
                     .checked_sub(low_pc)
                     .ok_or_else(|| anyhow!("DW_AT_high_pc is below DW_AT_low_pc"))?;
                 Ok(Some(size))
             }
-            // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
-            // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
-            (Some(_), Some(gimli::AttributeValue::Udata(offset))) => Ok(Some(*offset)),
-            // Return an error if DW_AT_high_pc is not encoded as expected.
-            (Some(_), Some(_)) => Err(anyhow!("Unexpected DW_AT_high_pc attribute value")),
             // If none of the above conditions were met, this is either a
             // noncontiguous entity, or the DIE does not represent a definition.
             _ => Ok(None),
@@ -75,8 +81,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(raw_offset) = self.dw_at_ranges()? {
-            let offset = dwarf.ranges_offset_from_raw(unit, raw_offset);
+        if let Some(offset) = self.dw_at_ranges(dwarf, unit)? {
             let mut ranges = dwarf.ranges(unit, offset)?;
             let mut size: u64 = 0;
             while let Some(r) = ranges.next()? {
@@ -93,22 +98,30 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
     }
 
     /// Return the DW_AT_low_pc attribute as a u64 value representing an address.
-    fn dw_at_low_pc(&self) -> FallilbleOption<u64> {
+    /// DWARF 5 allows it to be encoded as an index into `.debug_addr`.
+    fn dw_at_low_pc(&self, dwarf: &gimli::Dwarf<R>, unit: &gimli::Unit<R>) -> FallilbleOption<u64> {
         match &self.dw_at_low_pc {
-            Some(gimli::AttributeValue::Addr(address)) => Ok(Some(*address)),
-            Some(_) => Err(anyhow!("Unexpected base address attribute value",)),
+            Some(low_pc) => match dwarf.attr_address(unit, low_pc.clone())? {
+                Some(address) => Ok(Some(address)),
+                None => Err(anyhow!("Unexpected base address attribute value")),
+            },
             None => Ok(None),
         }
     }
 
-    /// Return the DW_AT_ranges attribute as a u64 value representing an offset
-    /// into the `.debug_ranges` section of the file.
+    /// Return the DW_AT_ranges attribute as an offset into the `.debug_ranges`
+    /// or `.debug_rnglists` section of the file. DWARF 5 allows it to be encoded
+    /// as an index into the latter.
     fn dw_at_ranges(
         &self,
-    ) -> FallilbleOption<gimli::RawRangeListsOffset<<R as gimli::Reader>::Offset>> {
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<gimli::RangeListsOffset<<R as gimli::Reader>::Offset>> {
         match &self.dw_at_ranges {
-            Some(gimli::AttributeValue::RangeListsRef(offset)) => Ok(Some(*offset)),
-            Some(_) => Err(anyhow!("Unexpected DW_AT_ranges value")),
+            Some(ranges) => match dwarf.attr_ranges_offset(unit, ranges.clone())? {
+                Some(offset) => Ok(Some(offset)),
+                None => Err(anyhow!("Unexpected DW_AT_ranges value")),
+            },
             None => Ok(None),
         }
     }
-- 
2.43.0


From 0af0098eba57c21cbd378eade81113ee88d9325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 22/29] fix: sum up retained sizes in 64 bits

Retained sizes overlap, so that the total and the remainder row of
`twiggy top --retained` can exceed 32 bits, which panicked (or, in a release
build, wrapped around).
---
 analyze/analyses/top.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/top.rs b/analyze/analyses/top.rs
index d3f65fb..7cde884 100644
--- a/analyze/analyses/top.rs
+++ b/analyze/analyses/top.rs
@@ -45,7 +45,8 @@ impl traits::Emit for Top {
         // Helper function used to summnarize a sequence of table rows. This is
         // used to generate the remaining summary and total rows. Returns a tuple
         // containing the total size, total size percentage, and number of items.
-        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u32, f64, u32) {
+        // Retained sizes overlap, so that their sum may exceed 32 bits.
+        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u64, f64, u32) {
             rows.fold(
                 (0, 0.0, 0),
                 |(total_size, total_percent, remaining_count),
@@ -53,7 +54,7 @@ impl traits::Emit for Top {
                      size, size_percent, ..
                  }| {
                     (
-                        total_size + size,
+                        total_size + u64::from(size),
                         total_percent + size_percent,
                         remaining_count + 1,
                     )
-- 
2.43.0


From 4577424c123f7d7469cf07e212b755bc42e585b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 23/29] fix: compute retained sizes without recursion

The dominator tree may be as deep as there are items. A long chain of calls
overflowed the stack of `twiggy top --retained`.
---
 ir/ir.rs | 55 +++++++++++++++++++++----------------------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 33bf9a3..d9e86c3 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -289,44 +289,31 @@ impl Items {
         }
         self.compute_dominator_tree();
 
-        fn recursive_retained_size(
-            retained_sizes: &mut BTreeMap<Id, u32>,
-            items: &Items,
-            item: &Item,
-            dominator_tree: &BTreeMap<Id, Vec<Id>>,
-        ) -> u32 {
-            // Although the dominator tree cannot have cycles, because we
-            // compute retained sizes in item iteration order, rather than from
-            // the bottom of the dominator tree up, it is possible we have
-            // already computed the retained sizes for subtrees.
-            if let Some(rsize) = retained_sizes.get(&item.id()) {
-                return *rsize;
-            }
-
-            let mut rsize = item.size();
-            if let Some(children) = dominator_tree.get(&item.id()) {
-                for child in children {
-                    rsize += recursive_retained_size(
-                        retained_sizes,
-                        items,
-                        &items[*child],
-                        dominator_tree,
-                    );
-                }
-            }
-
-            let old_value = retained_sizes.insert(item.id(), rsize);
-            // The dominator tree is a proper tree, so there shouldn't be
-            // any cycles.
-            assert!(old_value.is_none());
-            rsize
-        }
-
+        // From the bottom of the dominator tree up. The tree may be as deep as
+        // there are items, too deep for recursion.
         let mut retained_sizes = BTreeMap::new();
         {
             let dominator_tree = self.dominator_tree.as_ref().unwrap();
+            let children = |id: Id| dominator_tree.get(&id).into_iter().flatten();
             for item in self.iter() {
-                recursive_retained_size(&mut retained_sizes, self, item, dominator_tree);
+                let mut stack = vec![(item.id(), false)];
+                while let Some((id, children_done)) = stack.pop() {
+                    // Because we go through the items in iteration order, it is
+                    // possible we have already computed the retained sizes for
+                    // subtrees.
+                    if retained_sizes.contains_key(&id) {
+                        continue;
+                    }
+                    if children_done {
+                        let rsize = children(id)
+                            .map(|child| retained_sizes[child])
+                            .sum::<u32>();
+                        retained_sizes.insert(id, self[id].size() + rsize);
+                    } else {
+                        stack.push((id, true));
+                        stack.extend(children(id).map(|child| (*child, false)));
+                    }
+                }
             }
         }
         self.retained_sizes = Some(retained_sizes);
-- 
2.43.0


From c21488a16024ce165c45a6befddec633d63c5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 24/29] fix: references in global initializers and segment
 offsets count

What `global.get` and `ref.func` refer to in the initial value of a global, or
in the offset of an element or data segment, was reported as garbage and missing
from call paths and dominator trees.
---
 parser/wasm_parse/mod.rs | 57 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 861c0f0..fa0c885 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -26,6 +26,27 @@ fn lookup(ids: &[Id], index: u32) -> anyhow::Result<Id> {
     })
 }
 
+/// Add edges from the given item to what its initialization expression refers to.
+fn add_init_expr_edges(
+    items: &mut ir::ItemsBuilder,
+    indices: &SectionIndices,
+    from: Id,
+    init_expr: &wasmparser::InitExpr,
+) -> anyhow::Result<()> {
+    for op in init_expr.get_operators_reader() {
+        match op? {
+            Operator::GlobalGet { global_index } => {
+                items.add_edge(from, lookup(&indices.globals, global_index)?);
+            }
+            Operator::RefFunc { function_index } => {
+                items.add_edge(from, lookup(&indices.functions, function_index)?);
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 struct IndexedSection<'a>(usize, wasmparser::Payload<'a>);
 
 struct CodeSection<'a> {
@@ -378,7 +399,7 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
                     reader.parse_edges(items, ())?;
                 }
                 wasmparser::Payload::GlobalSection(mut reader) => {
-                    reader.parse_edges(items, ())?;
+                    reader.parse_edges(items, (&indices, idx))?;
                 }
                 wasmparser::Payload::ExportSection(mut reader) => {
                     reader.parse_edges(items, (&indices, idx))?;
@@ -394,7 +415,7 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
                     reader.parse_edges(items, (&indices, idx))?;
                 }
                 wasmparser::Payload::DataSection(mut reader) => {
-                    reader.parse_edges(items, ())?;
+                    reader.parse_edges(items, (&indices, idx))?;
                 }
                 wasmparser::Payload::CodeSectionStart { .. }
                 | wasmparser::Payload::FunctionSection { .. } => {
@@ -864,9 +885,17 @@ impl<'a> Parse<'a> for wasmparser::GlobalSectionReader<'a> {
         Ok(())
     }
 
-    type EdgesExtra = ();
+    type EdgesExtra = (&'a SectionIndices, usize);
 
-    fn parse_edges(&mut self, _: &mut ir::ItemsBuilder, _: ()) -> anyhow::Result<()> {
+    fn parse_edges(
+        &mut self,
+        items: &mut ir::ItemsBuilder,
+        (indices, idx): Self::EdgesExtra,
+    ) -> anyhow::Result<()> {
+        for (i, g) in iterate_with_size(self).enumerate() {
+            let (g, _) = g?;
+            add_init_expr_edges(items, indices, Id::entry(idx, i), &g.init_expr)?;
+        }
         Ok(())
     }
 }
@@ -970,8 +999,12 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
             let elem_id = Id::entry(idx, i);
 
             match elem.kind {
-                wasmparser::ElementKind::Active { table_index, .. } => {
+                wasmparser::ElementKind::Active {
+                    table_index,
+                    init_expr,
+                } => {
                     items.add_edge(lookup(&indices.tables, table_index)?, elem_id);
+                    add_init_expr_edges(items, indices, elem_id, &init_expr)?;
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -1027,9 +1060,19 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
         Ok(())
     }
 
-    type EdgesExtra = ();
+    type EdgesExtra = (&'a SectionIndices, usize);
 
-    fn parse_edges(&mut self, _: &mut ir::ItemsBuilder, _: ()) -> anyhow::Result<()> {
+    fn parse_edges(
+        &mut self,
+        items: &mut ir::ItemsBuilder,
+        (indices, idx): Self::EdgesExtra,
+    ) -> anyhow::Result<()> {
+        for (i, d) in iterate_with_size(self).enumerate() {
+            let (d, _) = d?;
+            if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
+                add_init_expr_edges(items, indices, Id::entry(idx, i), &init_expr)?;
+            }
+        }
         Ok(())
     }
 }
-- 
2.43.0


From d60cc12c07eecfffc028c8efcbcdb0835b55ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 25/29] fix: do not let an empty data segment hide another one

A load from the first address of a data segment was linked to nothing when an
empty segment that begins at the same address follows.
---
 ir/ir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/ir.rs b/ir/ir.rs
index d9e86c3..dfe40e7 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -79,6 +79,12 @@ impl ItemsBuilder {
 
     /// Add a range of static data and the `Id` that defines it.
     pub fn link_data(&mut self, offset: i64, len: usize, id: Id) {
+        // There is nothing to load from an empty segment, and it must not hide
+        // another one that begins at the same offset.
+        if len == 0 {
+            return;
+        }
+
         // In 64 bits: where `usize` has 32, the sum may overflow.
         if (0..=i64::from(u32::MAX)).contains(&offset) && offset as u64 + len as u64 <= 1 << 32 {
             self.data.insert(offset as u64, (id, len as u64));
-- 
2.43.0


From 3a07298ef138f267c6ab3a2443b8dd57c8168cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 26/29] fix: find Mach-O sections whose names are cut off

Names have at most 16 bytes there, so that `.debug_str_offsets` was not found,
and objects whose strings are given by index were rejected.
---
 parser/object_parse/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index d4ea142..7d99364 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -23,7 +23,12 @@ where
     'a: 'file,
 {
     let name = Sect::section_name();
-    let data = match file.section_by_name(name) {
+    // Section names in Mach-O files are cut off at 16 bytes, and begin with two
+    // underscores instead of the dot.
+    let section = file
+        .section_by_name(name)
+        .or_else(|| file.section_by_name(name.get(..15)?));
+    let data = match section {
         Some(section) => {
             // The `object` crate trusts the section header with this.
             if let Some((offset, size)) = section.file_range() {
-- 
2.43.0


From 0782eadca67c46c283d0034c7d4e914f7e9d1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 27/29] fix: link loads from 64-bit memories to their data

The addresses of a 64-bit memory are given by `i64.const`, and data and
offsets may lie beyond what 32 bits can address: the former were not
looked at, and the latter were refused or forgotten.
---
 ir/ir.rs                 |  7 ++++---
 parser/wasm_parse/mod.rs | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index dfe40e7..c369f7d 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -85,9 +85,10 @@ impl ItemsBuilder {
             return;
         }
 
-        // In 64 bits: where `usize` has 32, the sum may overflow.
-        if (0..=i64::from(u32::MAX)).contains(&offset) && offset as u64 + len as u64 <= 1 << 32 {
-            self.data.insert(offset as u64, (id, len as u64));
+        // Wasm addresses are unsigned.
+        let offset = offset as u64;
+        if offset.checked_add(len as u64).is_some() {
+            self.data.insert(offset, (id, len as u64));
         }
     }
 
diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index fa0c885..74190d0 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -630,8 +630,11 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
             let (body, _size) = body?;
             let body_id = Id::entry(code_section.index, b_i);
 
+            let mut ops = body.get_operators_reader()?;
+            ops.allow_memarg64(true);
+
             let mut cache = None;
-            for op in body.get_operators_reader()? {
+            for op in ops {
                 let prev = cache.take();
                 match op? {
                     Operator::Call { function_index }
@@ -665,10 +668,15 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::I64Load32U { memarg }
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
-                        if let Some(Operator::I32Const { value }) = prev {
-                            // Wasm addresses are unsigned, and the effective
-                            // address does not wrap around.
-                            let data_id = u64::from(value as u32)
+                        // Wasm addresses are unsigned.
+                        let base = match prev {
+                            Some(Operator::I32Const { value }) => Some(u64::from(value as u32)),
+                            Some(Operator::I64Const { value }) => Some(value as u64),
+                            _ => None,
+                        };
+                        if let Some(base) = base {
+                            // The effective address does not wrap around.
+                            let data_id = base
                                 .checked_add(memarg.offset)
                                 .and_then(|address| items.get_data(address));
                             if let Some(data_id) = data_id {
-- 
2.43.0


From 10274da0a019267e51899f6c0e1546b365d5868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 28/29] fix: do not optimize an earlier run's module when
 copying fails

---
 job_runner/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/job_runner/src/main.rs b/job_runner/src/main.rs
index ea5eb11..c6c39f1 100644
--- a/job_runner/src/main.rs
+++ b/job_runner/src/main.rs
@@ -142,7 +142,11 @@ fn main() -> Result<()> {
             .current_dir("./wasm-api")
             .args(["twiggy_wasm_api_bg.wasm", "twiggy_wasm_api_bg2.wasm"])
             .output()
-            .and_then(|_| {
+            .and_then(|output| {
+                if !output.status.success() {
+                    // Whatever is there now is not what was just built.
+                    return Ok(output);
+                }
                 Command::new("wasm-opt")
                     .current_dir("./wasm-api")
                     .args([
-- 
2.43.0


From 21b8a816d362af45645e5f29bc801954ee7b745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 29/29] fix: refuse sections that have entries but count none

---
 parser/wasm_parse/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 74190d0..4df2170 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -1089,7 +1089,12 @@ fn iterate_with_size<'a, S: SectionWithLimitedItems + SectionReader>(
     s: &'a mut S,
 ) -> impl Iterator<Item = anyhow::Result<(S::Item, u32)>> + 'a {
     let count = s.get_count();
-    (0..count).map(move |i| {
+    // A section without entries has to end right away.
+    let uncounted = match count {
+        0 => s.ensure_end().err(),
+        _ => None,
+    };
+    let entries = (0..count).map(move |i| {
         let start = s.original_position();
         let item = s.read()?;
         let size = (s.original_position() - start) as u32;
@@ -1097,7 +1102,11 @@ fn iterate_with_size<'a, S: SectionWithLimitedItems + SectionReader>(
             s.ensure_end()?;
         }
         Ok((item, size))
-    })
+    });
+    uncounted
+        .into_iter()
+        .map(|e| Err(e.into()))
+        .chain(entries)
 }
 
 fn ty2str(t: Type) -> &'static str {
-- 
2.43.0

