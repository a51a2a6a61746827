From 021be17466f93d890d29539fd19888de6379bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 01/16] fix: rename_global_attr: renaming to the same name is a
 no-op, as for the other renames

---
 src/data_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index 63014e2..7c1bee5 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1064,6 +1064,7 @@ impl DataSet {
         // Check that both names are different
         if old_attr_name == new_attr_name {
             // nothing to do
+            return Ok(());
         }
 
         // Check that the `old_attr_name` attribute has been defined
-- 
2.43.0


From d39e65a9668f86dcf4ed34aa9dc4f5d6f0994a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 02/16] fix: FileWriter: identify variables by name (an
 attribute containing NaN made them unfindable)

---
 src/io/file_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 299c974..6998f81 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -386,7 +386,7 @@ impl<'a> FileWriter<'a> {
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
-                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
+                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
                     None => all_records.clone().into_iter().collect(),
@@ -453,7 +453,7 @@ impl<'a> FileWriter<'a> {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
         // Get already written records for the variable
         let ref mut written_records: Option<&mut BTreeSet<usize>> = self.written_records.iter_mut()
-            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var == *var_2)
+            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
             .map(|(_var_2, written_records): &mut (&'a Variable, BTreeSet<usize>)| written_records);
         // If at least one record has alredy been written
         if let Some(ref mut already_written_records_set) = written_records {
@@ -695,7 +695,7 @@ impl <'a> HeaderDefinition<'a> {
 
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
-            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var == *var_2)
+            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var.name == var_2.name)
             .map(|(_var, var_metadata): &(&Variable,  ComputedVariableMetadata)| var_metadata)
             .ok_or(WriteError::Unexpected)
     }
-- 
2.43.0


From e80a7f674912f04d04988820354ea13d8981546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 03/16] fix: FileWriter::write_var_*: keep a single
 written-records entry per variable

---
 src/io/file_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 6998f81..1ccc39b 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -93,8 +93,8 @@ macro_rules! impl_write_typed_var {
 
             // Save the records already written
             let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            self.written_records.push((var, (0..num_records).collect()));
-            Ok(())
+            let records: Vec<usize> = (0..num_records).collect();
+            self.update_written_records(var, &records[..])
         }
     };
 }
-- 
2.43.0


From 91ad01effea63d5621c49d411f50c9ec34861d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 04/16] fix: FileWriter::close: fill the records of each
 variable, fixed-size variables have exactly one

---
 src/io/file_writer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 1ccc39b..6c37cdf 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -92,8 +92,7 @@ macro_rules! impl_write_typed_var {
             }
 
             // Save the records already written
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            let records: Vec<usize> = (0..num_records).collect();
+            let records: Vec<usize> = (0..var.num_chunks()).collect();
             self.update_written_records(var, &records[..])
         }
     };
@@ -379,17 +378,17 @@ impl<'a> FileWriter<'a> {
             None => return Ok(()),
             Some(ref header_def) => header_def,
         };
-        let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-        let all_records: BTreeSet<usize> = (0..num_records).collect();
         let not_written_records: Vec<(&'a Variable, Vec<usize>)> = {
             let num_vars = header_def.data_set.vars.len();
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
+                // A fixed-size variable has exactly one record
+                let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
                     .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
-                    None => all_records.clone().into_iter().collect(),
+                    None => all_records.into_iter().collect(),
                     Some(written_records) => all_records.difference(&written_records).cloned().collect(),
                 };
                 not_written_records.push((var, not_written_record));
-- 
2.43.0


From a6a7067fbc9a9d8cebf446d12dd12a0595532ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 05/16] fix: FileWriter::write_record_*: bound the record index
 by the number of records of the variable

---
 src/io/file_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 6c37cdf..ae9bc74 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -108,7 +108,7 @@ macro_rules! impl_write_typed_record {
             if var.data_type != $data_type {
                 return Err(WriteError::VariableMismatchDataType{var_name: var_name.to_owned(), req:var.data_type(), get: $data_type});
             }
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();  // fixed-size variables have exactly one record
             // Check the record index validity
             if record_index >= num_records {
                 return Err(WriteError::RecordIndexExceeded{index: record_index, num_records: num_records});
-- 
2.43.0


From 9514fb8d8e27047ed1b0fc183bb557c56320ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 06/16] fix: FileReader::read_record: bound the record index by
 the number of records of the variable

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 4f1fd0c..b862b34 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -470,7 +470,7 @@ impl FileReader {
         let (_var_index, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let num_records: usize = self.data_set.num_records().unwrap_or(1); // fixed-size variables haves exaclty one record
+        let num_records: usize = var.num_chunks(); // fixed-size variables have exactly one record
         if record_index >= num_records {
             return Err(ReadError::RecordIndexExceeded{index: record_index, num_records: num_records});
         }
-- 
2.43.0


From 8f0554b8760e741207dced9af2f4e18a38add872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 07/16] fix: FileWriter: pad the attribute data of the header
 with zeros, as the format and the reader require

---
 src/io/file_writer.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index ae9bc74..824c2ba 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -56,6 +56,19 @@ macro_rules! impl_write_typed_chunk {
     }
 }
 
+macro_rules! impl_write_typed_elements {
+    ($func_name:ident, $prim_type:ty) => {
+        /// Write the values of the `$prim_type` slice into the output stream, without any padding byte.
+        fn $func_name<T: Write>(out_stream: &mut T, slice: &[$prim_type]) -> Result<usize, std::io::Error>
+        {
+            for value in slice.iter() {
+                out_stream.write_all(&value.to_be_bytes())?;
+            }
+            Ok(slice.len() * std::mem::size_of::<$prim_type>())
+        }
+    }
+}
+
 macro_rules! impl_write_typed_var {
     ($func_name:ident, $write_typed_chunk: path, $prim_type:ty, $data_type:path, $data_vector:path) => {
         pub fn $func_name(&mut self, var_name: &str, data: &[$prim_type]) -> Result<(), WriteError> {
@@ -418,6 +431,13 @@ impl<'a> FileWriter<'a> {
         Ok(())
     }
 
+    impl_write_typed_elements!(write_elements_i8, i8);
+    impl_write_typed_elements!(write_elements_u8, u8);
+    impl_write_typed_elements!(write_elements_i16, i16);
+    impl_write_typed_elements!(write_elements_i32, i32);
+    impl_write_typed_elements!(write_elements_f32, f32);
+    impl_write_typed_elements!(write_elements_f64, f64);
+
     impl_write_typed_chunk!(write_chunk_i8, i8, NC_FILL_I8);
     impl_write_typed_chunk!(write_chunk_u8, u8, NC_FILL_U8);
     impl_write_typed_chunk!(write_chunk_i16, i16, NC_FILL_I16);
@@ -573,14 +593,20 @@ impl<'a> FileWriter<'a> {
             let bytes: [u8; 4] = (num_elements as i32).to_be_bytes();
             num_bytes += out_stream.write(&bytes)?;
             // The data of the attribute
-            num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice)?,
+            let num_data_bytes: usize = match &attr.data {
+                DataVector::I8(slice) => FileWriter::write_elements_i8(out_stream, slice)?,
+                DataVector::U8(slice) => FileWriter::write_elements_u8(out_stream, slice)?,
+                DataVector::I16(slice) => FileWriter::write_elements_i16(out_stream, slice)?,
+                DataVector::I32(slice) => FileWriter::write_elements_i32(out_stream, slice)?,
+                DataVector::F32(slice) => FileWriter::write_elements_f32(out_stream, slice)?,
+                DataVector::F64(slice) => FileWriter::write_elements_f64(out_stream, slice)?,
             };
+            num_bytes += num_data_bytes;
+            // The padding bytes of the header are zero bytes
+            let zero_padding_size: usize = compute_padding_size(num_data_bytes);
+            if zero_padding_size > 0 {
+                num_bytes += out_stream.write(&vec![0_u8; zero_padding_size])?;
+            }
 
             Ok(num_bytes)
         }
-- 
2.43.0


From 7eb566c4e3ead3107389ab4ae835bc06203df7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 08/16] fix: FileWriter: write the header with write_all,
 partial writes were silently ignored

---
 src/io/file_writer.rs | 56 ++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 824c2ba..03cdcbc 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -488,9 +488,9 @@ impl<'a> FileWriter<'a> {
         self.output_file.seek(SeekFrom::Start(0))?;
         let mut num_bytes = 0;
         // the magic word
-        num_bytes += self.output_file.write("CDF".as_bytes())?;
+        num_bytes += FileWriter::write_bytes(&mut self.output_file, "CDF".as_bytes())?;
         //the version number
-        num_bytes += self.output_file.write(&[header_def.version.clone() as u8])?;
+        num_bytes += FileWriter::write_bytes(&mut self.output_file, &[header_def.version.clone() as u8])?;
         // the size of the *unlimited-size* dimension
         let num_records: u32 = match header_def.data_set.unlimited_dim.as_ref() {
             None => 0,  // No unlimited-size dim is defined
@@ -504,7 +504,7 @@ impl<'a> FileWriter<'a> {
             }
         };
         let bytes: [u8; 4] = num_records.to_be_bytes();
-        num_bytes += self.output_file.write(&bytes)?;
+        num_bytes += FileWriter::write_bytes(&mut self.output_file, &bytes)?;
         // the list of the dimensions
         num_bytes += FileWriter::write_dims_list(&mut self.output_file, &header_def.data_set.dims)?;
         // the list of the global attributes
@@ -517,11 +517,17 @@ impl<'a> FileWriter<'a> {
         num_bytes += FileWriter::write_vars_list(&mut self.output_file, &data_set_metadata.vars_metadata)?;
         let zero_padding_size: &usize = &data_set_metadata.header_zero_padding_size;
         for _ in 0..*zero_padding_size {
-            num_bytes +=  self.output_file.write(&[0_u8])?;
+            num_bytes +=  FileWriter::write_bytes(&mut self.output_file, &[0_u8])?;
         }
         Ok(num_bytes)
     }
 
+    /// Writes all the bytes (a single `write` may be partial) and returns their number.
+    fn write_bytes<T: Write>(out_stream: &mut T, bytes: &[u8]) -> Result<usize, std::io::Error> {
+        out_stream.write_all(bytes)?;
+        Ok(bytes.len())
+    }
+
     fn write_name_string<T: Write>(out_stream: &mut T, name: &str) -> Result<usize, std::io::Error> {
         let name_bytes: &[u8] = name.as_bytes();
         let zero_padding_size = compute_padding_size(name_bytes.len());
@@ -529,12 +535,12 @@ impl<'a> FileWriter<'a> {
 
         // Write the number of useful bytes
         let bytes: [u8; 4] = (name_bytes.len() as i32).to_be_bytes();
-        num_bytes += out_stream.write(&bytes)?;
+        num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
         // Write the name
-        num_bytes += out_stream.write(name_bytes)?;
+        num_bytes += FileWriter::write_bytes(out_stream, name_bytes)?;
         // Write the zero padding bytes
         if zero_padding_size > 0 {
-            num_bytes += out_stream.write(&vec![0_u8; zero_padding_size])?;
+            num_bytes += FileWriter::write_bytes(out_stream, &vec![0_u8; zero_padding_size])?;
         }
 
         Ok(num_bytes)
@@ -542,7 +548,7 @@ impl<'a> FileWriter<'a> {
 
     fn write_data_type<T: Write>(out_stream: &mut T, data_type: DataType) -> Result<usize, std::io::Error> {
         let bytes: [u8; 4] = (data_type as i32).to_be_bytes();
-        let num_bytes: usize = out_stream.write(&bytes)?;
+        let num_bytes: usize = FileWriter::write_bytes(out_stream, &bytes)?;
         Ok(num_bytes)
     }
 
@@ -556,23 +562,23 @@ impl<'a> FileWriter<'a> {
                 DimensionSize::Fixed(fixed_size) => fixed_size,
             };
             let bytes: [u8; 4] = (dim_size as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
 
             Ok(num_bytes)
         }
         let mut num_bytes: usize = 0;
         if dims_list.is_empty() {
             // Write the ABSENT_TAG
-            num_bytes += out_stream.write(&ABSENT_TAG)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &ABSENT_TAG)?;
         }
         else {
             // Write the DIENSION_TAG
-            num_bytes += out_stream.write(&DIMENSION_TAG)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &DIMENSION_TAG)?;
 
             // Write the number of dimensions
             let num_dims: usize = dims_list.len();
             let bytes: [u8; 4] = (num_dims as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
 
             // Write each dimension of the list
             for dim in dims_list {
@@ -591,7 +597,7 @@ impl<'a> FileWriter<'a> {
             // The number of elements
             let num_elements: usize = attr.len();
             let bytes: [u8; 4] = (num_elements as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
             // The data of the attribute
             let num_data_bytes: usize = match &attr.data {
                 DataVector::I8(slice) => FileWriter::write_elements_i8(out_stream, slice)?,
@@ -605,7 +611,7 @@ impl<'a> FileWriter<'a> {
             // The padding bytes of the header are zero bytes
             let zero_padding_size: usize = compute_padding_size(num_data_bytes);
             if zero_padding_size > 0 {
-                num_bytes += out_stream.write(&vec![0_u8; zero_padding_size])?;
+                num_bytes += FileWriter::write_bytes(out_stream, &vec![0_u8; zero_padding_size])?;
             }
 
             Ok(num_bytes)
@@ -615,15 +621,15 @@ impl<'a> FileWriter<'a> {
 
         if attrs_list.is_empty() {
             // Write the ABSENT_TAG
-            num_bytes += out_stream.write(&ABSENT_TAG)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &ABSENT_TAG)?;
         }
         else {
             // Write the ATTRIBUTE_TAG
-            num_bytes += out_stream.write(&ATTRIBUTE_TAG)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &ATTRIBUTE_TAG)?;
             // Write the number of attributes
             let num_attrs: usize = attrs_list.len();
             let bytes: [u8; 4] = (num_attrs as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
 
             // Write for each attribute:  its name, data type and data
             for attr in attrs_list {
@@ -640,11 +646,11 @@ impl<'a> FileWriter<'a> {
             // Write the number of dimensions
             let num_dims = var.num_dims();
             let mut bytes: [u8; 4] = (num_dims as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
             // Write each variable dimension ID
             for dim_id in var_metadata.dim_ids.iter() {
                 bytes = (*dim_id as i32).to_be_bytes();
-                num_bytes += out_stream.write(&bytes)?;
+                num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
             }
             // Write variable attributes
             num_bytes += FileWriter::write_attrs_list(out_stream, &var.attrs)?;
@@ -658,16 +664,16 @@ impl<'a> FileWriter<'a> {
                 }
                 (chunk_size as u32).to_be_bytes()
             };
-            num_bytes += out_stream.write(&bytes)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
             // Write the `begin_offset`
             match var_metadata.begin_offset {
                 Offset::I32(begin_offset) => {
                     let bytes: [u8; 4] = begin_offset.to_be_bytes();
-                    num_bytes += out_stream.write(&bytes)?;
+                    num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
                 },
                 Offset::I64(begin_offset) => {
                     let bytes: [u8; 8] = begin_offset.to_be_bytes();
-                    num_bytes += out_stream.write(&bytes)?;
+                    num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
                 },
             }
             Ok(num_bytes)
@@ -676,16 +682,16 @@ impl<'a> FileWriter<'a> {
         let mut num_bytes: usize = 0;
         if vars_metadata_list.is_empty() {
             // Write the ABSENT_TAG
-            num_bytes += out_stream.write(&ABSENT_TAG)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &ABSENT_TAG)?;
         }
         else {
             // Write the VARIABLE_TAG
-            num_bytes += out_stream.write(&VARIABLE_TAG)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &VARIABLE_TAG)?;
 
             // Write the number of variables
             let num_vars: usize = vars_metadata_list.len();
             let bytes: [u8; 4] = (num_vars as i32).to_be_bytes();
-            num_bytes += out_stream.write(&bytes)?;
+            num_bytes += FileWriter::write_bytes(out_stream, &bytes)?;
 
             // Write for each variable :  its name, data type, ...
             for (var, var_metadata) in vars_metadata_list.iter() {
-- 
2.43.0


From f4afe193ee053284e9cf361fe6a122cc53b4726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 09/16] fix: FileReader::open: read the header with read_exact,
 partial reads were parsed as zeros

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index b862b34..480f0ac 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -294,7 +294,7 @@ impl FileReader {
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-                let _num_of_bytes = input_file.read(&mut buffer[*start..*end])?;
+                input_file.read_exact(&mut buffer[*start..*end])?;
 
                 let parsing_result: Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError>;
                 parsing_result = FileReader::parse_header(&buffer, file_size);
-- 
2.43.0


From 8b702d0f1c24bc3cb08c039fc8ba0ef91dee4187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 10/16] fix: FileReader: reject the files defining several
 variables with the same name

---
 src/data_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index 7c1bee5..37352b8 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -549,6 +549,9 @@ impl DataSet {
     }
 
     pub(crate) fn add_var_using_dim_refs(&mut self, var_name: &str, var_dims: Vec<Rc<Dimension>>, data_type: DataType) -> Result<&Variable, InvalidDataSet> {
+        if self.find_var_from_name(var_name).is_ok() {
+            return Err(InvalidDataSet::VariableAlreadyExists(var_name.to_string()));
+        }
         let _ = self.vars.push(Variable::new(var_name, var_dims, data_type)?);
         Ok(self.vars.last().unwrap())
     }
-- 
2.43.0


From 5e4d108a2061702795db8767961f44a32a9d411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 11/16] fix: FileReader: do not allocate memory from the
 unchecked counts of the header

---
 src/io/file_reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 480f0ac..472e135 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -708,6 +708,11 @@ impl FileReader {
 
     fn parse_typed_data_elements(input: &[u8], num_of_elements: usize, data_type: DataType) -> Result<(&[u8], DataVector), ParseHeaderError>
     {
+        // Check that all the useful bytes are available before allocating the memory
+        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
+        let _ = take(num_of_bytes)(input).map_err(|err: NomError|{
+            ParseHeaderError::new(err, ParseHeaderErrorKind::DataElements)
+        })?;
         // Parsed the useful data
         let (input, data_vector): (&[u8], DataVector) = match data_type {
             DataType::I8 => many_m_n(num_of_elements, num_of_elements, be_i8)(input).map(|(input, data): (&[u8], Vec<i8>)| (input, DataVector::I8(data))),
@@ -721,7 +726,6 @@ impl FileReader {
         })?;
 
         // Parse the zero padding bytes if necessary
-        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
         let (input, _zero_padding_bytes): (&[u8], &[u8]) = FileReader::parse_zero_padding(input, compute_padding_size(num_of_bytes))?;
         Ok((input, data_vector))
     }
@@ -753,7 +757,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut dims_list: Vec<(String, usize)> = Vec::with_capacity(num_of_dims);
+        let mut dims_list: Vec<(String, usize)> = vec![];
         for _ in 0..num_of_dims{
             let (rem_input, dim): (&[u8], (String, usize)) = parse_dim(input)?;
             input = rem_input;
@@ -781,7 +785,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_attrs): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut attrs_list: Vec<(String, DataVector)> = Vec::with_capacity(num_of_attrs);
+        let mut attrs_list: Vec<(String, DataVector)> = vec![];
         for _ in 0..num_of_attrs
         {
             let (rem_input, attr): (&[u8], (String, DataVector)) = parse_attr(input)?;
@@ -799,7 +803,7 @@ impl FileReader {
                 // number of dimensions
                 let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                 // list of the dimension ids
-                let mut dim_ids_list: Vec<usize> = Vec::with_capacity(num_of_dims);
+                let mut dim_ids_list: Vec<usize> = vec![];
                 for _ in 0..num_of_dims {
                     let(rem_input, dim_id): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                     input = rem_input;
-- 
2.43.0


From 9b3d35adfa13a06bfaad8dc9c46f75b08409fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 12/16] fix: FileReader: reject the negative begin offsets

---
 src/io/file_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 472e135..0574104 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -816,12 +816,12 @@ impl FileReader {
         {
             match version {
                 Version::Classic => {
-                    be_i32(input).map(|(input, num_of_bytes): (&[u8], i32)| {
+                    verify(be_i32, |num_of_bytes: &i32| *num_of_bytes >= 0_i32)(input).map(|(input, num_of_bytes): (&[u8], i32)| {
                         (input, Offset::I32(num_of_bytes))
                     })
                 },
                 Version::Offset64Bit => {
-                    be_i64(input).map(|(input, num_of_bytes): (&[u8], i64)| {
+                    verify(be_i64, |num_of_bytes: &i64| *num_of_bytes >= 0_i64)(input).map(|(input, num_of_bytes): (&[u8], i64)| {
                         (input, Offset::I64(num_of_bytes))
                     })
                 },
-- 
2.43.0


From ede5eaa5872b9796a7a2dcfbbf543d450637a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 13/16] fix: FileReader: reject a first record located after
 the end of the file

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 0574104..c7f9d46 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -603,7 +603,7 @@ impl FileReader {
                 else {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
-                    let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
+                    let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
                     let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
-- 
2.43.0


From bd383002550b05ba630c86a8a6f5ddb7855256d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 14/16] fix: FileReader: reject the headers whose data sizes
 overflow

---
 src/io/file_reader.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index c7f9d46..fbb016d 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -592,6 +592,9 @@ impl FileReader {
             }
         }
 
+        // Check that all the sizes computed from the definitions are representable
+        FileReader::check_data_sizes(&data_set)?;
+
         if !num_records_is_determinated {
             // Case an *unlimited-size* dim s defined
             if let Some(dim) = data_set.get_unlimited_dim() {
@@ -625,6 +628,32 @@ impl FileReader {
         Ok((data_set, version, var_info_list))
     }
 
+    /// Checks that the sizes (numbers of bytes) of the variables and of the records do not overflow.
+    fn check_data_sizes(data_set: &DataSet) -> Result<(), ReadError> {
+        const MAX_SIZE: usize = std::i64::MAX as usize;
+        let mut record_size: usize = 0;
+        for var in data_set.vars.iter() {
+            let mut chunk_size: usize = var.data_type.size_of();
+            for dim in var.dims.iter() {
+                if dim.is_fixed() {
+                    chunk_size = chunk_size.checked_mul(dim.size()).ok_or(ReadError::Unexpected)?;
+                }
+            }
+            chunk_size = chunk_size.checked_add(compute_padding_size(chunk_size)).ok_or(ReadError::Unexpected)?;
+            if chunk_size > MAX_SIZE {
+                return Err(ReadError::Unexpected);
+            }
+            if var.is_record_var() {
+                record_size = record_size.checked_add(chunk_size).ok_or(ReadError::Unexpected)?;
+            }
+        }
+        let num_records: usize = data_set.num_records().unwrap_or(0);
+        match record_size.checked_mul(std::cmp::max(num_records, 1)) {
+            Some(all_records_size) if all_records_size <= MAX_SIZE => Ok(()),
+            _ => Err(ReadError::Unexpected),
+        }
+    }
+
     fn parse_magic_word(input: &[u8]) -> Result<(&[u8], &[u8]), ParseHeaderError>
     {
         let (input, tag_value): (&[u8], &[u8]) = tag(&b"CDF"[..])(input).map_err(|err: NomError|{
-- 
2.43.0


From 5ff7bf8a449c7fc626f3cc8784aaad44e86721e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 15/16] fix: FileReader: check that the file holds the data
 before allocating the memory

---
 src/io/file_reader.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index fbb016d..10d04e2 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -416,6 +416,7 @@ impl FileReader {
             let num_bytes: usize = chunk_len * data_type.size_of();
             compute_padding_size(num_bytes)
         };
+        self.check_data_in_file(begin_offset, var.num_chunks(), chunk_len * data_type.size_of())?;
         let ref mut input = self.input_file;
         input.seek(SeekFrom::Start(begin_offset))?;
         // memory allocation
@@ -478,10 +479,11 @@ impl FileReader {
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
         let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_size().unwrap_or(0)) as u64);
+        let data_type: DataType = var.data_type();
+        self.check_data_in_file(record_offset, 1, var.chunk_len() * data_type.size_of())?;
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
-        let data_type: DataType = var.data_type();
         let mut data_vec: DataVector = DataVector::new(data_type, var.chunk_len());
         match data_vec {
             DataVector::I8(ref mut data) => self.input_file.read_i8_into(&mut data[..]),
@@ -501,6 +503,22 @@ impl FileReader {
     impl_read_typed_record!(read_record_f32, f32, DataType::F32, DataVector::F32);
     impl_read_typed_record!(read_record_f64, f64, DataType::F64, DataVector::F64);
 
+    /// Checks that the data of `num_chunks` successive chunks of a variable lie in the file.
+    ///
+    /// The memory must not be allocated from the only sizes defined in the header.
+    fn check_data_in_file(&self, begin_offset: u64, num_chunks: usize, num_chunk_bytes: usize) -> Result<(), ReadError> {
+        if num_chunks == 0 {
+            return Ok(());
+        }
+        let file_size: u64 = self.input_file.metadata()?.len();
+        let record_size: usize = self.data_set.record_size().unwrap_or(0);
+        let num_bytes: u64 = ((num_chunks - 1) * record_size + num_chunk_bytes) as u64;
+        if begin_offset > file_size || num_bytes > file_size - begin_offset {
+            return Err(ReadError::IOErrorKind(std::io::ErrorKind::UnexpectedEof));
+        }
+        Ok(())
+    }
+
     /// Parses the NetCDF-3 header
     fn parse_header(input: &[u8], total_file_size: usize) -> Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError> {
         // the magic word
-- 
2.43.0


From 1c3dbe575ebfb120351f81ee7a7f42d96712fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 16/16] fix: Variable: check the number of dimensions before
 the quadratic search of repetitions

---
 src/data_set/variable.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/data_set/variable.rs b/src/data_set/variable.rs
index 1eb6ab9..ca5cf8c 100644
--- a/src/data_set/variable.rs
+++ b/src/data_set/variable.rs
@@ -542,6 +542,13 @@ impl Variable {
         if dims.is_empty() {
             return Ok(());
         }
+        // Check the number of dimensions first, the cost of the next checks depends on it
+        if dims.len() > NC_MAX_VAR_DIMS {
+            return Err(InvalidDataSet::MaximumDimensionsPerVariableExceeded{
+                var_name: var_name.to_string(),
+                num_dims: dims.len(),
+            })
+        }
         // Check that the optional unlimited dimension is defined at first
         if let Some(unlim_dim) = dims.iter().skip(1).find(|dim: &&Rc<Dimension>| dim.is_unlimited()) {
             let dim_names: Vec<String> = dims.iter().map(|dim: &Rc<Dimension>| {
@@ -574,12 +581,6 @@ impl Variable {
                 get_dim_names: dim_names,
             });
         }
-        if dims.len() > NC_MAX_VAR_DIMS {
-            return Err(InvalidDataSet::MaximumDimensionsPerVariableExceeded{
-                var_name: var_name.to_string(),
-                num_dims: dims.len(),
-            })
-        }
         Ok(())
     }
 }
-- 
2.43.0

