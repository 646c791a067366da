From 3535b4e30ecfb8058dde67300e0409f0e49b5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 01/16] fix: identify the written variables by reference
 instead of by value

Comparing variables by value never matches when an attribute holds a NaN,
so such a variable could neither be written nor closed.
---
 src/io/file_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 299c974..b082e3e 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -386,7 +386,7 @@ impl<'a> FileWriter<'a> {
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
-                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
+                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
                     None => all_records.clone().into_iter().collect(),
@@ -453,7 +453,7 @@ impl<'a> FileWriter<'a> {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
         // Get already written records for the variable
         let ref mut written_records: Option<&mut BTreeSet<usize>> = self.written_records.iter_mut()
-            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var == *var_2)
+            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
             .map(|(_var_2, written_records): &mut (&'a Variable, BTreeSet<usize>)| written_records);
         // If at least one record has alredy been written
         if let Some(ref mut already_written_records_set) = written_records {
@@ -695,7 +695,7 @@ impl <'a> HeaderDefinition<'a> {
 
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
-            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var == *var_2)
+            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| std::ptr::eq(var, *var_2))
             .map(|(_var, var_metadata): &(&Variable,  ComputedVariableMetadata)| var_metadata)
             .ok_or(WriteError::Unexpected)
     }
-- 
2.43.0


From caf5d5c973d07339349d72148ca55297a403ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 02/16] fix: keep the records already written when the whole
 variable is written

write_var_T() appended a second entry for a variable whose some records had
been written, and close() overwrote the data with the fill values.
---
 src/io/file_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index b082e3e..eb509f4 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -93,8 +93,8 @@ macro_rules! impl_write_typed_var {
 
             // Save the records already written
             let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            self.written_records.push((var, (0..num_records).collect()));
-            Ok(())
+            let records: Vec<usize> = (0..num_records).collect();
+            self.update_written_records(var, &records)
         }
     };
 }
-- 
2.43.0


From eb27b136cbac208bcffc6cdd7fe5662fa2daf098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 03/16] fix: count the records per variable, not per data set

A fixed-size variable has exactly one record whatever the number of records
of the data set: write_record_T() accepted other indexes and close() filled
the positions of other variables (or nothing at all without any record).
---
 src/io/file_reader.rs | 2 +-
 src/io/file_writer.rs | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 4f1fd0c..52d0586 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -470,7 +470,7 @@ impl FileReader {
         let (_var_index, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let num_records: usize = self.data_set.num_records().unwrap_or(1); // fixed-size variables haves exaclty one record
+        let num_records: usize = var.num_chunks(); // fixed-size variables haves exaclty one record
         if record_index >= num_records {
             return Err(ReadError::RecordIndexExceeded{index: record_index, num_records: num_records});
         }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index eb509f4..5f70268 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -92,7 +92,7 @@ macro_rules! impl_write_typed_var {
             }
 
             // Save the records already written
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();
             let records: Vec<usize> = (0..num_records).collect();
             self.update_written_records(var, &records)
         }
@@ -109,7 +109,7 @@ macro_rules! impl_write_typed_record {
             if var.data_type != $data_type {
                 return Err(WriteError::VariableMismatchDataType{var_name: var_name.to_owned(), req:var.data_type(), get: $data_type});
             }
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();  // fixed-size variables have exactly one record
             // Check the record index validity
             if record_index >= num_records {
                 return Err(WriteError::RecordIndexExceeded{index: record_index, num_records: num_records});
@@ -379,12 +379,11 @@ impl<'a> FileWriter<'a> {
             None => return Ok(()),
             Some(ref header_def) => header_def,
         };
-        let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-        let all_records: BTreeSet<usize> = (0..num_records).collect();
         let not_written_records: Vec<(&'a Variable, Vec<usize>)> = {
             let num_vars = header_def.data_set.vars.len();
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
+                let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();  // fixed-size variables have exactly one record
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
                     .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
-- 
2.43.0


From 3a7232abfbe2dc80c62b2bf9160142beabbcf411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 04/16] fix: pad the attribute values of the header with zeros

The header padding is zero by the format and this crate's own reader rejects
anything else: i8 and i16 attributes could be written but not read back.
---
 src/io/file_writer.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 5f70268..72b549a 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -28,7 +28,7 @@ use crate::{
 };
 
 macro_rules! impl_write_typed_chunk {
-    ($func_name:ident, $prim_type:ty, $nc_fill_value:ident) => {
+    ($func_name:ident, $prim_type:ty, $nc_fill_value:expr) => {
         /// Write the `$prim_type` slice into the output stream.
         fn $func_name<T: Write>(out_stream: &mut T, slice: &[$prim_type]) -> Result<usize, std::io::Error>
         {
@@ -425,6 +425,14 @@ impl<'a> FileWriter<'a> {
     impl_write_typed_chunk!(write_chunk_f32, f32, NC_FILL_F32);
     impl_write_typed_chunk!(write_chunk_f64, f64, NC_FILL_F64);
 
+    // The attribute values, in the header, are followed by zero padding bytes
+    impl_write_typed_chunk!(write_attr_data_i8, i8, 0_i8);
+    impl_write_typed_chunk!(write_attr_data_u8, u8, 0_u8);
+    impl_write_typed_chunk!(write_attr_data_i16, i16, 0_i16);
+    impl_write_typed_chunk!(write_attr_data_i32, i32, 0_i32);
+    impl_write_typed_chunk!(write_attr_data_f32, f32, 0_f32);
+    impl_write_typed_chunk!(write_attr_data_f64, f64, 0_f64);
+
     impl_write_typed_var!(write_var_i8, FileWriter::write_chunk_i8, i8, DataType::I8, DataVector::I8);
     impl_write_typed_var!(write_var_u8, FileWriter::write_chunk_u8, u8, DataType::U8, DataVector::U8);
     impl_write_typed_var!(write_var_i16, FileWriter::write_chunk_i16, i16, DataType::I16, DataVector::I16);
@@ -574,12 +582,12 @@ impl<'a> FileWriter<'a> {
             num_bytes += out_stream.write(&bytes)?;
             // The data of the attribute
             num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice)?,
+                DataVector::I8(slice) => FileWriter::write_attr_data_i8(out_stream, slice)?,
+                DataVector::U8(slice) => FileWriter::write_attr_data_u8(out_stream, slice)?,
+                DataVector::I16(slice) => FileWriter::write_attr_data_i16(out_stream, slice)?,
+                DataVector::I32(slice) => FileWriter::write_attr_data_i32(out_stream, slice)?,
+                DataVector::F32(slice) => FileWriter::write_attr_data_f32(out_stream, slice)?,
+                DataVector::F64(slice) => FileWriter::write_attr_data_f64(out_stream, slice)?,
             };
 
             Ok(num_bytes)
-- 
2.43.0


From 23701d5d79dd7378060fb94f65ab0945afd4dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 05/16] fix: renaming a global attribute to its own name is not
 an error

---
 src/data_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index 63014e2..7c1bee5 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1064,6 +1064,7 @@ impl DataSet {
         // Check that both names are different
         if old_attr_name == new_attr_name {
             // nothing to do
+            return Ok(());
         }
 
         // Check that the `old_attr_name` attribute has been defined
-- 
2.43.0


From f843c3356d85002f4d1ba11cee31e175226ecb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 06/16] fix: reject a file defining several variables with the
 same name

---
 src/data_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index 7c1bee5..37352b8 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -549,6 +549,9 @@ impl DataSet {
     }
 
     pub(crate) fn add_var_using_dim_refs(&mut self, var_name: &str, var_dims: Vec<Rc<Dimension>>, data_type: DataType) -> Result<&Variable, InvalidDataSet> {
+        if self.find_var_from_name(var_name).is_ok() {
+            return Err(InvalidDataSet::VariableAlreadyExists(var_name.to_string()));
+        }
         let _ = self.vars.push(Variable::new(var_name, var_dims, data_type)?);
         Ok(self.vars.last().unwrap())
     }
-- 
2.43.0


From 252a4438bfa5daf7109a52a01dc9b4b097f9f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 07/16] fix: do not ignore short writes in the header

Write::write() may accept only a part of the bytes of a file: the header was
then silently truncated.
---
 src/io/file_writer.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 72b549a..63f347c 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -474,11 +474,13 @@ impl<'a> FileWriter<'a> {
     fn write_header(&mut self) -> Result<usize, WriteError>{
         let header_def: &HeaderDefinition = self.header_def.as_ref().ok_or(WriteError::HeaderNotDefined)?;
         self.output_file.seek(SeekFrom::Start(0))?;
+        // the header is built in memory because `write()` may write only a part of the bytes into a file
+        let mut header: Vec<u8> = vec![];
         let mut num_bytes = 0;
         // the magic word
-        num_bytes += self.output_file.write("CDF".as_bytes())?;
+        num_bytes += header.write("CDF".as_bytes())?;
         //the version number
-        num_bytes += self.output_file.write(&[header_def.version.clone() as u8])?;
+        num_bytes += header.write(&[header_def.version.clone() as u8])?;
         // the size of the *unlimited-size* dimension
         let num_records: u32 = match header_def.data_set.unlimited_dim.as_ref() {
             None => 0,  // No unlimited-size dim is defined
@@ -492,20 +494,22 @@ impl<'a> FileWriter<'a> {
             }
         };
         let bytes: [u8; 4] = num_records.to_be_bytes();
-        num_bytes += self.output_file.write(&bytes)?;
+        num_bytes += header.write(&bytes)?;
         // the list of the dimensions
-        num_bytes += FileWriter::write_dims_list(&mut self.output_file, &header_def.data_set.dims)?;
+        num_bytes += FileWriter::write_dims_list(&mut header, &header_def.data_set.dims)?;
         // the list of the global attributes
-        num_bytes += FileWriter::write_attrs_list(&mut self.output_file, &header_def.data_set.attrs)?;
+        num_bytes += FileWriter::write_attrs_list(&mut header, &header_def.data_set.attrs)?;
 
         // the list of the variables
         // -------------------------
         // compute the number of bytes *begin-offset* for each variable of the dataset
         let data_set_metadata: &ComputedDataSetMetadata = &header_def.data_set_metadata;
-        num_bytes += FileWriter::write_vars_list(&mut self.output_file, &data_set_metadata.vars_metadata)?;
+        num_bytes += FileWriter::write_vars_list(&mut header, &data_set_metadata.vars_metadata)?;
+        self.output_file.write_all(&header)?;
         let zero_padding_size: &usize = &data_set_metadata.header_zero_padding_size;
         for _ in 0..*zero_padding_size {
-            num_bytes +=  self.output_file.write(&[0_u8])?;
+            self.output_file.write_all(&[0_u8])?;
+            num_bytes += 1;
         }
         Ok(num_bytes)
     }
-- 
2.43.0


From b1164c18778343f0926479a4fa9c05cef7016ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 08/16] fix: the header is not defined if it could not be
 written

---
 src/io/file_writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 63f347c..aa6d84f 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -351,7 +351,10 @@ impl<'a> FileWriter<'a> {
             Some(_) => return Err(WriteError::HeaderAlreadyDefined),
             None => self.header_def = Some(HeaderDefinition::new(data_set, version, header_min_size)?),
         }
-        let _ = self.write_header()?;
+        if let Err(err) = self.write_header() {
+            self.header_def = None;  // the header has not been written
+            return Err(err);
+        }
         Ok(())
     }
 
-- 
2.43.0


From dc59c184c6d22b51e2ecc19813a59cd39c54974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 09/16] fix: do not ignore short reads of the header

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 52d0586..f55c512 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -294,7 +294,7 @@ impl FileReader {
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-                let _num_of_bytes = input_file.read(&mut buffer[*start..*end])?;
+                input_file.read_exact(&mut buffer[*start..*end])?;
 
                 let parsing_result: Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError>;
                 parsing_result = FileReader::parse_header(&buffer, file_size);
-- 
2.43.0


From 690b4be15447ac22b899c2f29f93157640ceef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 10/16] fix: do not allocate memory from unchecked element
 counts of the header

A header of a few bytes could request many gigabytes and abort the process.
---
 src/io/file_reader.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index f55c512..9a11973 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -708,6 +708,12 @@ impl FileReader {
 
     fn parse_typed_data_elements(input: &[u8], num_of_elements: usize, data_type: DataType) -> Result<(&[u8], DataVector), ParseHeaderError>
     {
+        // Check that all the bytes are available before the memory allocation
+        let num_of_bytes: usize = data_type.size_of().saturating_mul(num_of_elements);
+        let _ = take(num_of_bytes)(input).map_err(|err: NomError|{
+            ParseHeaderError::new(err, ParseHeaderErrorKind::DataElements)
+        })?;
+
         // Parsed the useful data
         let (input, data_vector): (&[u8], DataVector) = match data_type {
             DataType::I8 => many_m_n(num_of_elements, num_of_elements, be_i8)(input).map(|(input, data): (&[u8], Vec<i8>)| (input, DataVector::I8(data))),
@@ -721,7 +727,6 @@ impl FileReader {
         })?;
 
         // Parse the zero padding bytes if necessary
-        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
         let (input, _zero_padding_bytes): (&[u8], &[u8]) = FileReader::parse_zero_padding(input, compute_padding_size(num_of_bytes))?;
         Ok((input, data_vector))
     }
@@ -753,7 +758,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut dims_list: Vec<(String, usize)> = Vec::with_capacity(num_of_dims);
+        let mut dims_list: Vec<(String, usize)> = vec![];
         for _ in 0..num_of_dims{
             let (rem_input, dim): (&[u8], (String, usize)) = parse_dim(input)?;
             input = rem_input;
@@ -781,7 +786,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_attrs): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut attrs_list: Vec<(String, DataVector)> = Vec::with_capacity(num_of_attrs);
+        let mut attrs_list: Vec<(String, DataVector)> = vec![];
         for _ in 0..num_of_attrs
         {
             let (rem_input, attr): (&[u8], (String, DataVector)) = parse_attr(input)?;
@@ -799,7 +804,7 @@ impl FileReader {
                 // number of dimensions
                 let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                 // list of the dimension ids
-                let mut dim_ids_list: Vec<usize> = Vec::with_capacity(num_of_dims);
+                let mut dim_ids_list: Vec<usize> = vec![];
                 for _ in 0..num_of_dims {
                     let(rem_input, dim_id): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                     input = rem_input;
-- 
2.43.0


From d8bda1ed75ffdef821274c7ffe182cc95dd5b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 11/16] fix: do not panic if the record data begin out of the
 file

With an indeterminate number of records a begin offset which is negative or
greater than the file size made the subtraction overflow.
---
 src/io/file_reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 9a11973..66e8785 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -602,8 +602,9 @@ impl FileReader {
                 }
                 else {
                     // Computation of the number of records
-                    let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
-                    let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
+                    let first_begin_offset: i64 = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset)).min().unwrap();
+                    let first_begin_offset: usize = usize::try_from(first_begin_offset).map_err(|_err| ReadError::ComputationNumberOfRecords)?;
+                    let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
                     let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
-- 
2.43.0


From 684f01161e05d0b78ad909938da0683774f00de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 12/16] fix: do not panic on variables whose size exceeds the
 address space

A valid definition (or a file of a few bytes) may define dimensions whose
product overflows: the sizes are now saturated.
---
 src/data_set.rs          |  2 +-
 src/data_set/variable.rs | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 37352b8..8b4e810 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1201,7 +1201,7 @@ impl DataSet {
         else {
             let (record_vars, _fixed_size_vars): (Vec<&Variable>, Vec<&Variable>) = self.vars.iter().partition(|var: &&Variable| var.is_record_var());
             let record_size: usize = record_vars.into_iter().fold(0, |sum:usize , var: &Variable| {
-                sum + var.chunk_size()
+                sum.saturating_add(var.chunk_size())
             });
             Some(record_size)
         }
diff --git a/src/data_set/variable.rs b/src/data_set/variable.rs
index 1eb6ab9..4e37758 100644
--- a/src/data_set/variable.rs
+++ b/src/data_set/variable.rs
@@ -177,7 +177,7 @@ impl Variable {
     ///
     /// If the variable is a record variable then `len = num_chunks * chunk_len`.
     pub fn len(&self) -> usize {
-        return self.num_chunks() * self.chunk_len();
+        return self.num_chunks().saturating_mul(self.chunk_len());
     }
 
     pub fn use_dim(&self, dim_name: &str) -> bool {
@@ -233,8 +233,8 @@ impl Variable {
     pub fn chunk_len(&self) -> usize
     {
         let skip_len: usize = if self.is_record_var() { 1 } else { 0 };
-        self.dims.iter().skip(skip_len).fold(1, |product, dim| {
-            product * dim.size()
+        self.dims.iter().skip(skip_len).fold(1_usize, |product, dim| {
+            product.saturating_mul(dim.size())
         })
     }
 
@@ -278,9 +278,9 @@ impl Variable {
     /// assert_eq!(8,           scalar_var_f64.chunk_size());
     /// ```
     pub fn chunk_size(&self) -> usize {
-        let mut chunk_size = self.chunk_len() * self.data_type.size_of();
+        let mut chunk_size = self.chunk_len().saturating_mul(self.data_type.size_of());
         // append the bytes of the zero padding, if necessary
-        chunk_size += compute_padding_size(chunk_size);
+        chunk_size = chunk_size.saturating_add(compute_padding_size(chunk_size));
         return chunk_size
     }
 
-- 
2.43.0


From 2ca869abc018bd4d3bb23a3111599e6c11336b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 13/16] fix: do not panic or abort when the declared data
 exceed the file

The sizes declared by the header were allocated (capacity overflow, abort)
and added up (arithmetic overflow) before any byte was read.
---
 src/io/file_reader.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 66e8785..187b417 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -413,9 +413,10 @@ impl FileReader {
         let data_type: DataType = var.data_type();
         let chunk_len: usize = var.chunk_len();
         let padding_size: usize = {
-            let num_bytes: usize = chunk_len * data_type.size_of();
+            let num_bytes: usize = chunk_len.saturating_mul(data_type.size_of());
             compute_padding_size(num_bytes)
         };
+        self.check_num_bytes(var.len(), data_type.clone())?;
         let ref mut input = self.input_file;
         input.seek(SeekFrom::Start(begin_offset))?;
         // memory allocation
@@ -437,7 +438,7 @@ impl FileReader {
         else {
             let chunk_size: usize = var.chunk_size();
 
-            let offset_size: i64 = (record_size + padding_size - chunk_size) as i64;
+            let offset_size: i64 = (record_size - chunk_size).saturating_add(padding_size) as i64;
             for i in 0_usize..num_records
             {
                 // reader.seek(SeekFrom::)
@@ -477,11 +478,12 @@ impl FileReader {
 
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
-        let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_size().unwrap_or(0)) as u64);
+        let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64).saturating_add(record_index.saturating_mul(self.data_set.record_size().unwrap_or(0)) as u64);
+        let data_type: DataType = var.data_type();
+        self.check_num_bytes(var.chunk_len(), data_type.clone())?;
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
-        let data_type: DataType = var.data_type();
         let mut data_vec: DataVector = DataVector::new(data_type, var.chunk_len());
         match data_vec {
             DataVector::I8(ref mut data) => self.input_file.read_i8_into(&mut data[..]),
@@ -872,6 +874,15 @@ impl FileReader {
         Ok((input, vars_list))
     }
 
+    // Checks that the values may be in the file before their memory is allocated.
+    fn check_num_bytes(&self, num_values: usize, data_type: DataType) -> Result<(), ReadError> {
+        let num_bytes: usize = num_values.saturating_mul(data_type.size_of());
+        if num_bytes as u64 > self.input_file.metadata()?.len() {
+            return Err(ReadError::IOErrorKind(std::io::ErrorKind::UnexpectedEof));
+        }
+        Ok(())
+    }
+
     fn find_var_info(&self, var_name: &str) -> Option<&VariableParsedMetadata> {
         self.vars_info.iter().find(|var_info| var_info.name == var_name)
     }
-- 
2.43.0


From d9fbf4387691faafe6d7c4cc37f7144a58142871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 14/16] fix: report the positions which exceed the file offsets
 instead of overflowing

---
 src/io/file_writer.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index aa6d84f..c5544dc 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -84,7 +84,7 @@ macro_rules! impl_write_typed_var {
                         let start: usize = i * chunk_len;
                         let end: usize = (i + 1) * chunk_len;
                         let chunk_slice: &[$prim_type] = &data[start..end];
-                        let position: u64 = begin_offset + ((i * record_size) as u64);
+                        let position: u64 = FileWriter::compute_position(begin_offset, i, record_size)?;
                         self.output_file.seek(SeekFrom::Start(position))?;
                         let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice)?;
                     }
@@ -122,8 +122,9 @@ macro_rules! impl_write_typed_record {
             let record_size: usize = header_def.data_set.record_size().unwrap_or(0);
 
             // Set the output cursor to the record offset
-            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64 + (record_size * record_index) as u64;
-            self.output_file.seek(SeekFrom::Start(begin_offset))?;
+            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64;
+            let position: u64 = FileWriter::compute_position(begin_offset, record_index, record_size)?;
+            self.output_file.seek(SeekFrom::Start(position))?;
             let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record)?;
 
             // Save the written record
@@ -404,10 +405,10 @@ impl<'a> FileWriter<'a> {
             // let num_chunks: usize = var.num_chunks();
             let chunk_len: usize = var.chunk_len();
             let var_metadata: &ComputedVariableMetadata = header_def.get_var_metadata(var)?;
-            let begin_offset: usize = i64::from(var_metadata.begin_offset.clone()) as usize;
+            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64;
             for i in not_written_records.into_iter() {
-                let position: usize = begin_offset + (i * record_size);
-                self.output_file.seek(SeekFrom::Start(position as u64))?;
+                let position: u64 = FileWriter::compute_position(begin_offset, i, record_size)?;
+                self.output_file.seek(SeekFrom::Start(position))?;
                 let _num_bytes: usize = match var.data_type() {
                     DataType::I8 => FileWriter::write_chunk_nc_fill_i8(&mut self.output_file, chunk_len),
                     DataType::U8 => FileWriter::write_chunk_nc_fill_u8(&mut self.output_file, chunk_len),
@@ -458,6 +459,14 @@ impl<'a> FileWriter<'a> {
     impl_write_typed_chunk_nc_fill!(write_chunk_nc_fill_f32, f32, NC_FILL_F32);
     impl_write_typed_chunk_nc_fill!(write_chunk_nc_fill_f64, f64, NC_FILL_F64);
 
+    /// Computes the position in the file of a record of a variable.
+    fn compute_position(begin_offset: u64, record_index: usize, record_size: usize) -> Result<u64, WriteError>
+    {
+        record_index.checked_mul(record_size)
+            .and_then(|offset: usize| begin_offset.checked_add(offset as u64))
+            .ok_or(WriteError::Unexpected)
+    }
+
     fn update_written_records(&mut self, var: &'a Variable, records: &[usize]) -> Result<(), WriteError>
     {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
@@ -759,7 +768,7 @@ impl<'a> ComputedDataSetMetadata<'a> {
         let header_required_size: usize = ComputedDataSetMetadata::compute_header_required_size(data_set, version.clone());
         let header_size: usize = {
             let mut header_size: usize = std::cmp::max(header_min_size, header_required_size);
-            header_size += compute_padding_size(header_size);
+            header_size = header_size.checked_add(compute_padding_size(header_size)).ok_or(WriteError::Unexpected)?;
             header_size
         };
 
@@ -781,13 +790,14 @@ impl<'a> ComputedDataSetMetadata<'a> {
                                 Offset::I32(offset)
                             },
                             Version::Offset64Bit => {
-                                Offset::I64(begin_offset as i64)
+                                let offset: i64 = i64::try_from(begin_offset).map_err(|_err| WriteError::Unexpected)?;
+                                Offset::I64(offset)
                             }
                         },
                     }
                 )
             ));
-            begin_offset += chunk_size;
+            begin_offset = begin_offset.saturating_add(chunk_size);
         }
 
         // Retrieve the original position
-- 
2.43.0


From c0a1ad63b39bc1f44e8f68c916cd5e38bd48ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 15/16] fix: do not panic on a variable using dimensions of an
 other data set

DataSet::get_var_mut() lets the user replace a variable by one of an other
data set.
---
 src/data_set.rs       | 7 ++-----
 src/io/file_writer.rs | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 8b4e810..a1e6667 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -465,13 +465,10 @@ impl DataSet {
     pub(crate) fn get_var_dim_ids(&self, var_name: &str) -> Option<Vec<usize>> {
         let var: &Variable = self.find_var_from_name(var_name).ok()?.1;
         let var_dims: &[Rc<Dimension>] = &var.dims;
-        let var_dim_ids: Vec<usize> = var_dims.iter().map(|var_dim: &Rc<Dimension>| {
+        var_dims.iter().map(|var_dim: &Rc<Dimension>| {
             self.dims.iter()
                 .position(|data_set_dim: &Rc<Dimension>| Rc::ptr_eq(data_set_dim, var_dim))
-                .expect("Shouldn't have occurred! All variable dimensions are defined in the data set, their positions should have been found.")
-            // Can't panic :all dimensions
-        }).collect();
-        Some(var_dim_ids)
+        }).collect()
     }
     // ----------------------------------------------------------------
     //
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index c5544dc..7ec8e7e 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -782,7 +782,7 @@ impl<'a> ComputedDataSetMetadata<'a> {
                 (
                     var,
                     ComputedVariableMetadata{
-                        dim_ids: data_set.get_var_dim_ids(&var.name).unwrap(),
+                        dim_ids: data_set.get_var_dim_ids(&var.name).ok_or(WriteError::Unexpected)?,
                         chunk_size: chunk_size,
                         begin_offset: match &version{
                             Version::Classic => {
-- 
2.43.0


From 0e2baa6c02679cb03443c5a4ceb823217f2ea189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 16/16] fix: reject the attributes whose number of elements
 exceeds the format

The number was truncated to 32 bits, the header was then unreadable.
---
 src/io/file_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 7ec8e7e..9bc2845 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -594,7 +594,8 @@ impl<'a> FileWriter<'a> {
             num_bytes += FileWriter::write_data_type(out_stream, attr.data_type())?;
             // The number of elements
             let num_elements: usize = attr.len();
-            let bytes: [u8; 4] = (num_elements as i32).to_be_bytes();
+            let num_elements: i32 = i32::try_from(num_elements).map_err(|err| std::io::Error::new(std::io::ErrorKind::InvalidInput, err))?;
+            let bytes: [u8; 4] = num_elements.to_be_bytes();
             num_bytes += out_stream.write(&bytes)?;
             // The data of the attribute
             num_bytes += match &attr.data {
-- 
2.43.0

