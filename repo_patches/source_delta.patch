From 8087d0a8647e22ab26b7f30c1db1227b164470a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 01/18] fix: size switch tables without overflow and by the
 bytes that are there

A tableswitch spanning more than i32::MAX entries overflowed (a panic with
overflow checks, an empty table without them), and both switches reserved
memory for as many entries as they declared, up to 16 GiB for a dozen bytes.
---
 src/bytecode.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index b9758e2..a40784a 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -500,10 +500,11 @@ fn read_opcodes<'a>(
                 if low > high {
                     fail!("The low value must be less than or equal to the high value in tableswitch at index {}", ix - 4);
                 }
-                let jump_count = match usize::try_from(high - low + 1) {
-                    Ok(n) => n,
+                let jump_count = match usize::try_from(i64::from(high) - i64::from(low) + 1) {
+                    // Each jump takes up four bytes, so don't believe a range that can't fit
+                    Ok(n) if n <= (code.len() - ix) / 4 => n,
                     _ => fail!(
-                        "Unable to convert range to usize in tableswitch at index {}",
+                        "Range doesn't fit in code array for tableswitch at index {}",
                         ix - 4
                     ),
                 };
@@ -530,9 +531,10 @@ fn read_opcodes<'a>(
                     );
                 }
                 let pair_count = match usize::try_from(npairs) {
-                    Ok(n) => n,
+                    // Each pair takes up eight bytes, so don't believe a count that can't fit
+                    Ok(n) if n <= (code.len() - ix) / 8 => n,
                     _ => fail!(
-                        "Unable to convert number of pairs in lookupswitch to usize at index {}",
+                        "Pairs don't fit in code array for lookupswitch at index {}",
                         ix - 4
                     ),
                 };
-- 
2.43.0


From a2657b63122b432dc984fa6b613e07218f4895aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 02/18] fix: refuse a branch whose destination overflows

goto_w, jsr_w and switch offsets near the i32 limits overflowed the
addition that computes the destination.
---
 src/bytecode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index a40784a..fd7f326 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -249,8 +249,10 @@ impl<'a> ByteCode<'a> {
     }
 
     fn validate_jump(&self, source_offset: i32, jump: JumpOffset) -> Result<(), ParseError> {
-        let target_offset = usize::try_from(source_offset + jump)
-            .map_err(|_| err!("Invalid destination after applying jump"))?;
+        let target_offset = source_offset
+            .checked_add(jump)
+            .and_then(|target| usize::try_from(target).ok())
+            .ok_or_else(|| err!("Invalid destination after applying jump"))?;
         if self.get_opcode_index(target_offset).is_none() {
             fail!("Invalid opcode offset after applying jump");
         }
-- 
2.43.0


From 1a34ff2559cc2b86fe5089d0cee54d0149c465d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 03/18] fix: refuse a long or double in the last constant pool
 index

Such a constant needs two indexes. It was accepted with only one left, and
the count overflowed for a pool of 65535.
---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3721b02..4b55c14 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -689,7 +689,13 @@ pub(crate) fn read_constant_pool<'a>(
         cp_ix += 1;
         if constant_type == 5 || constant_type == 6 {
             // long and double types take up two entries in the constant pool,
-            // so eat up another index.
+            // so eat up another index, which must be there to be eaten.
+            if cp_ix == count {
+                fail!(
+                    "Constant pool entry {} needs a second index after the end of the pool",
+                    cp_ix - 1
+                );
+            }
             cp_ix += 1;
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
-- 
2.43.0


From 0d1c3f8f14306a566d26c4af3449ad6fac5e7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 04/18] fix: refuse a NameAndType whose descriptor is not text

Iterating the constant pool, or an EnclosingMethod attribute that refers
to the entry, panicked.
---
 src/constant_pool.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 4b55c14..d4ddbce 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -313,6 +313,15 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// The descriptor of a NameAndType can be any text, but not something other than text,
+    /// because it is exposed as a string.
+    fn validate_descriptor_text(&self) -> Result<(), ParseError> {
+        match self {
+            ConstantPoolEntry::NameAndType(_, y) => peel!(y).str().map(|_| ()),
+            _ => Ok(()),
+        }
+    }
+
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
         if allowed.contains(self.get_type()) {
             Ok(())
@@ -645,6 +654,7 @@ fn validate_constant_pool(
     for (i, cp_entry) in constant_pool.iter().enumerate() {
         cp_entry
             .validate(major_version)
+            .and_then(|()| cp_entry.validate_descriptor_text())
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
     }
     Ok(())
-- 
2.43.0


From a9cd8b8b011a146958dc4cd0cd84baa5dbb351c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 05/18] fix: free the entries of a rejected constant pool

Entries that referred to each other in a cycle kept each other alive and
were leaked, and a long chain of entries overflowed the stack when dropped.
---
 src/constant_pool.rs | 52 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index d4ddbce..19deece 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -81,6 +81,7 @@ trait CafeCellDeref<'a> {
         cp_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
     ) -> Result<(), ParseError>;
+    fn unlink(&self);
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError>;
 }
 
@@ -96,6 +97,14 @@ impl<'a> CafeCellDeref<'a> for CafeCell<ConstantPoolRef<'a>> {
         return self.lock().unwrap().deref_mut().resolve(cp_index, pool);
     }
 
+    fn unlink(&self) {
+        #[cfg(not(feature = "threadsafe"))]
+        let mut target = self.borrow_mut();
+        #[cfg(feature = "threadsafe")]
+        let mut target = self.lock().unwrap();
+        *target = ConstantPoolRef::Unresolved(0);
+    }
+
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
         peel!(self).ensure_type(allowed)
     }
@@ -207,6 +216,37 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Drops the references to other entries.
+    fn unlink(&self) {
+        match self {
+            ConstantPoolEntry::Zero
+            | ConstantPoolEntry::Utf8(_)
+            | ConstantPoolEntry::Utf8Bytes(_)
+            | ConstantPoolEntry::Integer(_)
+            | ConstantPoolEntry::Float(_)
+            | ConstantPoolEntry::Long(_)
+            | ConstantPoolEntry::Double(_)
+            | ConstantPoolEntry::Unused => (),
+
+            ConstantPoolEntry::ClassInfo(x)
+            | ConstantPoolEntry::String(x)
+            | ConstantPoolEntry::MethodHandle(_, x)
+            | ConstantPoolEntry::MethodType(x)
+            | ConstantPoolEntry::Dynamic(_, x)
+            | ConstantPoolEntry::InvokeDynamic(_, x)
+            | ConstantPoolEntry::ModuleInfo(x)
+            | ConstantPoolEntry::PackageInfo(x) => x.unlink(),
+
+            ConstantPoolEntry::FieldRef(x, y)
+            | ConstantPoolEntry::MethodRef(x, y)
+            | ConstantPoolEntry::InterfaceMethodRef(x, y)
+            | ConstantPoolEntry::NameAndType(x, y) => {
+                x.unlink();
+                y.unlink();
+            }
+        }
+    }
+
     fn get_type(&self) -> ConstantPoolEntryTypes {
         match self {
             ConstantPoolEntry::Zero => ConstantPoolEntryTypes::ZERO,
@@ -710,8 +750,16 @@ pub(crate) fn read_constant_pool<'a>(
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
     }
-    resolve_constant_pool(&constant_pool)?;
-    validate_constant_pool(&constant_pool, major_version)?;
+    if let Err(e) = resolve_constant_pool(&constant_pool)
+        .and_then(|()| validate_constant_pool(&constant_pool, major_version))
+    {
+        // The entries of an invalid pool may refer to each other in cycles, which would never
+        // be freed, or in long chains, which would be dropped recursively.
+        for cp_entry in &constant_pool {
+            cp_entry.unlink();
+        }
+        return Err(e);
+    }
     Ok(constant_pool)
 }
 
-- 
2.43.0


From 3b5abb0afc754834955fe14a7f71ac8f5df6facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 06/18] fix: limit how deep attributes and annotations can nest

Deeply nested annotation element values, or Code and Record attributes
inside each other, overflowed the stack, and each level reserved memory for
as many entries as it declared. The vectors that nest now grow as they are
filled.
---
 src/attributes.rs | 65 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c320f57..e5dcbf0 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -357,6 +357,13 @@ pub struct AttributeInfo<'a> {
     pub data: AttributeData<'a>,
 }
 
+/// How deep attributes can be inside each other. No valid class file has any deeper than
+/// those of a Code attribute or a record component, but neither is refused elsewhere.
+const MAX_ATTRIBUTE_DEPTH: usize = 16;
+
+/// How deep annotation element values (annotations and arrays) can be inside each other.
+const MAX_ANNOTATION_DEPTH: usize = 64;
+
 fn ensure_length(length: usize, expected: usize) -> Result<(), ParseError> {
     if length != expected {
         fail!("Unexpected length {}", length);
@@ -369,6 +376,7 @@ fn read_code_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<CodeData<'a>, ParseError> {
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
@@ -382,7 +390,7 @@ fn read_code_data<'a>(
     let code = &bytes[*ix..*ix + code_length];
     *ix += code_length;
     let exception_table_count = read_u2(bytes, ix)?;
-    let mut exception_table = Vec::with_capacity(exception_table_count.into());
+    let mut exception_table = Vec::new();
     for i in 0..exception_table_count {
         let start_pc = read_u2(bytes, ix)?;
         let end_pc = read_u2(bytes, ix)?;
@@ -396,8 +404,8 @@ fn read_code_data<'a>(
             catch_type,
         });
     }
-    let code_attributes =
-        read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "code attribute"))?;
+    let code_attributes = read_nested_attributes(bytes, ix, pool, opts, depth)
+        .map_err(|e| err!(e, "code attribute"))?;
     let bytecode = if opts.parse_bytecode {
         Some(ByteCode::from(code, pool).map_err(|e| err!(e, "bytecode"))?)
     } else {
@@ -648,7 +656,11 @@ fn read_annotation_element_value<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<AnnotationElementValue<'a>, ParseError> {
+    if depth > MAX_ANNOTATION_DEPTH {
+        fail!("Annotation element values are nested too deeply");
+    }
     let value = match read_u1(bytes, ix)? as char {
         'B' => AnnotationElementValue::ByteConstant(read_cp_integer(bytes, ix, pool)?),
         'C' => AnnotationElementValue::CharConstant(read_cp_integer(bytes, ix, pool)?),
@@ -676,13 +688,15 @@ fn read_annotation_element_value<'a>(
             }
             AnnotationElementValue::ClassLiteral { class_name }
         }
-        '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
+        '@' => {
+            AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool, depth + 1)?)
+        }
         '[' => {
             let count = read_u2(bytes, ix)?;
-            let mut array_values = Vec::with_capacity(count.into());
+            let mut array_values = Vec::new();
             for i in 0..count {
                 array_values.push(
-                    read_annotation_element_value(bytes, ix, pool)
+                    read_annotation_element_value(bytes, ix, pool, depth + 1)
                         .map_err(|e| err!(e, "array index {}", i))?,
                 );
             }
@@ -697,15 +711,16 @@ fn read_annotation<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
         .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
-    let mut elements = Vec::with_capacity(element_count.into());
+    let mut elements = Vec::new();
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
-        let value = read_annotation_element_value(bytes, ix, pool)
+        let value = read_annotation_element_value(bytes, ix, pool, depth)
             .map_err(|e| err!(e, "value of element {}", i))?;
         elements.push(AnnotationElement { name, value });
     }
@@ -724,7 +739,7 @@ fn read_annotation_data<'a>(
     let mut annotations = Vec::with_capacity(count.into());
     for i in 0..count {
         annotations
-            .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
+            .push(read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "annotation {}", i))?);
     }
     Ok(annotations)
 }
@@ -741,7 +756,7 @@ fn read_parameter_annotation_data<'a>(
         let mut annotations = Vec::with_capacity(annotation_count.into());
         for j in 0..annotation_count {
             annotations.push(
-                read_annotation(bytes, ix, pool)
+                read_annotation(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "annotation {} of parameter {}", j, i))?,
             );
         }
@@ -826,7 +841,7 @@ fn read_type_annotation_data<'a>(
             });
         }
         let annotation =
-            read_annotation(bytes, ix, pool).map_err(|e| err!(e, "type annotation {}", i))?;
+            read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "type annotation {}", i))?;
         annotations.push(TypeAnnotation {
             target_type,
             target_path,
@@ -1026,9 +1041,10 @@ fn read_record_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut components = Vec::with_capacity(count.into());
+    let mut components = Vec::new();
     for i in 0..count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of entry {}", i))?;
         if !is_unqualified_name(&name) {
@@ -1037,8 +1053,8 @@ fn read_record_data<'a>(
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
-        let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
+        let attributes = read_nested_attributes(bytes, ix, pool, opts, depth)
+            .map_err(|e| err!(e, "entry {}", i))?;
         components.push(RecordComponentEntry {
             name,
             descriptor,
@@ -1054,8 +1070,21 @@ pub(crate) fn read_attributes<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    read_nested_attributes(bytes, ix, pool, opts, 0)
+}
+
+fn read_nested_attributes<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    opts: &ParseOptions,
+    depth: usize,
+) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    if depth > MAX_ATTRIBUTE_DEPTH {
+        fail!("Attributes are nested too deeply");
+    }
     let count = read_u2(bytes, ix)?;
-    let mut attributes = Vec::with_capacity(count.into());
+    let mut attributes = Vec::new();
     for i in 0..count {
         let name =
             read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name field of attribute {}", i))?;
@@ -1076,7 +1105,7 @@ pub(crate) fn read_attributes<'a>(
                 )
             }
             "Code" => {
-                let code_data = read_code_data(bytes, ix, pool, opts)
+                let code_data = read_code_data(bytes, ix, pool, opts, depth + 1)
                     .map_err(|e| err!(e, "Code attribute {}", i))?;
                 AttributeData::Code(code_data)
             }
@@ -1183,7 +1212,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::RuntimeInvisibleTypeAnnotations(annotation_data)
             }
             "AnnotationDefault" => {
-                let element_value = read_annotation_element_value(bytes, ix, pool)
+                let element_value = read_annotation_element_value(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "AnnotationDefault attribute {}", i))?;
                 AttributeData::AnnotationDefault(element_value)
             }
@@ -1230,7 +1259,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::PermittedSubclasses(permitted_subclasses_data)
             }
             "Record" => {
-                let record_data = read_record_data(bytes, ix, pool, opts)
+                let record_data = read_record_data(bytes, ix, pool, opts, depth + 1)
                     .map_err(|e| err!(e, "Record attribute {}", i))?;
                 AttributeData::Record(record_data)
             }
-- 
2.43.0


From 9805f5bdc9783f722096aa4f6bf8b7aa96fc5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 07/18] fix: refuse descriptors with anything left over

A field, method, local variable, record component, annotation type or enum
type whose descriptor was followed by other text was accepted as if the
text weren't there.
---
 src/attributes.rs  | 10 +++++-----
 src/descriptors.rs | 15 +++++++++++++++
 src/lib.rs         |  6 +++---
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index e5dcbf0..399aca5 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -11,7 +11,7 @@ use crate::constant_pool::{
 use crate::constant_pool::{
     BootstrapArgument, ConstantPoolEntry, LiteralConstant, MethodHandle, NameAndType,
 };
-use crate::descriptors::{is_return_descriptor, parse_field_descriptor, FieldDescriptor};
+use crate::descriptors::{is_return_descriptor, parse_whole_field_descriptor, FieldDescriptor};
 use crate::names::is_unqualified_name;
 use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
 
@@ -610,7 +610,7 @@ fn read_localvariable_data<'a>(
             fail!("Invalid unqualified name for variable {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor for variable {}", i))?;
         let index = read_u2(bytes, ix)?;
         localvariables.push(LocalVariableEntry {
@@ -673,7 +673,7 @@ fn read_annotation_element_value<'a>(
         's' => AnnotationElementValue::StringConstant(read_cp_utf8(bytes, ix, pool)?),
         'e' => {
             let type_name = read_cp_utf8(bytes, ix, pool)
-                .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+                .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
                 .map_err(|e| err!(e, "annotation element value enum descriptor"))?;
             let const_name = read_cp_utf8(bytes, ix, pool)?;
             AnnotationElementValue::EnumConstant {
@@ -714,7 +714,7 @@ fn read_annotation<'a>(
     depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
-        .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+        .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
     let mut elements = Vec::new();
@@ -1051,7 +1051,7 @@ fn read_record_data<'a>(
             fail!("Invalid unqualified name for entry {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
         let attributes = read_nested_attributes(bytes, ix, pool, opts, depth)
             .map_err(|e| err!(e, "entry {}", i))?;
diff --git a/src/descriptors.rs b/src/descriptors.rs
index eadf427..3cdf7fd 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -196,6 +196,18 @@ pub(crate) fn parse_field_descriptor<'a>(
     fail!("Empty string is not a field descriptor");
 }
 
+// Parse the field descriptor that the given data consist of. Returns an error if the data
+// don't start with a field descriptor, or if anything follows it.
+pub(crate) fn parse_whole_field_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<FieldDescriptor<'a>, ParseError> {
+    let desc = parse_field_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected data after field descriptor");
+    }
+    Ok(desc)
+}
+
 #[derive(Clone, Debug, Hash, PartialEq, Eq)]
 pub enum ReturnDescriptor<'a> {
     Return(FieldDescriptor<'a>),
@@ -281,6 +293,9 @@ pub(crate) fn parse_method_descriptor<'a>(
     }
     index += 1;
     let return_type = parse_return_descriptor(data, index)?;
+    if data.len() != index + return_type.byte_len() {
+        fail!("Unexpected data after method descriptor");
+    }
     Ok(MethodDescriptor {
         parameters,
         return_type,
diff --git a/src/lib.rs b/src/lib.rs
index e1683e1..9c9ac9f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,8 +31,8 @@ use crate::constant_pool::{
     ConstantPoolIter,
 };
 use crate::descriptors::{
-    parse_field_descriptor, parse_method_descriptor, ClassName, FieldDescriptor, MethodDescriptor,
-    ReturnDescriptor,
+    parse_method_descriptor, parse_whole_field_descriptor, ClassName, FieldDescriptor,
+    MethodDescriptor, ReturnDescriptor,
 };
 pub use crate::error::ParseError;
 use crate::names::{is_unqualified_method_name, is_unqualified_name};
@@ -176,7 +176,7 @@ fn read_fields<'a>(
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .map_err(|e| err!(e, "descriptor of class field {}", i))?;
-        let descriptor = parse_field_descriptor(&descriptor, 0)?;
+        let descriptor = parse_whole_field_descriptor(&descriptor)?;
 
         let unique_id = (name.clone(), descriptor.clone());
         if !unique_ids.insert(unique_id) {
-- 
2.43.0


From 46ed73e5dcee80906ca9571793e7df9c9cf1fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 08/18] fix: check class names against the grammar for
 unqualified names

An empty class name and one ending in a slash were accepted as a ClassName,
and angle brackets, which only method names may not contain, were refused in
class names and descriptors (but not in class constants).
---
 src/descriptors.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index 3cdf7fd..1c5fecf 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -16,10 +16,13 @@ fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseEr
             '/' if ix == 0 => fail!("Unexpected '/' at start of unqualified segment"),
             ';' if ix == 0 => fail!("Unexpected ';' at start of unqualified segment"),
             '/' | ';' => return Ok((&data[0..ix], Some(c))),
-            '.' | '[' | '<' | '>' => fail!("Disallowed character in unqualified segment"),
+            '.' | '[' => fail!("Disallowed character in unqualified segment"),
             _ => (),
         };
     }
+    if data.is_empty() {
+        fail!("Unexpected end at start of unqualified segment");
+    }
     Ok((data, None))
 }
 
-- 
2.43.0


From ffbb78d45cbbac5304db5e37f83040ab4bbac0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 09/18] fix: accept a dynamic constant as a bootstrap argument

Any loadable constant can be one, and since Java 11 that includes dynamic
constants; class files that used one were refused.
---
 src/constant_pool.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 19deece..8c8b812 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -1105,6 +1105,7 @@ pub enum BootstrapArgument<'a> {
     ClassInfo(Cow<'a, str>),
     MethodHandle(MethodHandle<'a>),
     MethodType(Cow<'a, str>),
+    Dynamic(Dynamic<'a>),
 }
 
 pub(crate) fn read_cp_bootstrap_argument<'a>(
@@ -1134,6 +1135,10 @@ pub(crate) fn read_cp_bootstrap_argument<'a>(
             Ok(BootstrapArgument::MethodHandle(make_method_handle(x, y)?))
         }
         ConstantPoolEntry::MethodType(x) => Ok(BootstrapArgument::MethodType(peel!(x).utf8())),
+        ConstantPoolEntry::Dynamic(x, y) => Ok(BootstrapArgument::Dynamic(Dynamic {
+            attr_index: *x,
+            name_and_type: peel!(y).name_and_type(),
+        })),
         _ => fail!("Unexpected constant pool reference type"),
     }
 }
-- 
2.43.0


From 149580a4c11d968b13e5b315a5275ce9a9282e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 10/18] fix: check the names of method references

A method reference could have a name with angle brackets that isn't the
special one for instance initializers, and a reference to one of those
could return a value.
---
 src/constant_pool.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 8c8b812..e91b45e 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -290,12 +290,14 @@ impl<'a> ConstantPoolEntry<'a> {
             ConstantPoolEntry::MethodRef(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::CLASS_INFO)?;
                 y.ensure_type(ConstantPoolEntryTypes::NAME_AND_TYPE)?;
-                peel!(y).validate_method_descriptor()
+                peel!(y).validate_method_descriptor()?;
+                peel!(y).validate_method_name(false)
             }
             ConstantPoolEntry::InterfaceMethodRef(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::CLASS_INFO)?;
                 y.ensure_type(ConstantPoolEntryTypes::NAME_AND_TYPE)?;
-                peel!(y).validate_method_descriptor()
+                peel!(y).validate_method_descriptor()?;
+                peel!(y).validate_method_name(true)
             }
             ConstantPoolEntry::NameAndType(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::UTF8)?;
@@ -410,6 +412,25 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Checks the name of a NameAndType that a method reference, with a valid descriptor, has.
+    fn validate_method_name(&self, in_interface: bool) -> Result<(), ParseError> {
+        match self {
+            ConstantPoolEntry::NameAndType(x, y) => {
+                let name_entry = peel!(x).clone();
+                let name = name_entry.str()?;
+                if !is_unqualified_method_name(name, true, in_interface) {
+                    fail!("Invalid unqualified method name");
+                }
+                // Per 4.4.2, the method of a class with a special name must return void.
+                if !in_interface && name == "<init>" && !peel!(y).str()?.ends_with(")V") {
+                    fail!("Non-void method descriptor for init method");
+                }
+                Ok(())
+            }
+            _ => panic!("Attempting to get name from non-NameAndType constant pool entry!"),
+        }
+    }
+
     fn validate_module_name(&self) -> Result<(), ParseError> {
         if is_module_name(self.str()?) {
             Ok(())
-- 
2.43.0


From 7ea8eaed32a8651b1bc28dfed314a3f3ba9808c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 11/18] fix: check the names of the methods that method handles
 refer to

A newInvokeSpecial handle could refer to an ordinary method and the other
kinds to an initializer. This is a separate step from validate(), like the
check of NameAndType descriptors, because the entries it looks at may come
later in the pool.
---
 src/constant_pool.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index e91b45e..4731511 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -364,6 +364,33 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Per 4.4.8, a method handle that makes an instance must refer to an instance initializer,
+    /// and one that calls a method must not refer to any initializer.
+    fn validate_method_handle_name(&self) -> Result<(), ParseError> {
+        let (allowed, member) = match self {
+            ConstantPoolEntry::MethodHandle(ReferenceKind::NewInvokeSpecial, x) => {
+                (true, peel!(x).clone())
+            }
+            ConstantPoolEntry::MethodHandle(_, x) => (false, peel!(x).clone()),
+            _ => return Ok(()),
+        };
+        match member.deref() {
+            ConstantPoolEntry::MethodRef(_, y) | ConstantPoolEntry::InterfaceMethodRef(_, y) => {
+                let is_initializer = match peel!(y).deref() {
+                    ConstantPoolEntry::NameAndType(name, _) => {
+                        matches!(peel!(name).str()?, "<init>" | "<clinit>")
+                    }
+                    _ => fail!("Unexpected constant pool reference type"),
+                };
+                if is_initializer != allowed {
+                    fail!("Invalid method name for the kind of method handle");
+                }
+                Ok(())
+            }
+            _ => Ok(()),
+        }
+    }
+
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
         if allowed.contains(self.get_type()) {
             Ok(())
@@ -716,6 +743,7 @@ fn validate_constant_pool(
         cp_entry
             .validate(major_version)
             .and_then(|()| cp_entry.validate_descriptor_text())
+            .and_then(|()| cp_entry.validate_method_handle_name())
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
     }
     Ok(())
-- 
2.43.0


From 5fdc53d2de49f1599ee2dcb94004f587e9709973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 12/18] fix: refuse module and package constants outside
 modules

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9c9ac9f..302fb38 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -397,6 +397,15 @@ pub fn parse_class_with_options<'a>(
                 access_flags
             );
         }
+    } else {
+        // Per 4.4.11 and 4.4.12, these are only permitted in a class file that declares a module
+        for (i, cp_entry) in constant_pool.iter().enumerate() {
+            if let ConstantPoolEntry::ModuleInfo(_) | ConstantPoolEntry::PackageInfo(_) =
+                cp_entry.deref()
+            {
+                fail!("Found module or package constant pool entry {} in class file that isn't a module", i);
+            }
+        }
     }
     let this_class = read_cp_classinfo(raw_bytes, &mut ix, &constant_pool)
         .and_then(ClassName::try_from)
-- 
2.43.0


From 01046311e8d2f55537b1aa2d08322bc887037f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 13/18] fix: say which field has an invalid descriptor

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 302fb38..10025b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -175,8 +175,8 @@ fn read_fields<'a>(
             fail!("Invalid unqualified name for class field {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
+            .and_then(|d| parse_whole_field_descriptor(&d))
             .map_err(|e| err!(e, "descriptor of class field {}", i))?;
-        let descriptor = parse_whole_field_descriptor(&descriptor)?;
 
         let unique_id = (name.clone(), descriptor.clone());
         if !unique_ids.insert(unique_id) {
-- 
2.43.0


From 4bf2344f54160aa1cc521ec6b19166035bf03629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 14/18] fix: say which instruction could not be decoded

Errors from the operands of an instruction, such as a constant pool index of
the wrong kind, did not tell where in the code it was.
---
 src/bytecode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index fd7f326..f590797 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -218,8 +218,10 @@ impl<'a> ByteCode<'a> {
         code: &'a [u8],
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
     ) -> Result<Self, ParseError> {
+        let mut offset = 0;
         let bytecode = Self {
-            opcodes: read_opcodes(code, pool)?,
+            opcodes: read_opcodes(code, pool, &mut offset)
+                .map_err(|e| err!(e, "opcode at offset {}", offset))?,
         };
         bytecode.validate_jumps()?;
         Ok(bytecode)
@@ -314,11 +316,13 @@ impl<'a> ByteCode<'a> {
 fn read_opcodes<'a>(
     code: &'a [u8],
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    offset: &mut usize,
 ) -> Result<Vec<(usize, Opcode<'a>)>, ParseError> {
     let mut opcodes = Vec::new();
     let mut ix = 0;
     while ix < code.len() {
         let opcode_ix = ix;
+        *offset = opcode_ix;
         let opcode = match read_u1(code, &mut ix)? {
             0x00 => Opcode::Nop,
             0x01 => Opcode::AconstNull,
-- 
2.43.0


From a32e75013f79abe09b7c982d4dc71659b233dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 15/18] fix: say which constant pool entry could not be read

---
 src/constant_pool.rs | 45 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 4731511..7dcfe7b 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -757,9 +757,34 @@ pub(crate) fn read_constant_pool<'a>(
     let count = read_u2(bytes, ix)?;
     let mut constant_pool = Vec::with_capacity(count.into());
     constant_pool.push(CafeRc::new(ConstantPoolEntry::Zero));
+    read_constant_pool_entries(bytes, ix, major_version, count, &mut constant_pool)
+        .map_err(|e| err!(e, "constant pool entry {}", constant_pool.len()))?;
+    if let Err(e) = resolve_constant_pool(&constant_pool)
+        .and_then(|()| validate_constant_pool(&constant_pool, major_version))
+    {
+        // The entries of an invalid pool may refer to each other in cycles, which would never
+        // be freed, or in long chains, which would be dropped recursively.
+        for cp_entry in &constant_pool {
+            cp_entry.unlink();
+        }
+        return Err(e);
+    }
+    Ok(constant_pool)
+}
+
+fn read_constant_pool_entries<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    major_version: u16,
+    count: u16,
+    constant_pool: &mut Vec<CafeRc<ConstantPoolEntry<'a>>>,
+) -> Result<(), ParseError> {
     let mut cp_ix = 1;
     while cp_ix < count {
         let constant_type = read_u1(bytes, ix)?;
+        if (constant_type == 5 || constant_type == 6) && cp_ix + 1 == count {
+            fail!("No second index left in the constant pool for a long or double");
+        }
         constant_pool.push(CafeRc::new(match constant_type {
             1 => read_constant_utf8(bytes, ix)?,
             3 => read_constant_integer(bytes, ix)?,
@@ -788,28 +813,12 @@ pub(crate) fn read_constant_pool<'a>(
         cp_ix += 1;
         if constant_type == 5 || constant_type == 6 {
             // long and double types take up two entries in the constant pool,
-            // so eat up another index, which must be there to be eaten.
-            if cp_ix == count {
-                fail!(
-                    "Constant pool entry {} needs a second index after the end of the pool",
-                    cp_ix - 1
-                );
-            }
+            // so eat up another index.
             cp_ix += 1;
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
     }
-    if let Err(e) = resolve_constant_pool(&constant_pool)
-        .and_then(|()| validate_constant_pool(&constant_pool, major_version))
-    {
-        // The entries of an invalid pool may refer to each other in cycles, which would never
-        // be freed, or in long chains, which would be dropped recursively.
-        for cp_entry in &constant_pool {
-            cp_entry.unlink();
-        }
-        return Err(e);
-    }
-    Ok(constant_pool)
+    Ok(())
 }
 
 fn read_cp_ref_any<'a>(
-- 
2.43.0


From 484b0d54faa60a7a1bd6b26082816b86735913c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 16/18] fix: say which attribute does not fit

---
 src/attributes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index 399aca5..250635c 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -1092,8 +1092,11 @@ fn read_nested_attributes<'a>(
         let expected_end_ix = *ix + length;
         if bytes.len() < expected_end_ix {
             fail!(
-                "Unexpected end of stream reading attributes at index {}",
-                *ix
+                (
+                    "Unexpected end of stream reading attributes at index {}",
+                    *ix
+                ),
+                ("attribute {}", i)
             );
         }
         let data = match name.deref() {
-- 
2.43.0


From 5b127db093fed4128c1584d9253f3a715c602370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 17/18] fix: say which dynamic constant lacks its bootstrap
 method

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 10025b5..d535518 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -293,7 +293,7 @@ fn validate_bootstrap_methods<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     attributes: &[AttributeInfo<'a>],
 ) -> Result<(), ParseError> {
-    for cp_entry in pool {
+    for (i, cp_entry) in pool.iter().enumerate() {
         match cp_entry.deref() {
             ConstantPoolEntry::Dynamic(x, _) | ConstantPoolEntry::InvokeDynamic(x, _) => {
                 let mut found = 0;
@@ -302,14 +302,14 @@ fn validate_bootstrap_methods<'a>(
                         AttributeData::BootstrapMethods(methods) => {
                             found += 1;
                             if usize::from(*x) >= methods.len() {
-                                fail!("Constant pool item contained invalid index into BootstrapMethods class attribute");
+                                fail!("Constant pool item {} contained invalid index into BootstrapMethods class attribute", i);
                             }
                         }
                         _ => continue,
                     }
                 }
                 if found != 1 {
-                    fail!("Found unexpected number of BootstrapMethods attributes in class; found {}, expected 1", found);
+                    fail!("Found unexpected number of BootstrapMethods attributes in class for constant pool item {}; found {}, expected 1", i, found);
                 }
             }
             _ => continue,
-- 
2.43.0


From 4602cfa393806c0b4bb263b46e4ef946d405c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 18/18] fix: check lengths without overflowing a 32-bit index

On a 32-bit platform a Code or attribute length near 4 GiB overflowed the
addition to the current index.
---
 src/attributes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index 250635c..16e7157 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -381,7 +381,7 @@ fn read_code_data<'a>(
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
     let code_length = read_u4(bytes, ix)? as usize;
-    if bytes.len() < *ix + code_length {
+    if bytes.len() - *ix < code_length {
         fail!(
             "Unexpected end of stream reading code attribute at index {}",
             *ix
@@ -1089,8 +1089,7 @@ fn read_nested_attributes<'a>(
         let name =
             read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name field of attribute {}", i))?;
         let length = read_u4(bytes, ix)? as usize;
-        let expected_end_ix = *ix + length;
-        if bytes.len() < expected_end_ix {
+        if bytes.len() - *ix < length {
             fail!(
                 (
                     "Unexpected end of stream reading attributes at index {}",
@@ -1099,6 +1098,7 @@ fn read_nested_attributes<'a>(
                 ("attribute {}", i)
             );
         }
+        let expected_end_ix = *ix + length;
         let data = match name.deref() {
             "ConstantValue" => {
                 ensure_length(length, 2).map_err(|e| err!(e, "ConstantValue attribute {}", i))?;
-- 
2.43.0

