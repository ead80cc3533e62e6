From bd20341114ad8297b5fb72d841df4d616930cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:33 +0000
Subject: [PATCH 01/27] fix: write ASCII strings completely

The ASCII branch called write once and ignored how many bytes were accepted,
so a destination that takes partial writes silently lost string data.
---
 src/cursor_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8fc0c44..8ac6d1f 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -150,8 +150,8 @@ impl<W: Write> WriteExt for W {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
             self.write_i32::<LittleEndian>(len as i32)?;
-            let _ = self.write(v.as_bytes())?;
-            let _ = self.write(&[0u8; 1])?;
+            self.write_all(v.as_bytes())?;
+            self.write_all(&[0u8; 1])?;
             Ok(len * 2 + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
-- 
2.43.0


From f2bf15e1e341f2aff06d83aeb9f4cf9d7cb0e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:34 +0000
Subject: [PATCH 02/27] fix: report the real size of ASCII strings

write_string counted two bytes per character although ASCII strings are
stored with one.
---
 src/cursor_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8ac6d1f..f6fbe86 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -152,7 +152,7 @@ impl<W: Write> WriteExt for W {
             self.write_i32::<LittleEndian>(len as i32)?;
             self.write_all(v.as_bytes())?;
             self.write_all(&[0u8; 1])?;
-            Ok(len * 2 + 4)
+            Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
-- 
2.43.0


From 3495cd5e23e26a7af8ec17fb51adf2ef3d7852f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:35 +0000
Subject: [PATCH 03/27] fix: include the type name in the reported size of name
 properties

---
 src/properties/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 963f515..cd1fcfd 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -330,7 +330,7 @@ macro_rules! impl_write {
             len += self.write_body(buf, options)?;
             let buf = buf.get_ref();
 
-            writer.write_string(stringify!($property))?;
+            len += writer.write_string(stringify!($property))?;
             writer.write_u32::<LittleEndian>(buf.len() as u32)?;
             writer.write_u32::<LittleEndian>(self.array_index)?;
             $(
-- 
2.43.0


From 06254d02f53827118509680670984833b3f0ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:36 +0000
Subject: [PATCH 04/27] fix: report the real size of gameplay tag containers

The count started from the number of tags instead of the size of the count
field.
---
 src/properties/struct_property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8a59413..4898eb1 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -347,8 +347,8 @@ impl PropertyTrait for StructPropertyValue {
                 Ok(16)
             }
             StructPropertyValue::GameplayTagContainer(tags) => {
-                let mut len = tags.len();
-                cursor.write_i32::<LittleEndian>(len as i32)?;
+                let mut len = 4;
+                cursor.write_i32::<LittleEndian>(tags.len() as i32)?;
                 for gameplaytag in tags {
                     len += cursor.write_string(gameplaytag)?;
                 }
-- 
2.43.0


From 2205a1f9fcf1e0d706c023a89fb40e0967ff8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:37 +0000
Subject: [PATCH 05/27] fix: reject bad separators in numeric properties
 instead of panicking

---
 src/properties/int_property.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index ab4f7e4..fbc1b9c 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -28,6 +28,16 @@ macro_rules! check_size {
     };
 }
 
+macro_rules! check_separator {
+    ($cursor:ident) => {
+        let separator = $cursor.read_u8()?;
+        if separator != 0 {
+            let position = $cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(separator, position))?
+        }
+    };
+}
+
 macro_rules! impl_int_property {
     ($name:ident, $ty:ident, $read_method:ident, $write_method:ident, $size:literal) => {
         #[doc = concat!("A property that stores a `", stringify!($ty), "`.")]
@@ -53,8 +63,7 @@ macro_rules! impl_int_property {
             ) -> Result<Self, Error> {
                 if include_header {
                     check_size!(cursor, $size);
-                    let separator = cursor.read_u8()?;
-                    assert_eq!(separator, 0);
+                    check_separator!(cursor);
                 }
                 Ok(Self::new(cursor.$read_method::<LittleEndian>()?))
             }
@@ -107,8 +116,7 @@ impl Int8Property {
     ) -> Result<Self, Error> {
         if include_header {
             check_size!(cursor, 1);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_separator!(cursor);
         }
         Ok(Int8Property {
             value: cursor.read_i8()?,
@@ -286,8 +294,7 @@ impl BoolProperty {
         }
         let value = cursor.read_bool()?;
         if include_header {
-            let indicator = cursor.read_u8()?;
-            assert_eq!(indicator, 0);
+            check_separator!(cursor);
         }
         Ok(BoolProperty { value })
     }
-- 
2.43.0


From a95a2bc8bcc42323435bd5d1d55a115eea020da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:39 +0000
Subject: [PATCH 06/27] fix: reject malformed byte property headers instead of
 panicking

A non-zero array index or separator hit an assertion, and a zero length
underflowed.
---
 src/properties/int_property.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index fbc1b9c..6740af3 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -201,21 +201,18 @@ impl ByteProperty {
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
-            assert_eq!(
-                array_index,
-                0,
-                "Expected array_index value zero @ {:#x}",
-                cursor.stream_position()? - 4
-            );
+            if array_index != 0 {
+                let position = cursor.stream_position()? - 4;
+                Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+            }
             suggested_length = Some(length);
 
             name = Some(cursor.read_string()?);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_separator!(cursor);
         }
 
         // -1 to account for separator
-        let length = suggested_length.map(|e| e - 1).unwrap_or(1);
+        let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
-- 
2.43.0


From a62c6d30d1428d15b72b782ba2ebb7cf27c9b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:36 +0000
Subject: [PATCH 07/27] fix: verify the declared size of byte properties

Every other property rejects a size that disagrees with its data; byte
properties ignored it, so a corrupted size was silently repaired or misread.
---
 src/properties/int_property.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 6740af3..11c878a 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -214,10 +214,20 @@ impl ByteProperty {
         // -1 to account for separator
         let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
+        let start = cursor.stream_position()?;
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
             _ => BytePropertyValue::Namespaced(cursor.read_string()?),
         };
+        let actual_length = cursor.stream_position()? - start;
+        if include_header && suggested_length.map(u64::from) != Some(actual_length) {
+            let length = suggested_length.unwrap_or_default() as u64;
+            Err(DeserializeError::InvalidValueSize(
+                length,
+                actual_length,
+                start,
+            ))?
+        }
 
         Ok(ByteProperty { name, value })
     }
-- 
2.43.0


From 6f039a7d9d902e9dd9085117acc89d710d6d0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:38 +0000
Subject: [PATCH 08/27] fix: reject malformed unknown property headers instead
 of panicking

---
 src/properties/unknown_property.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index e7126b7..797a18f 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -2,7 +2,10 @@ use std::io::{Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
-use crate::{cursor_ext::WriteExt, error::Error};
+use crate::{
+    cursor_ext::WriteExt,
+    error::{DeserializeError, Error},
+};
 
 use super::{PropertyOptions, PropertyTrait};
 
@@ -43,14 +46,15 @@ impl UnknownProperty {
     ) -> Result<Self, Error> {
         let length = cursor.read_u32::<LittleEndian>()?;
         let array_index = cursor.read_u32::<LittleEndian>()?;
-        assert_eq!(
-            array_index,
-            0,
-            "Expected array_index value zero @ {:#x}",
-            cursor.stream_position()? - 4
-        );
+        if array_index != 0 {
+            let position = cursor.stream_position()? - 4;
+            Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+        }
         let separator = cursor.read_u8()?;
-        assert_eq!(separator, 0);
+        if separator != 0 {
+            let position = cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(separator, position))?
+        }
 
         UnknownProperty::read_with_length(cursor, property_name, length)
     }
-- 
2.43.0


From 755708ab10456674fd14b7d405e881f2efcde051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:39 +0000
Subject: [PATCH 09/27] fix: reject a wrong struct array element type instead
 of panicking

---
 src/properties/array_property.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 9977e3e..d77f7cf 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -311,7 +311,11 @@ impl ArrayProperty {
                 let field_name = cursor.read_string()?;
 
                 let property_type = cursor.read_string()?;
-                assert_eq!(property_type, "StructProperty");
+                validate!(
+                    cursor,
+                    property_type == "StructProperty",
+                    "Unexpected struct array element type {property_type}",
+                );
                 let properties_size = cursor.read_u64::<LittleEndian>()?;
 
                 let struct_name = cursor.read_string()?;
-- 
2.43.0


From 91fd20399dca2e4cd63f288e22eead10be607c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:40 +0000
Subject: [PATCH 10/27] fix: avoid underflow when a set declares a size below
 its header

---
 src/properties/set_property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 1bc82db..c7c0777 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -65,7 +65,8 @@ impl SetProperty {
         let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
 
         if element_count > 0
-            && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
+            && let Some(total_bytes_per_property) =
+                length.saturating_sub(8).checked_div(element_count)
         {
             for _ in 0..element_count {
                 properties.push(Property::new(
-- 
2.43.0


From 5eb7acb35f31e6ac8c170e09ee890509a2d54753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:41 +0000
Subject: [PATCH 11/27] fix: do not preallocate for untrusted element counts

A corrupted count of a few bytes could request gigabytes of memory and abort
the process before the missing data was noticed.
---
 src/lib.rs                            | 3 ++-
 src/properties/array_property.rs      | 2 +-
 src/properties/delegate_property.rs   | 2 +-
 src/properties/field_path_property.rs | 2 +-
 src/properties/map_property.rs        | 2 +-
 src/properties/set_property.rs        | 2 +-
 6 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c72922a..aca5c78 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -221,7 +221,8 @@ impl GvasHeader {
         }
 
         let custom_versions_len = cursor.read_u32::<LittleEndian>()?;
-        let mut custom_versions = HashableIndexMap::with_capacity(custom_versions_len as usize);
+        let mut custom_versions =
+            HashableIndexMap::with_capacity(custom_versions_len.min(1024) as usize);
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
             custom_versions.insert(key, version);
diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index d77f7cf..723ec01 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -302,7 +302,7 @@ impl ArrayProperty {
         property_type: String,
     ) -> Result<Self, Error> {
         let property_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(property_count as usize);
+        let mut properties: Vec<Property> = Vec::with_capacity(property_count.min(1024) as usize);
 
         let mut array_struct_info = None;
 
diff --git a/src/properties/delegate_property.rs b/src/properties/delegate_property.rs
index 8f8e0df..0e2bb74 100644
--- a/src/properties/delegate_property.rs
+++ b/src/properties/delegate_property.rs
@@ -105,7 +105,7 @@ impl MulticastScriptDelegate {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let delegates_len = cursor.read_u32::<LittleEndian>()?;
-        let mut delegates = Vec::with_capacity(delegates_len as usize);
+        let mut delegates = Vec::with_capacity(delegates_len.min(1024) as usize);
         for _ in 0..delegates_len {
             delegates.push(Delegate::read(cursor)?);
         }
diff --git a/src/properties/field_path_property.rs b/src/properties/field_path_property.rs
index 0579ad1..52f93d6 100644
--- a/src/properties/field_path_property.rs
+++ b/src/properties/field_path_property.rs
@@ -32,7 +32,7 @@ impl FieldPath {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let path_len = cursor.read_u32::<LittleEndian>()?;
-        let mut path = Vec::with_capacity(path_len as usize);
+        let mut path = Vec::with_capacity(path_len.min(1024) as usize);
         for _ in 0..path_len {
             path.push(cursor.read_string()?);
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 9ee6bb6..cc6461b 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -465,7 +465,7 @@ impl MapProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
         let element_count = cursor.read_u32::<LittleEndian>()?;
 
-        let mut map = HashableIndexMap::with_capacity(element_count as usize);
+        let mut map = HashableIndexMap::with_capacity(element_count.min(1024) as usize);
         for _ in 0..element_count {
             let properties_stack = &mut options.properties_stack;
             let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index c7c0777..896eb3b 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -62,7 +62,7 @@ impl SetProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
 
         let element_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
+        let mut properties: Vec<Property> = Vec::with_capacity(element_count.min(1024) as usize);
 
         if element_count > 0
             && let Some(total_bytes_per_property) =
-- 
2.43.0


From 84521f062fdb4a8aa5dcf527e21bc8066fdb1127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:43 +0000
Subject: [PATCH 12/27] fix: reject negative tag and text argument counts
 instead of panicking

A negative count was turned into an impossible allocation request.
---
 src/properties/struct_property.rs |  4 ++--
 src/properties/text_property.rs   | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 4898eb1..a678cd3 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -391,8 +391,8 @@ impl StructPropertyValue {
     }
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
-        let len = cursor.read_i32::<LittleEndian>()?;
-        let mut tags: Vec<String> = Vec::with_capacity(len as usize);
+        let len = cursor.read_u32::<LittleEndian>()?;
+        let mut tags: Vec<String> = Vec::with_capacity(len.min(1024) as usize);
         for _ in 0..len {
             tags.push(cursor.read_string()?);
         }
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e38b961..0516012 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -331,8 +331,9 @@ impl FTextHistory {
             TextHistoryType::NamedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let argument_count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
+                let argument_count = cursor.read_u32::<LittleEndian>()?;
+                let mut arguments =
+                    HashableIndexMap::with_capacity(argument_count.min(1024) as usize);
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
@@ -348,8 +349,8 @@ impl FTextHistory {
             TextHistoryType::OrderedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = Vec::with_capacity(count as usize);
+                let count = cursor.read_u32::<LittleEndian>()?;
+                let mut arguments = Vec::with_capacity(count.min(1024) as usize);
 
                 for _ in 0..count {
                     arguments.push(FormatArgumentValue::read(cursor, options)?);
@@ -362,8 +363,8 @@ impl FTextHistory {
             }
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
-                let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(count as usize);
+                let count = cursor.read_u32::<LittleEndian>()?;
+                let mut arguments = HashableIndexMap::with_capacity(count.min(1024) as usize);
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-- 
2.43.0


From ce6f5fb7e2b483a5f17b3a9a925f856e1461767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:44 +0000
Subject: [PATCH 13/27] fix: reject unsupported text kinds instead of panicking

---
 src/properties/text_property.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 0516012..b3d3c3d 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{DeserializeError, Error},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -494,7 +494,10 @@ impl FTextHistory {
 
                 FTextHistory::StringTableEntry { table_id, key }
             }
-            _ => unimplemented!("unimplemented history type: {:?}", history_type),
+            _ => Err(DeserializeError::invalid_property(
+                format!("unimplemented history type: {:?}", history_type),
+                cursor,
+            ))?,
         })
     }
 
@@ -780,7 +783,10 @@ impl FormatArgumentValue {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
             FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
-            FormatArgumentType::Gender => unimplemented!(),
+            FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
+                "unimplemented format argument type: Gender",
+                cursor,
+            ))?,
         })
     }
 
-- 
2.43.0


From fedf4510b2347114c29e8e39365f866b273a99fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:46 +0000
Subject: [PATCH 14/27] fix: refuse text arguments of the wrong width instead
 of panicking

Writing a 32 bit argument to a save with 64 bit support, or the reverse,
hit an assertion.
---
 src/properties/text_property.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index b3d3c3d..db8026e 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,11 +14,19 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
 
+macro_rules! validate {
+    ($cond:expr, $msg:expr $(,)?) => {{
+        if !$cond {
+            Err(SerializeError::invalid_value($msg))?
+        }
+    }};
+}
+
 /// A property that stores GVAS Text.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -799,7 +807,7 @@ impl FormatArgumentValue {
     ) -> Result<usize, Error> {
         match self {
             FormatArgumentValue::Int(value) => {
-                assert!(
+                validate!(
                     !options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -810,7 +818,7 @@ impl FormatArgumentValue {
                 Ok(5)
             }
             FormatArgumentValue::Int64(value) => {
-                assert!(
+                validate!(
                     options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -821,7 +829,7 @@ impl FormatArgumentValue {
                 Ok(9)
             }
             FormatArgumentValue::UInt(value) => {
-                assert!(
+                validate!(
                     !options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -832,7 +840,7 @@ impl FormatArgumentValue {
                 Ok(5)
             }
             FormatArgumentValue::UInt64(value) => {
-                assert!(
+                validate!(
                     options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
-- 
2.43.0


From 1343fae10ab42ecc7d67f0d3372d52711c6a0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:47 +0000
Subject: [PATCH 15/27] fix: refuse invariant text the save's version cannot
 store

The string was silently dropped.
---
 src/properties/text_property.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index db8026e..c641cf2 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -532,15 +532,16 @@ impl FTextHistory {
             FTextHistory::None {
                 culture_invariant_string,
             } => {
-                let mut len = 1;
+                validate!(
+                    options.supports_version(
+                        FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
+                    ),
+                    "FTextHistory::None requires CultureInvariantTextSerializationKeyStability",
+                );
+                let mut len = 5;
                 cursor.write_enum(TextHistoryType::None)?;
-                if options.supports_version(
-                    FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
-                ) {
-                    len += 4;
-                    cursor.write_b32(true)?;
-                    len += cursor.write_fstring(culture_invariant_string.as_deref())?;
-                }
+                cursor.write_b32(true)?;
+                len += cursor.write_fstring(culture_invariant_string.as_deref())?;
                 Ok(len)
             }
 
-- 
2.43.0


From d52a2fd5119c99637f26d6ab101ca439e0241301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:48 +0000
Subject: [PATCH 16/27] fix: do not panic on repeated struct fields in debug
 builds

Repeated fields are kept in order together with their array index, so nothing
is lost; only debug builds aborted on them.
---
 src/properties/struct_property.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index a678cd3..e7d0c0d 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -11,7 +11,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
-    properties::{name_property::NameProperty, struct_types::LinearColor},
+    properties::struct_types::LinearColor,
     scoped_stack_entry::ScopedStackEntry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -183,18 +183,6 @@ impl StructProperty {
 
 fn insert_property(map: &mut IndexMap<String, Vec<Property>>, key: String, property: Property) {
     let entry = map.entry(key).or_default();
-    #[cfg(debug_assertions)]
-    {
-        let array_index = match property {
-            // TODO: Move array_index to the Property layer
-            Property::NameProperty(NameProperty { array_index, .. }) => array_index,
-            _ => 0,
-        };
-        let actual_array_index = entry.len() as u32;
-        // Ensure that the position in the array matches the array_index value,
-        // otherwise this conversion would cause data loss.
-        assert_eq!(actual_array_index, array_index);
-    }
     entry.push(property);
 }
 
-- 
2.43.0


From 36c68b9357db46415192a65a8bd4beb3dd6b98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:49 +0000
Subject: [PATCH 17/27] fix: reject GUID text with anything but hexadecimal
 digits

Non-ASCII text panicked on a character boundary and signs were accepted.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 22705f4..677d0dd 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -174,7 +174,7 @@ impl FromStr for Guid {
             return Ok(Guid([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 401a7af780e68a92def1a0e12a072b281db06aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:50 +0000
Subject: [PATCH 18/27] fix: implement write_body for bool properties

It panicked.
---
 src/properties/int_property.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 11c878a..5cc17bb 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -336,8 +336,13 @@ impl PropertyTrait for BoolProperty {
         Ok(len)
     }
 
-    fn write_body<W: Write>(&self, _: &mut W, _: &mut PropertyOptions) -> Result<usize, Error> {
-        unimplemented!()
+    fn write_body<W: Write>(
+        &self,
+        cursor: &mut W,
+        _: &mut PropertyOptions,
+    ) -> Result<usize, Error> {
+        cursor.write_bool(self.value)?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From c45635eb69efde2411b3e0938123fb4eb1e4db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:51 +0000
Subject: [PATCH 19/27] fix: report errors from the outer compressor of twice
 compressed saves

The outer stream was only finished on drop, which swallows write errors.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index aca5c78..3211dfe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -556,7 +556,7 @@ impl GvasFile {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.finish()?.finish()?;
                     }
                 }
 
-- 
2.43.0


From 3bfe0e6d8b96067991b4a560fe51c604e8179ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:53 +0000
Subject: [PATCH 20/27] fix: write the Palworld compressed length the game
 writes

The recorded length was four too large, and for twice compressed saves it
described the outer stream instead of the inner one.
---
 src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3211dfe..8db6b3b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -545,25 +545,33 @@ impl GvasFile {
                 cursor.write_enum(compression_type)?;
 
                 // Compress and write data directly to the output cursor
-                match compression_type {
-                    PalworldCompressionType::None => cursor.write_all(&decompressed)?,
+                let compressed_length = match compression_type {
+                    PalworldCompressionType::None => {
+                        cursor.write_all(&decompressed)?;
+                        decompressed.len() as u64
+                    }
                     PalworldCompressionType::Zlib => {
                         let mut encoder = ZlibEncoder::new(cursor.by_ref(), Compression::new(6));
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.try_finish()?;
+                        encoder.total_out()
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
+                        // The recorded length is that of the inner stream
+                        encoder.try_finish()?;
+                        let compressed_length = encoder.total_out();
                         encoder.finish()?.finish()?;
+                        compressed_length
                     }
-                }
+                };
 
                 // Update compressed length
                 let end_pos = cursor.stream_position()?;
                 cursor.seek(SeekFrom::Start(compressed_length_pos))?;
-                cursor.write_u32::<LittleEndian>((end_pos - (compressed_length_pos + 4)) as u32)?;
+                cursor.write_u32::<LittleEndian>(compressed_length as u32)?;
                 cursor.seek(SeekFrom::Start(end_pos))?;
             }
         }
-- 
2.43.0


From c6323b43c0d8acc37116f9d72e45f11856b7792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:54 +0000
Subject: [PATCH 21/27] fix: hash equal maps equally

Maps that differ only in entry order compare equal but hashed differently.
---
 src/types.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 677d0dd..f61640f 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -211,7 +211,7 @@ impl<'de> serde::Deserialize<'de> for Guid {
 pub mod map {
     use std::{
         fmt::Debug,
-        hash::Hash,
+        hash::{DefaultHasher, Hash, Hasher},
         ops::{Deref, DerefMut},
     };
 
@@ -248,11 +248,16 @@ pub mod map {
         K: Hash + Eq,
         V: Hash,
     {
-        fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-            for (key, value) in &self.0 {
-                key.hash(state);
-                value.hash(state);
+        fn hash<H: Hasher>(&self, state: &mut H) {
+            // Equality ignores the order of entries, so the hash has to as well
+            let mut sum = 0u64;
+            for entry in &self.0 {
+                let mut hasher = DefaultHasher::new();
+                entry.hash(&mut hasher);
+                sum = sum.wrapping_add(hasher.finish());
             }
+            self.0.len().hash(state);
+            sum.hash(state);
         }
     }
 
-- 
2.43.0


From 57e75b3eb78e54228824244d7b0280ea74045538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:55 +0000
Subject: [PATCH 22/27] fix: reject unknown elements without a size

A corrupted count produced billions of empty elements without consuming any
input.
---
 src/properties/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index cd1fcfd..a5f27b7 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -608,7 +608,7 @@ impl Property {
                     );
                 }
 
-                if let Some(suggested_length) = suggested_length {
+                if let Some(suggested_length) = suggested_length.filter(|&length| length > 0) {
                     return Ok(UnknownProperty::read_with_length(
                         cursor,
                         value_type.to_string(),
-- 
2.43.0


From ba8c0d93181e7348ac343fb96d72a3693cb8e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:56 +0000
Subject: [PATCH 23/27] fix: do not allocate for unknown data that is not there

---
 src/properties/unknown_property.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 797a18f..501beb3 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -1,4 +1,4 @@
-use std::io::{Cursor, Read, Seek, Write};
+use std::io::{self, Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
@@ -30,8 +30,11 @@ impl UnknownProperty {
         property_name: String,
         length: u32,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; length as usize];
-        cursor.read_exact(&mut data)?;
+        let mut data = Vec::new();
+        cursor.take(length as u64).read_to_end(&mut data)?;
+        if data.len() != length as usize {
+            Err(io::Error::from(io::ErrorKind::UnexpectedEof))?
+        }
 
         Ok(UnknownProperty {
             property_name,
-- 
2.43.0


From 9a185dfff035b1c9ce369be00e5d01a5552abcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:58 +0000
Subject: [PATCH 24/27] fix: verify the length and checksum of Palworld
 payloads

The announced length of twice compressed saves was ignored, and the checksum
of once compressed saves was never reached, so damaged files were accepted.
The announced length is no longer allocated up front either.
---
 src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8db6b3b..72c6884 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -327,6 +327,19 @@ impl GvasHeader {
     }
 }
 
+/// Read a Palworld payload to its end, so that its checksum is verified
+fn read_payload<R: Read>(reader: R, length: u32) -> Result<Cursor<Vec<u8>>, Error> {
+    let mut data = Vec::new();
+    reader.take(length as u64 + 1).read_to_end(&mut data)?;
+    if data.len() != length as usize {
+        Err(DeserializeError::InvalidHeader(
+            format!("Palworld payload does not have the announced length {length}")
+                .into_boxed_str(),
+        ))?
+    }
+    Ok(Cursor::new(data))
+}
+
 /// Main UE4 save file struct
 #[derive(Debug, Clone, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -433,27 +446,14 @@ impl GvasFile {
 
                 match compression_type {
                     PalworldCompressionType::None => {
-                        let mut data = vec![0u8; decompresed_length as usize];
-
-                        cursor.read_exact(&mut data)?;
-                        Cursor::new(data)
+                        read_payload(cursor.take(decompresed_length as u64), decompresed_length)?
                     }
                     PalworldCompressionType::Zlib => {
-                        let mut zlib_data = vec![0u8; decompresed_length as usize];
-
-                        let mut decoder = ZlibDecoder::new(cursor);
-                        decoder.read_exact(&mut zlib_data)?;
-
-                        Cursor::new(zlib_data)
+                        read_payload(ZlibDecoder::new(cursor), decompresed_length)?
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
-                        let mut decoder = ZlibDecoder::new(decoder);
-
-                        let mut zlib_data = Vec::new();
-                        decoder.read_to_end(&mut zlib_data)?;
-
-                        Cursor::new(zlib_data)
+                        read_payload(ZlibDecoder::new(decoder), decompresed_length)?
                     }
                 }
             }
-- 
2.43.0


From 7536f33113c73ee55db27b403300ee35ba156fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:26 +0000
Subject: [PATCH 25/27] fix: limit the nesting depth of properties

A small file of nested structs overflowed the stack and aborted the process.
---
 src/properties/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index a5f27b7..848a696 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -433,6 +433,9 @@ macro_rules! make_matcher {
 
 pub(crate) use make_matcher;
 
+/// Longest location path that is read, to keep damaged files from exhausting the stack
+const MAX_PATH_LENGTH: usize = 256;
+
 /// Property options used for reading and writing.
 pub struct PropertyOptions<'a> {
     /// Hints about property types.
@@ -557,6 +560,12 @@ impl Property {
         suggested_length: Option<u32>,
     ) -> Result<Self, Error> {
         let _stack_entry = ScopedStackEntry::new(options.properties_stack, value_type.to_string());
+        if options.properties_stack.len() > MAX_PATH_LENGTH {
+            Err(DeserializeError::invalid_property(
+                "properties are nested too deeply",
+                cursor,
+            ))?
+        }
         match value_type {
             "Int8Property" => Ok(Int8Property::read(cursor, include_header)?.into()),
             "ByteProperty" => {
-- 
2.43.0


From 8e0693dd46d3260d605023757c96b1989f6f460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:27 +0000
Subject: [PATCH 26/27] fix: limit the nesting depth of text

A small file of nested format texts overflowed the stack and aborted the
process.
---
 src/properties/text_property.rs | 52 +++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index c641cf2..852f570 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -27,6 +27,9 @@ macro_rules! validate {
     }};
 }
 
+/// Deepest text nesting that is read, to keep damaged files from exhausting the stack
+const MAX_TEXT_DEPTH: usize = 64;
+
 /// A property that stores GVAS Text.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -121,8 +124,22 @@ impl FText {
     /// Read [`FText`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, 0)
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: usize,
+    ) -> Result<Self, Error> {
+        if depth > MAX_TEXT_DEPTH {
+            Err(DeserializeError::invalid_property(
+                "text is nested too deeply",
+                cursor,
+            ))?
+        }
         let flags = cursor.read_u32::<LittleEndian>()?;
-        let history = FTextHistory::read(cursor, options)?;
+        let history = FTextHistory::read_nested(cursor, options, depth)?;
 
         Ok(FText { flags, history })
     }
@@ -305,6 +322,14 @@ impl FTextHistory {
     /// Read [`FTextHistory`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, 0)
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: usize,
+    ) -> Result<Self, Error> {
         let history_type = cursor.read_enum()?;
 
         Ok(match history_type {
@@ -337,7 +362,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::NamedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
 
                 let argument_count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments =
@@ -345,7 +370,7 @@ impl FTextHistory {
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth)?;
                     arguments.insert(key, value);
                 }
 
@@ -355,13 +380,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::OrderedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
 
                 let count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = Vec::with_capacity(count.min(1024) as usize);
 
                 for _ in 0..count {
-                    arguments.push(FormatArgumentValue::read(cursor, options)?);
+                    arguments.push(FormatArgumentValue::read(cursor, options, depth)?);
                 }
 
                 FTextHistory::OrderedFormat {
@@ -370,13 +395,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::ArgumentFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
                 let count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::with_capacity(count.min(1024) as usize);
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth)?;
                     arguments.insert(key, value);
                 }
 
@@ -386,7 +411,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsNumber => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -404,7 +429,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsPercent => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -424,7 +449,7 @@ impl FTextHistory {
             TextHistoryType::AsCurrency => {
                 let currency_code = cursor.read_fstring()?;
 
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -488,7 +513,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::Transform => {
-                let source_text = Box::new(FText::read(cursor, options)?);
+                let source_text = Box::new(FText::read_nested(cursor, options, depth + 1)?);
                 let transform_type = cursor.read_enum()?;
 
                 FTextHistory::Transform {
@@ -769,6 +794,7 @@ impl FormatArgumentValue {
     pub(crate) fn read<R: Read + Seek>(
         cursor: &mut R,
         options: &PropertyOptions,
+        depth: usize,
     ) -> Result<Self, Error> {
         let format_argument_type = cursor.read_enum()?;
 
@@ -791,7 +817,9 @@ impl FormatArgumentValue {
             FormatArgumentType::Double => {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
-            FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
+            FormatArgumentType::Text => {
+                FormatArgumentValue::Text(FText::read_nested(cursor, options, depth + 1)?)
+            }
             FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
                 "unimplemented format argument type: Gender",
                 cursor,
-- 
2.43.0


From 65377269ae58b55a85589d5dc0449d35ace5e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:59 +0000
Subject: [PATCH 27/27] fix: verify the outer checksum of twice compressed
 Palworld saves

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 72c6884..acec2bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -452,8 +452,12 @@ impl GvasFile {
                         read_payload(ZlibDecoder::new(cursor), decompresed_length)?
                     }
                     PalworldCompressionType::ZlibTwice => {
-                        let decoder = ZlibDecoder::new(cursor);
-                        read_payload(ZlibDecoder::new(decoder), decompresed_length)?
+                        let mut decoder = ZlibDecoder::new(cursor);
+                        let payload =
+                            read_payload(ZlibDecoder::new(&mut decoder), decompresed_length)?;
+                        // The checksum of the outer stream is only verified at its end
+                        std::io::copy(&mut decoder, &mut std::io::sink())?;
+                        payload
                     }
                 }
             }
-- 
2.43.0

