From 4f8d19caddc440e3393e2e82fadcfa743ad26b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:19 +0000
Subject: [PATCH 01/26] fix: count ASCII strings as one byte per character when
 writing

write_string returned twice the string length for ASCII text, so every
write count that includes an ASCII string was too large.
---
 src/cursor_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8fc0c44..74f6a8e 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -152,7 +152,7 @@ impl<W: Write> WriteExt for W {
             self.write_i32::<LittleEndian>(len as i32)?;
             let _ = self.write(v.as_bytes())?;
             let _ = self.write(&[0u8; 1])?;
-            Ok(len * 2 + 4)
+            Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
-- 
2.43.0


From 77f9cda1079a995d7f46c58c6af5e63e227ef6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:19 +0000
Subject: [PATCH 02/26] fix: include the type name in the byte count of
 NameProperty

---
 src/properties/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 963f515..cd1fcfd 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -330,7 +330,7 @@ macro_rules! impl_write {
             len += self.write_body(buf, options)?;
             let buf = buf.get_ref();
 
-            writer.write_string(stringify!($property))?;
+            len += writer.write_string(stringify!($property))?;
             writer.write_u32::<LittleEndian>(buf.len() as u32)?;
             writer.write_u32::<LittleEndian>(self.array_index)?;
             $(
-- 
2.43.0


From e9d1e588db278b647af3384dcca699523e3e6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:19 +0000
Subject: [PATCH 03/26] fix: start the GameplayTagContainer byte count at the
 size of its length field

The count started at the number of tags instead of the four bytes that
are written for it.
---
 src/properties/struct_property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8a59413..4898eb1 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -347,8 +347,8 @@ impl PropertyTrait for StructPropertyValue {
                 Ok(16)
             }
             StructPropertyValue::GameplayTagContainer(tags) => {
-                let mut len = tags.len();
-                cursor.write_i32::<LittleEndian>(len as i32)?;
+                let mut len = 4;
+                cursor.write_i32::<LittleEndian>(tags.len() as i32)?;
                 for gameplaytag in tags {
                     len += cursor.write_string(gameplaytag)?;
                 }
-- 
2.43.0


From a2c124190c90049593b357d11c0c3a9c21dc6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:19 +0000
Subject: [PATCH 04/26] fix: write complete strings to writers that accept
 partial buffers

write_string ignored the number of bytes a writer accepted, so a short
write silently dropped part of the string.
---
 src/cursor_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 74f6a8e..f6fbe86 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -150,8 +150,8 @@ impl<W: Write> WriteExt for W {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
             self.write_i32::<LittleEndian>(len as i32)?;
-            let _ = self.write(v.as_bytes())?;
-            let _ = self.write(&[0u8; 1])?;
+            self.write_all(v.as_bytes())?;
+            self.write_all(&[0u8; 1])?;
             Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
-- 
2.43.0


From 61df4586cb772dbcd59a6f4835c619bc15fc5617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:19 +0000
Subject: [PATCH 05/26] fix: report malformed integer and unknown property
 headers as errors

A non-zero terminator or array index in these headers hit an assertion
and panicked instead of returning the error other properties return.
---
 src/properties/int_property.rs     | 32 +++++++++++++++++-------------
 src/properties/unknown_property.rs | 22 +++++++++++---------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index ab4f7e4..8a24f1b 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -28,6 +28,16 @@ macro_rules! check_size {
     };
 }
 
+macro_rules! check_terminator {
+    ($cursor:ident) => {
+        let terminator = $cursor.read_u8()?;
+        if terminator != 0 {
+            let position = $cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
+    };
+}
+
 macro_rules! impl_int_property {
     ($name:ident, $ty:ident, $read_method:ident, $write_method:ident, $size:literal) => {
         #[doc = concat!("A property that stores a `", stringify!($ty), "`.")]
@@ -53,8 +63,7 @@ macro_rules! impl_int_property {
             ) -> Result<Self, Error> {
                 if include_header {
                     check_size!(cursor, $size);
-                    let separator = cursor.read_u8()?;
-                    assert_eq!(separator, 0);
+                    check_terminator!(cursor);
                 }
                 Ok(Self::new(cursor.$read_method::<LittleEndian>()?))
             }
@@ -107,8 +116,7 @@ impl Int8Property {
     ) -> Result<Self, Error> {
         if include_header {
             check_size!(cursor, 1);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
         Ok(Int8Property {
             value: cursor.read_i8()?,
@@ -193,17 +201,14 @@ impl ByteProperty {
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
-            assert_eq!(
-                array_index,
-                0,
-                "Expected array_index value zero @ {:#x}",
-                cursor.stream_position()? - 4
-            );
+            if array_index != 0 {
+                let position = cursor.stream_position()? - 4;
+                Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+            }
             suggested_length = Some(length);
 
             name = Some(cursor.read_string()?);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
 
         // -1 to account for separator
@@ -286,8 +291,7 @@ impl BoolProperty {
         }
         let value = cursor.read_bool()?;
         if include_header {
-            let indicator = cursor.read_u8()?;
-            assert_eq!(indicator, 0);
+            check_terminator!(cursor);
         }
         Ok(BoolProperty { value })
     }
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index e7126b7..15640cf 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -2,7 +2,10 @@ use std::io::{Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
-use crate::{cursor_ext::WriteExt, error::Error};
+use crate::{
+    cursor_ext::WriteExt,
+    error::{DeserializeError, Error},
+};
 
 use super::{PropertyOptions, PropertyTrait};
 
@@ -43,14 +46,15 @@ impl UnknownProperty {
     ) -> Result<Self, Error> {
         let length = cursor.read_u32::<LittleEndian>()?;
         let array_index = cursor.read_u32::<LittleEndian>()?;
-        assert_eq!(
-            array_index,
-            0,
-            "Expected array_index value zero @ {:#x}",
-            cursor.stream_position()? - 4
-        );
-        let separator = cursor.read_u8()?;
-        assert_eq!(separator, 0);
+        if array_index != 0 {
+            let position = cursor.stream_position()? - 4;
+            Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+        }
+        let terminator = cursor.read_u8()?;
+        if terminator != 0 {
+            let position = cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
 
         UnknownProperty::read_with_length(cursor, property_name, length)
     }
-- 
2.43.0


From 7e17b54a9ec15263eb086e3cc119753d81287150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:19 +0000
Subject: [PATCH 06/26] fix: reject a mismatching element type in arrays of
 structs

The inner type name of a struct array was checked with an assertion, so
a malformed file caused a panic.
---
 src/properties/array_property.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 9977e3e..65b499f 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -311,7 +311,12 @@ impl ArrayProperty {
                 let field_name = cursor.read_string()?;
 
                 let property_type = cursor.read_string()?;
-                assert_eq!(property_type, "StructProperty");
+                if property_type != "StructProperty" {
+                    Err(DeserializeError::invalid_property(
+                        format!("Expected StructProperty, got {property_type}"),
+                        cursor,
+                    ))?
+                }
                 let properties_size = cursor.read_u64::<LittleEndian>()?;
 
                 let struct_name = cursor.read_string()?;
-- 
2.43.0


From 2e0418ef1e966904bc602a9cc08fce2a7f45cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:39 +0000
Subject: [PATCH 07/26] fix: do not underflow on a ByteProperty with declared
 length zero

---
 src/properties/int_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 8a24f1b..9904c91 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -212,7 +212,7 @@ impl ByteProperty {
         }
 
         // -1 to account for separator
-        let length = suggested_length.map(|e| e - 1).unwrap_or(1);
+        let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
-- 
2.43.0


From 5fd4e19410334637dd2393ed321020dbe66b3aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:39 +0000
Subject: [PATCH 08/26] fix: enforce the declared length of ByteProperty

Every other property with a header rejects a payload whose size differs
from the declared one; ByteProperty silently ignored the difference.
---
 src/properties/int_property.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 9904c91..cf736c2 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -214,10 +214,22 @@ impl ByteProperty {
         // -1 to account for separator
         let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
+        let start = cursor.stream_position()?;
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
             _ => BytePropertyValue::Namespaced(cursor.read_string()?),
         };
+        let end = cursor.stream_position()?;
+        if include_header
+            && let Some(length) = suggested_length
+            && end - start != length as u64
+        {
+            Err(DeserializeError::InvalidValueSize(
+                length as u64,
+                end - start,
+                start,
+            ))?
+        }
 
         Ok(ByteProperty { name, value })
     }
-- 
2.43.0


From a1a7ef4c185c5e33af001b8056506ecc0cd3bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:39 +0000
Subject: [PATCH 09/26] fix: do not underflow on a SetProperty shorter than its
 own header

---
 src/properties/set_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 1bc82db..e87b531 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -65,7 +65,7 @@ impl SetProperty {
         let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
 
         if element_count > 0
-            && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
+            && let Some(total_bytes_per_property) = length.saturating_sub(8).checked_div(element_count)
         {
             for _ in 0..element_count {
                 properties.push(Property::new(
-- 
2.43.0


From 6e02afd9125193190d968aeb9be48e11da7c6ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:02 +0000
Subject: [PATCH 10/26] fix: return an error for unsupported text history and
 argument types

Reading a text with one of these types panicked.
---
 src/properties/set_property.rs  |  3 ++-
 src/properties/text_property.rs | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index e87b531..c7c0777 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -65,7 +65,8 @@ impl SetProperty {
         let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
 
         if element_count > 0
-            && let Some(total_bytes_per_property) = length.saturating_sub(8).checked_div(element_count)
+            && let Some(total_bytes_per_property) =
+                length.saturating_sub(8).checked_div(element_count)
         {
             for _ in 0..element_count {
                 properties.push(Property::new(
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e38b961..97afc06 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{DeserializeError, Error},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -493,7 +493,12 @@ impl FTextHistory {
 
                 FTextHistory::StringTableEntry { table_id, key }
             }
-            _ => unimplemented!("unimplemented history type: {:?}", history_type),
+            TextHistoryType::TextGenerator | TextHistoryType::RawText => {
+                Err(DeserializeError::invalid_property(
+                    format!("Text history type {history_type:?} is not supported"),
+                    cursor,
+                ))?
+            }
         })
     }
 
@@ -779,7 +784,10 @@ impl FormatArgumentValue {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
             FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
-            FormatArgumentType::Gender => unimplemented!(),
+            FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
+                "Format argument type Gender is not supported",
+                cursor,
+            ))?,
         })
     }
 
-- 
2.43.0


From 626c7c287aa7d894f75bbda93f74fb68bc246ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:03 +0000
Subject: [PATCH 11/26] fix: return an error for text arguments of the wrong
 width

Writing a 32-bit argument to a file that uses 64-bit arguments, or the
other way round, panicked. Struct values already report this as an error.
---
 src/properties/text_property.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 97afc06..429937e 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,11 +14,19 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
 
+macro_rules! validate {
+    ($cond:expr, $msg:literal) => {{
+        if !$cond {
+            Err(SerializeError::invalid_value($msg))?
+        }
+    }};
+}
+
 /// A property that stores GVAS Text.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -800,7 +808,7 @@ impl FormatArgumentValue {
     ) -> Result<usize, Error> {
         match self {
             FormatArgumentValue::Int(value) => {
-                assert!(
+                validate!(
                     !options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -811,7 +819,7 @@ impl FormatArgumentValue {
                 Ok(5)
             }
             FormatArgumentValue::Int64(value) => {
-                assert!(
+                validate!(
                     options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -822,7 +830,7 @@ impl FormatArgumentValue {
                 Ok(9)
             }
             FormatArgumentValue::UInt(value) => {
-                assert!(
+                validate!(
                     !options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -833,7 +841,7 @@ impl FormatArgumentValue {
                 Ok(5)
             }
             FormatArgumentValue::UInt64(value) => {
-                assert!(
+                validate!(
                     options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
-- 
2.43.0


From ec6375c9522803ec133f2ddb13b990abd5af6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:04 +0000
Subject: [PATCH 12/26] fix: do not drop the culture invariant string of a text
 silently

Files older than CultureInvariantTextSerializationKeyStability cannot
store this string. Writing one now returns an error instead of losing it.
---
 src/properties/text_property.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 429937e..91eeb43 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -533,15 +533,16 @@ impl FTextHistory {
             FTextHistory::None {
                 culture_invariant_string,
             } => {
-                let mut len = 1;
+                validate!(
+                    options.supports_version(
+                        FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
+                    ),
+                    "FTextHistory::None requires CultureInvariantTextSerializationKeyStability, use FTextHistory::Empty"
+                );
+                let mut len = 5;
                 cursor.write_enum(TextHistoryType::None)?;
-                if options.supports_version(
-                    FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
-                ) {
-                    len += 4;
-                    cursor.write_b32(true)?;
-                    len += cursor.write_fstring(culture_invariant_string.as_deref())?;
-                }
+                cursor.write_b32(true)?;
+                len += cursor.write_fstring(culture_invariant_string.as_deref())?;
                 Ok(len)
             }
 
-- 
2.43.0


From a068b2bcabd3f95b49066d3b96e3e47827167c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:05 +0000
Subject: [PATCH 13/26] fix: implement BoolProperty::write_body

Calling it through the public property trait panicked.
---
 src/properties/int_property.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index cf736c2..b7406ba 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -338,8 +338,13 @@ impl PropertyTrait for BoolProperty {
         Ok(len)
     }
 
-    fn write_body<W: Write>(&self, _: &mut W, _: &mut PropertyOptions) -> Result<usize, Error> {
-        unimplemented!()
+    fn write_body<W: Write>(
+        &self,
+        cursor: &mut W,
+        _: &mut PropertyOptions,
+    ) -> Result<usize, Error> {
+        cursor.write_bool(self.value)?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From 86388182c82db80cac23f6f353b1175d5d0f127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:05 +0000
Subject: [PATCH 14/26] fix: accept sparse static arrays in structs in debug
 builds

The engine leaves out array elements that have their default value. A
debug assertion panicked on such files, while release builds kept every
element with its own array index.
---
 src/properties/struct_property.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 4898eb1..6cc3e13 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -11,7 +11,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
-    properties::{name_property::NameProperty, struct_types::LinearColor},
+    properties::struct_types::LinearColor,
     scoped_stack_entry::ScopedStackEntry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -182,20 +182,9 @@ impl StructProperty {
 }
 
 fn insert_property(map: &mut IndexMap<String, Vec<Property>>, key: String, property: Property) {
-    let entry = map.entry(key).or_default();
-    #[cfg(debug_assertions)]
-    {
-        let array_index = match property {
-            // TODO: Move array_index to the Property layer
-            Property::NameProperty(NameProperty { array_index, .. }) => array_index,
-            _ => 0,
-        };
-        let actual_array_index = entry.len() as u32;
-        // Ensure that the position in the array matches the array_index value,
-        // otherwise this conversion would cause data loss.
-        assert_eq!(actual_array_index, array_index);
-    }
-    entry.push(property);
+    // The array index of a property is stored in the property itself, so nothing
+    // is lost when elements of a static array are missing.
+    map.entry(key).or_default().push(property);
 }
 
 impl PropertyTrait for StructProperty {
-- 
2.43.0


From 4db1a2311b8ee286b5af74bd7383cd86b3dba5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:37 +0000
Subject: [PATCH 15/26] fix: do not reserve memory for element counts taken
 from the file

A few bytes of malformed input could make the reader ask for gigabytes of
memory up front, or panic on a negative count. Collections now grow as
elements are read.
---
 src/lib.rs                            | 2 +-
 src/properties/array_property.rs      | 2 +-
 src/properties/delegate_property.rs   | 2 +-
 src/properties/field_path_property.rs | 2 +-
 src/properties/map_property.rs        | 2 +-
 src/properties/set_property.rs        | 2 +-
 src/properties/struct_property.rs     | 2 +-
 src/properties/text_property.rs       | 6 +++---
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c72922a..3d94be0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -221,7 +221,7 @@ impl GvasHeader {
         }
 
         let custom_versions_len = cursor.read_u32::<LittleEndian>()?;
-        let mut custom_versions = HashableIndexMap::with_capacity(custom_versions_len as usize);
+        let mut custom_versions = HashableIndexMap::new();
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
             custom_versions.insert(key, version);
diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 65b499f..1e8a058 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -302,7 +302,7 @@ impl ArrayProperty {
         property_type: String,
     ) -> Result<Self, Error> {
         let property_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(property_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         let mut array_struct_info = None;
 
diff --git a/src/properties/delegate_property.rs b/src/properties/delegate_property.rs
index 8f8e0df..5ff49bb 100644
--- a/src/properties/delegate_property.rs
+++ b/src/properties/delegate_property.rs
@@ -105,7 +105,7 @@ impl MulticastScriptDelegate {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let delegates_len = cursor.read_u32::<LittleEndian>()?;
-        let mut delegates = Vec::with_capacity(delegates_len as usize);
+        let mut delegates = Vec::new();
         for _ in 0..delegates_len {
             delegates.push(Delegate::read(cursor)?);
         }
diff --git a/src/properties/field_path_property.rs b/src/properties/field_path_property.rs
index 0579ad1..120bcd5 100644
--- a/src/properties/field_path_property.rs
+++ b/src/properties/field_path_property.rs
@@ -32,7 +32,7 @@ impl FieldPath {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let path_len = cursor.read_u32::<LittleEndian>()?;
-        let mut path = Vec::with_capacity(path_len as usize);
+        let mut path = Vec::new();
         for _ in 0..path_len {
             path.push(cursor.read_string()?);
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 9ee6bb6..d7c0e36 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -465,7 +465,7 @@ impl MapProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
         let element_count = cursor.read_u32::<LittleEndian>()?;
 
-        let mut map = HashableIndexMap::with_capacity(element_count as usize);
+        let mut map = HashableIndexMap::new();
         for _ in 0..element_count {
             let properties_stack = &mut options.properties_stack;
             let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index c7c0777..8e821f5 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -62,7 +62,7 @@ impl SetProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
 
         let element_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         if element_count > 0
             && let Some(total_bytes_per_property) =
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 6cc3e13..7c0e31b 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -381,7 +381,7 @@ impl StructPropertyValue {
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let len = cursor.read_i32::<LittleEndian>()?;
-        let mut tags: Vec<String> = Vec::with_capacity(len as usize);
+        let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
         }
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 91eeb43..556756f 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -340,7 +340,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let argument_count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
@@ -357,7 +357,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = Vec::with_capacity(count as usize);
+                let mut arguments = Vec::new();
 
                 for _ in 0..count {
                     arguments.push(FormatArgumentValue::read(cursor, options)?);
@@ -371,7 +371,7 @@ impl FTextHistory {
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-- 
2.43.0


From 8cd2f6a6188268fcb212e4f78c5bcfedf12a0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:38 +0000
Subject: [PATCH 16/26] fix: do not treat a negative element count as an empty
 list

A malformed count in a text or tag container was read as zero elements and
replaced by zero when the file was written.
---
 src/properties/struct_property.rs | 2 +-
 src/properties/text_property.rs   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 7c0e31b..7ecdd8b 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -380,7 +380,7 @@ impl StructPropertyValue {
     }
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
-        let len = cursor.read_i32::<LittleEndian>()?;
+        let len = cursor.read_u32::<LittleEndian>()?;
         let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 556756f..ea48a34 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -339,7 +339,7 @@ impl FTextHistory {
             TextHistoryType::NamedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let argument_count = cursor.read_i32::<LittleEndian>()?;
+                let argument_count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
@@ -356,7 +356,7 @@ impl FTextHistory {
             TextHistoryType::OrderedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let count = cursor.read_i32::<LittleEndian>()?;
+                let count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = Vec::new();
 
                 for _ in 0..count {
@@ -370,7 +370,7 @@ impl FTextHistory {
             }
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
-                let count = cursor.read_i32::<LittleEndian>()?;
+                let count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
-- 
2.43.0


From d60defa8c79e0b322f42998f1fcfab75425050d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:39 +0000
Subject: [PATCH 17/26] fix: do not allocate payload buffers before the data is
 there

The declared length of an unknown property or of a compressed save was
allocated before anything was read, so a tiny file could request 4 GiB.
---
 src/cursor_ext.rs                  | 12 +++++++++++-
 src/lib.rs                         | 13 +++----------
 src/properties/unknown_property.rs |  7 ++-----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index f6fbe86..112c621 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
@@ -43,6 +43,16 @@ pub trait WriteExt {
         T: Into<i8> + std::fmt::Debug;
 }
 
+/// Reads exactly `len` bytes, without allocating more than the reader provides.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> Result<Vec<u8>, Error> {
+    let mut data = Vec::new();
+    reader.take(len as u64).read_to_end(&mut data)?;
+    if data.len() != len as usize {
+        Err(std::io::Error::from(ErrorKind::UnexpectedEof))?
+    }
+    Ok(data)
+}
+
 impl<R: Read + Seek> ReadExt for R {
     #[inline]
     fn read_string(&mut self) -> Result<String, Error> {
diff --git a/src/lib.rs b/src/lib.rs
index 3d94be0..a0dd896 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ use flate2::read::ZlibDecoder;
 use flate2::write::ZlibEncoder;
 
 use crate::{
-    cursor_ext::{ReadExt, WriteExt},
+    cursor_ext::{ReadExt, WriteExt, read_bytes},
     custom_version::FCustomVersion,
     engine_version::FEngineVersion,
     error::{DeserializeError, Error},
@@ -432,18 +432,11 @@ impl GvasFile {
 
                 match compression_type {
                     PalworldCompressionType::None => {
-                        let mut data = vec![0u8; decompresed_length as usize];
-
-                        cursor.read_exact(&mut data)?;
-                        Cursor::new(data)
+                        Cursor::new(read_bytes(cursor, decompresed_length)?)
                     }
                     PalworldCompressionType::Zlib => {
-                        let mut zlib_data = vec![0u8; decompresed_length as usize];
-
                         let mut decoder = ZlibDecoder::new(cursor);
-                        decoder.read_exact(&mut zlib_data)?;
-
-                        Cursor::new(zlib_data)
+                        Cursor::new(read_bytes(&mut decoder, decompresed_length)?)
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 15640cf..6367d88 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -3,7 +3,7 @@ use std::io::{Cursor, Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    cursor_ext::WriteExt,
+    cursor_ext::{WriteExt, read_bytes},
     error::{DeserializeError, Error},
 };
 
@@ -30,12 +30,9 @@ impl UnknownProperty {
         property_name: String,
         length: u32,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; length as usize];
-        cursor.read_exact(&mut data)?;
-
         Ok(UnknownProperty {
             property_name,
-            raw: data,
+            raw: read_bytes(cursor, length)?,
         })
     }
 
-- 
2.43.0


From 724f65261e87816b9e08b8b343f71ae5fdc200b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:39 +0000
Subject: [PATCH 18/26] fix: report write errors of the outer zlib stream

The outer encoder of a doubly compressed save was finished when it was
dropped, which ignores errors, so a failing writer could go unnoticed.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a0dd896..8891109 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -548,7 +548,7 @@ impl GvasFile {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.finish()?.finish()?;
                     }
                 }
 
-- 
2.43.0


From bc95f638514684f0fa36c2bedf59341116da6d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:40 +0000
Subject: [PATCH 19/26] fix: reject GUID text with anything but hexadecimal
 digits

A plus sign was accepted in place of a digit, and multi-byte characters
caused a panic because the text was sliced inside a character.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 22705f4..58d0a8e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -174,7 +174,7 @@ impl FromStr for Guid {
             return Ok(Guid([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|c| c.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 1e80945602480d42449a3cf6b0d3d8de57441765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:41 +0000
Subject: [PATCH 20/26] fix: make equality of maps agree with their hash

Maps with the same entries in a different order compared equal but hashed
differently, which breaks using them as keys. The order is part of the
file, so it now takes part in the comparison.
---
 src/types.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 58d0a8e..1123dea 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -218,7 +218,7 @@ pub mod map {
     use indexmap::IndexMap;
 
     /// Wrapper around `IndexMap` to implement Hash and Eq functionality.
-    #[derive(Debug, Clone, PartialEq, Eq)]
+    #[derive(Debug, Clone, Eq)]
     #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
     pub struct HashableIndexMap<K: Hash + Eq, V: Hash>(pub IndexMap<K, V>);
 
@@ -243,6 +243,18 @@ pub mod map {
         }
     }
 
+    /// Maps are equal if they have the same entries in the same order, which is also what the
+    /// hash depends on.
+    impl<K, V> PartialEq for HashableIndexMap<K, V>
+    where
+        K: Hash + Eq,
+        V: Hash + PartialEq,
+    {
+        fn eq(&self, other: &Self) -> bool {
+            self.0.iter().eq(other.0.iter())
+        }
+    }
+
     impl<K, V> Hash for HashableIndexMap<K, V>
     where
         K: Hash + Eq,
-- 
2.43.0


From a0773cb828c5d7b246d6d3b47f17f84512c5af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:37 +0000
Subject: [PATCH 21/26] fix: check the declared length of doubly compressed
 saves

A payload shorter than declared was accepted for this container kind only.
---
 src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8891109..62f78a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -441,11 +441,7 @@ impl GvasFile {
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
                         let mut decoder = ZlibDecoder::new(decoder);
-
-                        let mut zlib_data = Vec::new();
-                        decoder.read_to_end(&mut zlib_data)?;
-
-                        Cursor::new(zlib_data)
+                        Cursor::new(read_bytes(&mut decoder, decompresed_length)?)
                     }
                 }
             }
-- 
2.43.0


From 48fed9a1d1ad39e07e01cefcfeb7928883e37b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:37 +0000
Subject: [PATCH 22/26] fix: store the compressed length the way the game does

The length covers the compressed data only, without the four bytes of
magic and kind before it. For doubly compressed saves it is the length of
the inner stream. Both can be seen in resources/test/palworld_*.sav.
---
 src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62f78a4..14358b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -533,25 +533,32 @@ impl GvasFile {
                 cursor.write_enum(compression_type)?;
 
                 // Compress and write data directly to the output cursor
-                match compression_type {
-                    PalworldCompressionType::None => cursor.write_all(&decompressed)?,
+                let compressed_length = match compression_type {
+                    PalworldCompressionType::None => {
+                        cursor.write_all(&decompressed)?;
+                        decompressed.len() as u64
+                    }
                     PalworldCompressionType::Zlib => {
                         let mut encoder = ZlibEncoder::new(cursor.by_ref(), Compression::new(6));
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.try_finish()?;
+                        encoder.total_out()
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?.finish()?;
+                        // The length of the inner stream is stored, not that of the outer one
+                        let mut encoder = encoder.finish()?;
+                        encoder.try_finish()?;
+                        encoder.total_in()
                     }
-                }
+                };
 
                 // Update compressed length
                 let end_pos = cursor.stream_position()?;
                 cursor.seek(SeekFrom::Start(compressed_length_pos))?;
-                cursor.write_u32::<LittleEndian>((end_pos - (compressed_length_pos + 4)) as u32)?;
+                cursor.write_u32::<LittleEndian>(compressed_length as u32)?;
                 cursor.seek(SeekFrom::Start(end_pos))?;
             }
         }
-- 
2.43.0


From 9e30310a1d7a48ab38c8229b41869a0c2c42adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:41:24 +0000
Subject: [PATCH 23/26] fix: reject unknown elements of size zero in arrays and
 sets

Such elements consume no input, so a declared count of four billion was
expanded in memory from a file of a few bytes.
---
 src/properties/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index cd1fcfd..6dc0f4e 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -608,7 +608,8 @@ impl Property {
                     );
                 }
 
-                if let Some(suggested_length) = suggested_length {
+                // Elements without any data would allow for any number of elements
+                if let Some(suggested_length @ 1..) = suggested_length {
                     return Ok(UnknownProperty::read_with_length(
                         cursor,
                         value_type.to_string(),
-- 
2.43.0


From 1819c89da39420db39f00132d9ee1aee385f5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:41:24 +0000
Subject: [PATCH 24/26] fix: limit the nesting depth of properties

Reading recursed once per nested property, so a small malformed file could
overflow the stack and abort the process.
---
 src/properties/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 6dc0f4e..d66dd11 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -484,6 +484,10 @@ pub trait PropertyTrait: Debug + Clone + PartialEq + Eq + Hash {
     ) -> Result<usize, Error>;
 }
 
+/// Maximum number of entries in the properties stack while reading, every level of nesting adds
+/// one to three entries.
+const MAX_STACK_DEPTH: usize = 256;
+
 /// GVAS property types.
 #[enum_dispatch(PropertyTrait)]
 #[cfg_attr(
@@ -556,6 +560,12 @@ impl Property {
         options: &mut PropertyOptions,
         suggested_length: Option<u32>,
     ) -> Result<Self, Error> {
+        if options.properties_stack.len() >= MAX_STACK_DEPTH {
+            Err(DeserializeError::invalid_property(
+                "Properties are nested too deeply",
+                cursor,
+            ))?
+        }
         let _stack_entry = ScopedStackEntry::new(options.properties_stack, value_type.to_string());
         match value_type {
             "Int8Property" => Ok(Int8Property::read(cursor, include_header)?.into()),
-- 
2.43.0


From 355c321fa7492b04d29f8dd5374a0beb8d329aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:41:25 +0000
Subject: [PATCH 25/26] fix: limit the nesting depth of texts

Formatted texts contain other texts. Reading them recursed without limit,
so a small malformed file could overflow the stack.
---
 src/properties/text_property.rs | 54 +++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index ea48a34..ade0565 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -27,6 +27,9 @@ macro_rules! validate {
     }};
 }
 
+/// Maximum depth of texts within texts.
+const MAX_TEXT_DEPTH: u32 = 64;
+
 /// A property that stores GVAS Text.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -121,8 +124,24 @@ impl FText {
     /// Read [`FText`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, 0)
+    }
+
+    #[inline]
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: u32,
+    ) -> Result<Self, Error> {
+        if depth > MAX_TEXT_DEPTH {
+            Err(DeserializeError::invalid_property(
+                "Text is nested too deeply",
+                cursor,
+            ))?
+        }
+
         let flags = cursor.read_u32::<LittleEndian>()?;
-        let history = FTextHistory::read(cursor, options)?;
+        let history = FTextHistory::read_nested(cursor, options, depth)?;
 
         Ok(FText { flags, history })
     }
@@ -305,6 +324,14 @@ impl FTextHistory {
     /// Read [`FTextHistory`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, 0)
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: u32,
+    ) -> Result<Self, Error> {
         let history_type = cursor.read_enum()?;
 
         Ok(match history_type {
@@ -337,14 +364,14 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::NamedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
 
                 let argument_count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth + 1)?;
                     arguments.insert(key, value);
                 }
 
@@ -354,13 +381,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::OrderedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
 
                 let count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = Vec::new();
 
                 for _ in 0..count {
-                    arguments.push(FormatArgumentValue::read(cursor, options)?);
+                    arguments.push(FormatArgumentValue::read(cursor, options, depth + 1)?);
                 }
 
                 FTextHistory::OrderedFormat {
@@ -369,13 +396,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::ArgumentFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 1)?);
                 let count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth + 1)?;
                     arguments.insert(key, value);
                 }
 
@@ -385,7 +412,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsNumber => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth + 1)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -403,7 +430,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsPercent => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth + 1)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -423,7 +450,7 @@ impl FTextHistory {
             TextHistoryType::AsCurrency => {
                 let currency_code = cursor.read_fstring()?;
 
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth + 1)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -487,7 +514,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::Transform => {
-                let source_text = Box::new(FText::read(cursor, options)?);
+                let source_text = Box::new(FText::read_nested(cursor, options, depth + 1)?);
                 let transform_type = cursor.read_enum()?;
 
                 FTextHistory::Transform {
@@ -770,6 +797,7 @@ impl FormatArgumentValue {
     pub(crate) fn read<R: Read + Seek>(
         cursor: &mut R,
         options: &PropertyOptions,
+        depth: u32,
     ) -> Result<Self, Error> {
         let format_argument_type = cursor.read_enum()?;
 
@@ -792,7 +820,9 @@ impl FormatArgumentValue {
             FormatArgumentType::Double => {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
-            FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
+            FormatArgumentType::Text => {
+                FormatArgumentValue::Text(FText::read_nested(cursor, options, depth)?)
+            }
             FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
                 "Format argument type Gender is not supported",
                 cursor,
-- 
2.43.0


From 1bd5483f9c9c11f91241c8eccaf63b94a4fee17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:10 +0000
Subject: [PATCH 26/26] fix: lower the nesting limit so that reading fits a 2
 MB stack

Unoptimised builds need up to 16 KB of stack per entry of the properties stack.
---
 src/properties/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index d66dd11..b4005a6 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -486,7 +486,7 @@ pub trait PropertyTrait: Debug + Clone + PartialEq + Eq + Hash {
 
 /// Maximum number of entries in the properties stack while reading, every level of nesting adds
 /// one to three entries.
-const MAX_STACK_DEPTH: usize = 256;
+const MAX_STACK_DEPTH: usize = 128;
 
 /// GVAS property types.
 #[enum_dispatch(PropertyTrait)]
-- 
2.43.0

