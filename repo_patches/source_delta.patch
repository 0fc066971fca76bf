From 9623b20efe886cdb32fb6fbf7066b15ac1240632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:30 +0000
Subject: [PATCH 01/29] fix: read and write scalars at unaligned addresses
 without undefined behaviour

---
 butte/src/endian_scalar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1264591..1fc5c69 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -156,8 +156,9 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
     let sz = size_of::<T>();
     let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
     let val = x.to_little_endian();
+    // The destination is not necessarily aligned for T.
     unsafe {
-        *mut_ptr = val;
+        mut_ptr.write_unaligned(val);
     }
 }
 
@@ -176,7 +177,8 @@ pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
     let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
-    let x = unsafe { *p };
+    // The source is not necessarily aligned for T.
+    let x = unsafe { p.read_unaligned() };
 
     Ok(x.from_little_endian())
 }
-- 
2.43.0


From b6d5dabe5306db1e8aea99ea1083777dd02aa8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:32 +0000
Subject: [PATCH 02/29] fix: forget the fields of an unfinished table when the
 builder is reset

---
 butte/src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index bcf4418..30ced3d 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -110,6 +110,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         }
 
         self.head = self.owned_buf.len();
+        self.field_locs.clear();
         self.written_vtable_revpos.clear();
 
         self.nested = false;
-- 
2.43.0


From a5babfd62866b3f81519c7be9de35d4f8f7db1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:34 +0000
Subject: [PATCH 03/29] fix: report a vtable offset that leaves the buffer as
 out of bounds

---
 butte/src/primitives.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 6bfe7fc..97a4787 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -258,7 +258,12 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
-        T::follow(buf, (loc as SOffsetT - off) as usize)
+        // The target can lie before the start of the buffer, if the buffer is malformed.
+        let target = loc as i64 - i64::from(off);
+        if target < 0 {
+            return Err(Error::OutOfBounds);
+        }
+        T::follow(buf, target as usize)
     }
 }
 
-- 
2.43.0


From 6fe778f51fdad7703d5b127be1f0e3a3b3792ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:36 +0000
Subject: [PATCH 04/29] fix: bound vtable field queries by the number of fields

---
 butte/src/vtable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index cc7df14..a63e29f 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -36,7 +36,7 @@ impl<'a> VTable<'a> {
         VTable { buf, loc }
     }
     pub fn num_fields(&self) -> Result<usize, Error> {
-        Ok((self.num_bytes()? / SIZE_VOFFSET) - 2)
+        Ok((self.num_bytes()? / SIZE_VOFFSET).saturating_sub(VTABLE_METADATA_FIELDS))
     }
     pub fn num_bytes(&self) -> Result<usize, Error> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
@@ -46,7 +46,7 @@ impl<'a> VTable<'a> {
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
-        if idx > self.num_fields()? {
+        if idx >= self.num_fields()? {
             return Ok(None);
         }
         read_scalar_at::<VOffsetT>(
-- 
2.43.0


From 62be7fbab06fbb4fb882d358ee6fed80564cba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:38 +0000
Subject: [PATCH 05/29] fix: skip any number of elements in VectorIter::nth
 without overflow

---
 butte/src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index dfd2c46..0a5ff0c 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -252,7 +252,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         // Note that this might overflow, but that is okay because
         // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz * n);
+        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
 
         self.next()
     }
-- 
2.43.0


From cc9f32b72eb70d93a601d63f2749cc84a5a94159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:40 +0000
Subject: [PATCH 06/29] fix: refuse tables that do not fit 16-bit sizes also in
 release builds

---
 butte/src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 30ced3d..dd92339 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -454,7 +454,11 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
         // compute the length of the table (not vtable!) in bytes:
         let table_object_size = object_revloc_to_vtable.value() - table_tail_revloc.value();
-        debug_assert!(table_object_size < 0x10000); // vTable use 16bit offsets.
+        // vTable use 16bit offsets.
+        assert!(
+            table_object_size < 0x10000 && vtable_byte_len < 0x10000,
+            "cannot write a table or vtable bigger than 64 kilobytes"
+        );
 
         // Write the VTable (we may delete it afterwards, if it is a duplicate):
         let vt_start_pos = self.head;
-- 
2.43.0


From 1d176b7258c26616ee0acba7462e9f963292ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:01 +0000
Subject: [PATCH 07/29] fix: report vectors whose data is unaligned in memory
 instead of creating invalid slices

---
 butte/src/error.rs  | 4 ++++
 butte/src/vector.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/butte/src/error.rs b/butte/src/error.rs
index c7a622d..820c30b 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -17,6 +17,9 @@ pub enum Error {
     UnknownUnionVariant,
     /// Returned if a type doesn't have a default value
     NoTypeDefaultValue,
+    /// Returned if a vector cannot be viewed as a slice: its data is not aligned
+    /// for the element type in memory, or is not valid for the element type
+    InvalidSlice,
 }
 
 impl fmt::Display for Error {
@@ -29,6 +32,7 @@ impl fmt::Display for Error {
             Error::UnknownEnumVariant => write!(f, "unknown enum variant"),
             Error::UnknownUnionVariant => write!(f, "unknown union variant"),
             Error::NoTypeDefaultValue => write!(f, "type does not have a default value"),
+            Error::InvalidSlice => write!(f, "vector cannot be viewed as a slice"),
         }
     }
 }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 0a5ff0c..91dc462 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -18,7 +18,7 @@
 use std::{
     iter::{DoubleEndedIterator, ExactSizeIterator, FusedIterator},
     marker::PhantomData,
-    mem::size_of,
+    mem::{align_of, size_of},
     slice::from_raw_parts,
     str::from_utf8,
 };
@@ -93,6 +93,9 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
             .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
+        if ptr as usize % align_of::<T>() != 0 {
+            return Err(Error::InvalidSlice);
+        }
         let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
         Ok(s)
     }
@@ -169,6 +172,9 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
+    if ptr as usize % align_of::<T>() != 0 {
+        return Err(Error::InvalidSlice);
+    }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
     Ok(s)
 }
-- 
2.43.0


From bc2e4d0a592b2a879bc3860fbd45fcfd0cd79dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:20 +0000
Subject: [PATCH 08/29] fix: never create a bool from a byte that is neither 0
 nor 1

---
 butte/src/endian_scalar.rs | 45 +++++++++++++++++++++++++++++++++-----
 butte/src/vector.rs        |  4 ++--
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1fc5c69..3434ec0 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -32,6 +32,24 @@ pub trait EndianScalar: Sized + PartialEq + Copy + Clone {
     fn to_little_endian(self) -> Self;
     #[allow(clippy::wrong_self_convention)]
     fn from_little_endian(self) -> Self;
+
+    /// Read a value from its little-endian bytes, at any alignment.
+    ///
+    /// # Safety
+    ///
+    /// `p` must be valid for reads of `size_of::<Self>()` bytes.
+    #[doc(hidden)]
+    #[inline]
+    unsafe fn read_bytes(p: *const u8) -> Self {
+        (p as *const Self).read_unaligned().from_little_endian()
+    }
+
+    /// Whether these bytes are valid when viewed as values of this type.
+    #[doc(hidden)]
+    #[inline]
+    fn are_valid_bytes(_bytes: &[u8]) -> bool {
+        true
+    }
 }
 
 /// Macro for implementing a no-op endian conversion. This is used for types
@@ -70,7 +88,25 @@ macro_rules! impl_endian_scalar_stdlib_le_conversion {
     };
 }
 
-impl_endian_scalar_noop!(bool);
+// A byte that is neither 0 nor 1 is not a valid bool in memory.
+impl EndianScalar for bool {
+    #[inline]
+    fn to_little_endian(self) -> Self {
+        self
+    }
+    #[inline]
+    fn from_little_endian(self) -> Self {
+        self
+    }
+    #[inline]
+    unsafe fn read_bytes(p: *const u8) -> Self {
+        *p != 0
+    }
+    #[inline]
+    fn are_valid_bytes(bytes: &[u8]) -> bool {
+        bytes.iter().all(|b| *b <= 1)
+    }
+}
 impl_endian_scalar_noop!(u8);
 impl_endian_scalar_noop!(i8);
 
@@ -176,9 +212,6 @@ pub fn read_scalar_at<T: EndianScalar>(s: &[u8], loc: usize) -> Result<T, Error>
 pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
-    let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
-    // The source is not necessarily aligned for T.
-    let x = unsafe { p.read_unaligned() };
-
-    Ok(x.from_little_endian())
+    let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr();
+    Ok(unsafe { T::read_bytes(p) })
 }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 91dc462..24bb7da 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -164,7 +164,7 @@ impl<'a> Follow<'a> for &'a str {
 }
 
 #[cfg(target_endian = "little")]
-fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
+fn follow_slice_helper<T: EndianScalar>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
     let sz = size_of::<T>();
     debug_assert!(sz > 0);
     let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
@@ -172,7 +172,7 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
-    if ptr as usize % align_of::<T>() != 0 {
+    if ptr as usize % align_of::<T>() != 0 || !T::are_valid_bytes(data_buf) {
         return Err(Error::InvalidSlice);
     }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
-- 
2.43.0


From a5485233b41d20e7ba985d59b51f2e48e6b2544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:59 +0000
Subject: [PATCH 09/29] fix: recognise true, false, nan and inf as words where
 they stand

---
 butte-build/src/ast/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index b8241fb..a417c11 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1965,14 +1965,14 @@ mod hex_integer_constant_tests {
 
 pub fn true_(input: &str) -> IResult<&str, BooleanConstant> {
     value(true, |input: &str| {
-        nom::re_match!(input, r"\btrue\b")?;
+        nom::re_match!(input, r"^true\b")?;
         tag("true")(input)
     })(input)
 }
 
 pub fn false_(input: &str) -> IResult<&str, BooleanConstant> {
     value(false, |input: &str| {
-        nom::re_match!(input, r"\bfalse\b")?;
+        nom::re_match!(input, r"^false\b")?;
         tag("false")(input)
     })(input)
 }
@@ -2179,8 +2179,9 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
 /// Parse `nan`
 pub fn nan(input: &str) -> IResult<&str, FloatingConstant> {
     map(
-        terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\bnan\b")
+        terminated(opt(plus_or_minus), |input: &str| {
+            nom::re_match!(input, r"^nan\b")?;
+            tag("nan")(input)
         }),
         |sign| {
             if let Some('-') = sign {
@@ -2227,8 +2228,9 @@ mod nan_tests {
 /// Parse `inf` or `infinity`
 pub fn inf_or_infinity(input: &str) -> IResult<&str, FloatingConstant> {
     map(
-        terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\binf(inity)?\b")
+        terminated(opt(plus_or_minus), |input: &str| {
+            nom::re_match!(input, r"^inf(inity)?\b")?;
+            alt((tag("infinity"), tag("inf")))(input)
         }),
         |sign| {
             if let Some('-') = sign {
-- 
2.43.0


From 3440de6ca5c254235a2fb3550213d28a1cb47980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:01 +0000
Subject: [PATCH 10/29] fix: read hexadecimal float constants

---
 butte-build/src/ast/parser.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index a417c11..6069a39 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2145,6 +2145,28 @@ pub fn hex_float_exponent(input: &str) -> IResult<&str, &str> {
     ))(input)
 }
 
+/// Convert the digits and exponent of a hex float constant, i.e. everything after `0x`.
+fn hex_float_value(text: &str) -> Result<FloatingConstant> {
+    let (mantissa, exponent) = match text.find(|c| c == 'p' || c == 'P') {
+        Some(pos) => (&text[..pos], i64::from_str(&text[pos + 1..])?),
+        None => (text, 0),
+    };
+    let num_fraction_digits = match mantissa.find('.') {
+        Some(pos) => mantissa.len() - pos - 1,
+        None => 0,
+    };
+    // `parse_hexf64` insists on a period and an exponent, so write the number as an integer
+    // without trailing zeros times a power of two
+    let digits = mantissa.replace('.', "");
+    let significant_digits = digits.trim_end_matches('0');
+    let shift = (digits.len() - significant_digits.len()) as i64 - num_fraction_digits as i64;
+    let exponent = exponent
+        .checked_add(4 * shift)
+        .ok_or_else(|| anyhow!("exponent out of range: {}", text))?;
+    let normalized = format!("0x0{}.p{}", significant_digits, exponent);
+    parse_hexf64(&normalized, false).map_err(|e| anyhow!("{}: {}", e, text))
+}
+
 pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
     let parser = tuple((
         terminated(opt(plus_or_minus), terminated(zero, one_of("xX"))),
@@ -2161,7 +2183,7 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
                 ),
                 terminated(hex_digit1, hex_float_exponent),
             ))),
-            |value| parse_hexf64(value, false),
+            hex_float_value,
         ),
     ));
     map(
-- 
2.43.0


From 01ef9e6d256f3c599b5152b2d3da266820184322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:04 +0000
Subject: [PATCH 11/29] fix: do not take the beginning of a type name for a
 built-in type

---
 butte-build/src/ast/parser.rs | 64 +++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 6069a39..e843f41 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1272,37 +1272,49 @@ SayHello // foo
     }
 }
 
+/// The built-in type of a given name.
+fn builtin_type(name: &str) -> Option<Type<'static>> {
+    Some(match name {
+        "bool" => Type::Bool,
+        "byte" => Type::Byte,
+        "ubyte" => Type::UByte,
+        "short" => Type::Short,
+        "ushort" => Type::UShort,
+        "long" => Type::Long,
+        "ulong" => Type::ULong,
+        "double" => Type::Double,
+        "int8" => Type::Int8,
+        "uint8" => Type::UInt8,
+        "int16" => Type::Int16,
+        "uint16" => Type::UInt16,
+        "int32" => Type::Int32,
+        "uint32" => Type::UInt32,
+        "int64" => Type::Int64,
+        "uint64" => Type::UInt64,
+        "float32" => Type::Float32,
+        "float64" => Type::Float64,
+        "int" => Type::Int,
+        "uint" => Type::UInt,
+        "float" => Type::Float,
+        "string" => Type::String,
+        _ => return None,
+    })
+}
+
 pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
     alt((
-        alt((
-            value(Type::Bool, tag("bool")),
-            value(Type::Byte, tag("byte")),
-            value(Type::UByte, tag("ubyte")),
-            value(Type::Short, tag("short")),
-            value(Type::UShort, tag("ushort")),
-            value(Type::Long, tag("long")),
-            value(Type::ULong, tag("ulong")),
-            value(Type::Double, tag("double")),
-            value(Type::Int8, tag("int8")),
-            value(Type::UInt8, tag("uint8")),
-            value(Type::Int16, tag("int16")),
-            value(Type::UInt16, tag("uint16")),
-            value(Type::Int32, tag("int32")),
-            value(Type::UInt32, tag("uint32")),
-            value(Type::Int64, tag("int64")),
-            value(Type::UInt64, tag("uint64")),
-            value(Type::Float32, tag("float32")),
-            value(Type::Float64, tag("float64")),
-            value(Type::Int, tag("int")),
-            value(Type::UInt, tag("uint")),
-            value(Type::Float, tag("float")),
-        )),
-        value(Type::String, tag("string")),
         map(
-            delimited(left_square_bracket, type_, right_square_bracket),
+            delimited(
+                terminated(left_square_bracket, comment_or_space0),
+                type_,
+                preceded(comment_or_space0, right_square_bracket),
+            ),
             |t| Type::from([t]),
         ),
-        map(qualified_ident, Type::Ident),
+        map(qualified_ident, |name| match name.parts.as_slice() {
+            [part] => builtin_type(part.raw).unwrap_or(Type::Ident(name)),
+            _ => Type::Ident(name),
+        }),
     ))(input)
 }
 
-- 
2.43.0


From c4f40224c150fc594b05d76cbb168f15e9c0867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:07 +0000
Subject: [PATCH 12/29] fix: allow spaces between the base type and the
 attributes of an enum

---
 butte-build/src/ast/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index e843f41..8044358 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -700,7 +700,7 @@ pub fn enum_decl(input: &str) -> IResult<&str, Enum<'_>> {
             delimited(comment_or_space1, ident, comment_or_space0),
         ),
         preceded(colon, preceded(comment_or_space0, type_)),
-        metadata,
+        preceded(comment_or_space0, metadata),
         enum_body,
     ));
     map(parser, |(comment, name, base_type, metadata, variants)| {
-- 
2.43.0


From a1b78ee62e0348e11c41ea9dfc5aba6b6ae8834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:10 +0000
Subject: [PATCH 13/29] fix: answer schemas without declarations and short
 trailing text without panicking

---
 butte-build/src/ast/parser.rs | 4 +++-
 butte-build/src/compile.rs    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 8044358..9b47190 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -265,8 +265,10 @@ pub fn schema_decl(input: &str) -> IResult<&str, Schema<'_>> {
                 comment_or_space0,
             )),
             many0(delimited(comment_or_space0, element, comment_or_space0)),
+            // without any element, nothing above takes the comments and spaces
+            comment_or_space0,
         )),
-        Schema::from,
+        |(includes, elements, _)| Schema::from((includes, elements)),
     )(input)
 }
 
diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 1f22894..f664e1a 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -28,7 +28,7 @@ pub fn compile_fbs_generic(
     if !rest.is_empty() {
         return Err(anyhow!(
             "Parse was incomplete: not parsed: {}...",
-            &rest[..30]
+            rest.chars().take(30).collect::<String>()
         ));
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
-- 
2.43.0


From 760e4f56e97a8809dd37787cba36fabc3523add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:29 +0000
Subject: [PATCH 14/29] fix: resolve deferred declarations in their own
 namespace

---
 butte-build/src/ir/transform.rs | 52 ++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index cfbd41e..c348212 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -16,7 +16,12 @@ pub struct Builder<'a> {
 }
 
 #[derive(Clone, Debug)]
-struct IndexedElement<'a>(usize, ast::Element<'a>);
+struct IndexedElement<'a> {
+    pos: usize,
+    /// The namespace in force where the element is declared
+    namespace: Option<ast::Namespace<'a>>,
+    element: ast::Element<'a>,
+}
 
 #[derive(Clone, Debug, PartialEq)]
 enum CustomTypeStatus<'a> {
@@ -64,10 +69,15 @@ impl<'a> NamespaceBuf<'a> {
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
-        &IndexedElement(pos, ref element): &IndexedElement<'a>,
+        &IndexedElement {
+            pos,
+            ref namespace,
+            ref element,
+        }: &IndexedElement<'a>,
     ) -> Result<bool> {
+        self.current_namespace = namespace.clone();
         match element {
-            ast::Element::Namespace(n) => self.new_namespace(n),
+            ast::Element::Namespace(..) => Ok(true),
             ast::Element::Table(t) => self.new_table(t, pos),
             ast::Element::Struct(s) => self.new_struct(s, pos),
             ast::Element::Enum(e) => self.new_enum(e, pos),
@@ -81,11 +91,6 @@ impl<'a> Builder<'a> {
         }
     }
 
-    fn new_namespace(&mut self, ns: &ast::Namespace<'a>) -> Result<bool> {
-        self.current_namespace = Some(ns.clone());
-        Ok(true)
-    }
-
     fn new_table(&mut self, t: &ast::Table<'a>, pos: usize) -> Result<bool> {
         // Has this type been referenced before?
         // Let's find out and update the status.
@@ -95,11 +100,6 @@ impl<'a> Builder<'a> {
             return Err(anyhow!("type already defined: {}", ident));
         };
 
-        // We consider the table declared even if all its fields haven't been
-        // properly resolved, because tables may be recursive.
-        self.types
-            .insert(ident.clone(), CustomTypeStatus::TableDeclared);
-
         let mut fields = Vec::new();
 
         // Make sure all references to custom types are resolved
@@ -535,12 +535,24 @@ impl<'a> Builder<'a> {
 
         // Keep track of the definition order,
         // mostly to build IR deterministically
-        let mut input: VecDeque<_> = schema
-            .elements
-            .into_iter()
-            .enumerate()
-            .map(|(i, el)| IndexedElement(i, el))
-            .collect();
+        let mut input = VecDeque::new();
+        for (pos, element) in schema.elements.into_iter().enumerate() {
+            match &element {
+                ast::Element::Namespace(n) => context.current_namespace = Some(n.clone()),
+                // Tables may be referenced before their definition, also by the types
+                // their own definition has to wait for
+                ast::Element::Table(t) => {
+                    let ident = context.make_fully_qualified_ident(ir::Ident::from(t.id));
+                    context.types.insert(ident, CustomTypeStatus::TableDeclared);
+                }
+                _ => (),
+            }
+            input.push_back(IndexedElement {
+                pos,
+                namespace: context.current_namespace.clone(),
+                element,
+            });
+        }
 
         // Loop until all types can be defined
         // or stop if we make no progress
@@ -559,7 +571,7 @@ impl<'a> Builder<'a> {
                 if context.nodes.len() == nodes_len {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
-                        .map(|IndexedElement(_, element)| element)
+                        .map(|IndexedElement { element, .. }| element)
                         .collect::<Vec<_>>();
                     return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", unsatisfied_elements));
                     // TODO proper reporting
-- 
2.43.0


From 1046e875e12c558b3182cb5e4ced0705a53ce183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:33 +0000
Subject: [PATCH 15/29] fix: give enum values without a number the value after
 the previous one

---
 butte-build/src/codegen.rs  | 19 +++++--------------
 butte-build/src/ir/types.rs | 16 ++++++++++++++++
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 2a1b532..a9384c2 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -5,7 +5,7 @@ use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use std::{convert::TryInto, fmt};
+use std::fmt;
 use syn::spanned::Spanned;
 
 #[cfg(test)]
@@ -910,24 +910,15 @@ impl ToTokens for ir::Enum<'_> {
             .next();
 
         // assign a value to the key if one was given, otherwise give it the
-        // enumerated index's value
-        let variants_and_scalars = variants.iter().enumerate().map(
+        // value following the previous one
+        let variants_and_scalars = variants.iter().zip(self.values()).map(
             |(
-                index,
                 ir::EnumVariant {
-                    ident: key,
-                    value,
-                    doc,
+                    ident: key, doc, ..
                 },
+                scalar_value,
             )| {
                 // format the value with the correct type, i.e., base_type
-                let scalar_value = if let Some(constant) = *value {
-                    constant
-                } else {
-                    index
-                        .try_into()
-                        .expect("invalid conversion to enum base type")
-                };
                 let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
                 (quote!(#key), quote!(#formatted_value), doc)
             },
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 0deb591..c036afa 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -292,6 +292,22 @@ pub struct Enum<'a> {
     pub doc: ast::Comment<'a>,
 }
 
+impl Enum<'_> {
+    /// The values of the variants: the given one, or else one more than the previous variant's,
+    /// starting from zero.
+    pub fn values(&self) -> Vec<ast::IntegerConstant> {
+        let mut next = 0;
+        self.variants
+            .iter()
+            .map(|variant| {
+                let value = variant.value.unwrap_or(next);
+                next = value.saturating_add(1);
+                value
+            })
+            .collect()
+    }
+}
+
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub enum EnumBaseType {
     Byte,
-- 
2.43.0


From 57fbaf6f7653db1f524160882c5e7774e0b970af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:36 +0000
Subject: [PATCH 16/29] fix: use the declared numbers of union alternatives

---
 butte-build/src/ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index c348212..2df3399 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -344,7 +344,7 @@ impl<'a> Builder<'a> {
         })
         .chain(u.variants.iter().map(|v| ir::EnumVariant {
             ident: v.id.into(),
-            value: None,
+            value: v.value,
             doc: v.doc.clone(),
         }))
         .collect();
-- 
2.43.0


From 8a5c84f56ddb03b06d26878ef33606ba35437bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:38 +0000
Subject: [PATCH 17/29] fix: report unsupported declarations as errors

---
 butte-build/src/ir/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 2df3399..1316fd0 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -84,10 +84,10 @@ impl<'a> Builder<'a> {
             ast::Element::Union(u) => self.new_union(u, pos),
             ast::Element::Rpc(r) => self.new_rpc(r, pos),
             ast::Element::Root(r) => self.new_root(r, pos),
-            ast::Element::FileExtension(..) => unimplemented!(),
-            ast::Element::FileIdentifier(..) => unimplemented!(),
-            ast::Element::Attribute(..) => unimplemented!(),
-            ast::Element::Object(..) => unimplemented!(),
+            ast::Element::FileExtension(..)
+            | ast::Element::FileIdentifier(..)
+            | ast::Element::Attribute(..)
+            | ast::Element::Object(..) => Err(anyhow!("not supported yet: {:?}", element)),
         }
     }
 
-- 
2.43.0


From ff22984d1cbd1aca79ebbd219e0bd425d88a954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:40 +0000
Subject: [PATCH 18/29] fix: store required scalars that equal their default

---
 butte-build/src/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index a9384c2..b16585a 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -514,6 +514,7 @@ impl ToTokens for ir::Table<'_> {
                 ident: field_id,
                 ty,
                 default_value,
+                metadata,
                 ..
             } = field;
             let add_method_name = format_ident!("add_{}", field_id.raw.as_ref());
@@ -539,7 +540,7 @@ impl ToTokens for ir::Table<'_> {
                 quote!(#arg_ty)
             };
 
-            let body = if ty.is_scalar() {
+            let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
                     quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
-- 
2.43.0


From 8c00a6bd33e71ec1064e90dc82c70bb5e6e61b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:43 +0000
Subject: [PATCH 19/29] fix: generate code for infinite and not-a-number
 defaults

---
 butte-build/src/codegen.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index b16585a..0ca436e 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -188,16 +188,33 @@ impl PrimitiveLiteralToken for ast::IntegerConstant {
 }
 
 impl PrimitiveLiteralToken for ast::FloatingConstant {
-    type TokenType = syn::LitFloat;
+    type TokenType = TokenStream;
 
     fn fmt_lit(&self, ty: impl Spanned + fmt::Display) -> Self::TokenType {
-        Self::TokenType::new(
-            &match ty.to_string().as_str() {
-                float_ty @ "f32" => format!("{}{}", *self as f32, float_ty),
-                float_ty => format!("{}{}", self, float_ty),
+        let ty_name = ty.to_string();
+        let value = match ty_name.as_str() {
+            "f32" => f64::from(*self as f32),
+            _ => *self,
+        };
+        if !value.is_finite() {
+            // There are no literals for these
+            let ty_ident = format_ident!("{}", ty_name);
+            return if value.is_nan() {
+                quote!(std::#ty_ident::NAN)
+            } else if value > 0.0 {
+                quote!(std::#ty_ident::INFINITY)
+            } else {
+                quote!(std::#ty_ident::NEG_INFINITY)
+            };
+        }
+        syn::LitFloat::new(
+            &match ty_name.as_str() {
+                float_ty @ "f32" => format!("{}{}", value as f32, float_ty),
+                float_ty => format!("{}{}", value, float_ty),
             },
             ty.span(),
         )
+        .to_token_stream()
     }
 }
 
@@ -238,7 +255,8 @@ fn to_default_value_doc(
                         .to_string(),
                     ast::Scalar::Float(f) => f
                         .fmt_lit(to_type_token(None, ty, &quote!(), &quote!(), false))
-                        .to_string(),
+                        .to_string()
+                        .replace(' ', ""),
                     ast::Scalar::Boolean(b) => b.to_token_stream().to_string(),
                 },
                 // Enum field default variant
-- 
2.43.0


From 301ad197a2c65a008d07498969a830ed88cc89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:45 +0000
Subject: [PATCH 20/29] fix: report formatter failures and flush the output

---
 butte-build/src/compile.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index f664e1a..0e29f5f 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -50,11 +50,16 @@ pub fn compile_fbs_generic(
             .as_mut()
             .ok_or_else(|| anyhow!("cannot access stdin"))?
             .write_all(code.as_bytes())?;
-        cmd.wait_with_output()?.stdout
+        let formatted = cmd.wait_with_output()?;
+        if !formatted.status.success() {
+            return Err(anyhow!("rustfmt failed: {}", formatted.status));
+        }
+        formatted.stdout
     } else {
         Vec::from(code)
     };
     output.write_all(&text_output[..])?;
+    output.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From d2b73d46093ba105bbee4922d006bd6749fe8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:01 +0000
Subject: [PATCH 21/29] fix: use the same names for modules and accessors
 wherever generated code refers to them

---
 butte-build/src/codegen.rs      | 24 ++++++++++++++++--------
 butte-build/src/ir/keywords.rs  |  1 +
 butte-build/src/ir/transform.rs |  2 +-
 butte-build/src/ir/types.rs     | 26 ++++++++++++++++++++++++--
 4 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 0ca436e..6c417e4 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -232,7 +232,7 @@ fn to_default_value(
         },
         // Enum field default variant
         ast::DefaultValue::Ident(i) => {
-            let variant = format_ident!("{}", i.raw);
+            let variant = ir::Ident::from(i);
             quote!(<#arg_ty>::#variant).to_token_stream()
         }
     }
@@ -487,7 +487,7 @@ impl ToTokens for ir::Table<'_> {
                         // Handle customized default values
                         if ty.is_enum() {
                             let default_name = if let ast::DefaultValue::Ident(i) = default_value {
-                                format_ident!("{}", i.raw)
+                                ir::Ident::from(i)
                             } else {
                                 panic!("expecting default ident for enum")
                             };
@@ -596,7 +596,7 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let offset_name = offset_id(field);
-            let snake_name = format_ident!("{}", ident.as_ref().to_snake_case());
+            let snake_name = ident.to_snake_case();
             let snake_name_str = snake_name.to_string();
             let ty_ret = to_type_token(
                 table_ns_ref,
@@ -639,8 +639,7 @@ impl ToTokens for ir::Table<'_> {
                 let union_ident = union_ident.relative(table_ns_ref);
                 let enum_ident = enum_ident.relative(table_ns_ref);
 
-                let type_snake_name =
-                    format_ident!("{}_type", field.ident.as_ref().to_snake_case());
+                let type_snake_name = field.ident.to_union_type_field();
 
                 if field.metadata.required {
                     let names_to_enum_variant = variants.iter().map(
@@ -730,7 +729,7 @@ impl ToTokens for ir::Table<'_> {
             .iter()
             .filter(|field| field.metadata.required)
             .map(|field| {
-                let snake_name = field.ident.as_ref().to_snake_case();
+                let snake_name = field.ident.to_snake_case().to_string();
                 let offset_name = offset_id(field);
                 quote! {
                     self.fbb.required(o, #struct_id::#offset_name, #snake_name);
@@ -892,7 +891,16 @@ impl ToTokens for ir::QualifiedIdent<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let parts = &self.parts;
         debug_assert!(!self.parts.is_empty());
-        let code = parts.iter().map(|e| e.raw.as_ref()).join("::");
+        let (simple, namespaces) = parts.split_last().expect("empty path");
+        let code = namespaces
+            .iter()
+            .map(|e| match e.raw.as_ref() {
+                "super" => e.clone(),
+                // modules have snake case names
+                _ => e.to_snake_case(),
+            })
+            .chain(std::iter::once(simple.clone()))
+            .join("::");
         syn::parse_str::<syn::Path>(&code)
             .expect("Cannot parse path")
             .to_tokens(tokens)
@@ -1141,7 +1149,7 @@ impl<'a> CodeGenerator<'a> {
             ir::Node::Enum(e) => e.to_tokens(tokens),
             ir::Node::Union(u) => u.to_tokens(tokens),
             ir::Node::Namespace(n) => {
-                let ident = format_ident!("{}", n.ident.simple().as_ref().to_snake_case());
+                let ident = n.ident.simple().to_snake_case();
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
                     self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
diff --git a/butte-build/src/ir/keywords.rs b/butte-build/src/ir/keywords.rs
index 7fa914c..fa3b34e 100644
--- a/butte-build/src/ir/keywords.rs
+++ b/butte-build/src/ir/keywords.rs
@@ -49,6 +49,7 @@ pub fn substitute_keyword(input: &str) -> Option<&'static str> {
         "macro" => "macro_",
         "override" => "override_",
         "priv" => "priv_",
+        "try" => "try_",
         "typeof" => "typeof_",
         "unsized" => "unsized_",
         "virtual" => "virtual_",
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 1316fd0..68ec088 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -116,7 +116,7 @@ impl<'a> Builder<'a> {
                     let ty = self
                         .find_custom_type(enum_ty_ident.clone())
                         .expect("Union enum type companion should be defined now");
-                    let ident = ir::Ident::from(format!("{}_type", &f.id.raw.to_snake_case()));
+                    let ident = ir::Ident::from(&f.id).to_union_type_field();
                     let default_value = None;
                     let metadata = ir::FieldMetadata::builder().required(required).build();
                     let doc = f.doc.clone();
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index c036afa..79ac5cd 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -8,6 +8,7 @@
 
 use crate::ast::types as ast;
 use derive_more::{AsRef, From};
+use heck::SnakeCase;
 use std::{borrow::Cow, fmt::Display};
 use typed_builder::TypedBuilder;
 
@@ -467,6 +468,27 @@ impl<'a> Ident<'a> {
         }
     }
 
+    /// The snake case name generated for the identifier.
+    pub fn to_snake_case(&self) -> Ident<'a> {
+        let snake = Ident::from(self.raw.to_snake_case());
+        // Some names are no identifiers without their underscores, e.g `_1`
+        if snake.is_valid() {
+            snake
+        } else {
+            self.clone()
+        }
+    }
+
+    /// The name of the field that holds the type of the union field named by the identifier.
+    pub fn to_union_type_field(&self) -> Ident<'a> {
+        Ident::from(format!("{}_type", self.to_snake_case().raw)).to_snake_case()
+    }
+
+    /// Can the identifier be used in Rust code?
+    pub fn is_valid(&self) -> bool {
+        syn::parse_str::<syn::Ident>(&self.raw).is_ok()
+    }
+
     // Purposefully create an ident named after a keyword
     // e.g to use `crate` or `super` for a type path
     fn keyword(keyword: &str) -> Ident<'_> {
@@ -538,8 +560,8 @@ impl<'a> QualifiedIdent<'a> {
 
     pub fn relative(&self, namespace: Option<&QualifiedIdent<'a>>) -> QualifiedIdent<'a> {
         if let Some(ns) = namespace {
-            let common_prefix_len = self
-                .parts
+            // The last part names the type, never a namespace
+            let common_prefix_len = self.parts[..self.parts.len() - 1]
                 .iter()
                 .zip(ns.parts.iter())
                 .take_while(|(a, b)| a == b)
-- 
2.43.0


From 127c532093bdbc5f65b9581992bef34782167c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 22/29] fix: allow types named B

---
 butte-build/src/codegen.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 6c417e4..fb266c5 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -739,18 +739,18 @@ impl ToTokens for ir::Table<'_> {
         (quote! {
             #[derive(Copy, Clone, Debug, PartialEq)]
             #doc
-            pub struct #struct_id<B> {
-                table: butte::Table<B>,
+            pub struct #struct_id<__B> {
+                table: butte::Table<__B>,
             }
 
-            impl<B> From<butte::Table<B>> for #struct_id<B> {
-                fn from(table: butte::Table<B>) -> Self {
+            impl<__B> From<butte::Table<__B>> for #struct_id<__B> {
+                fn from(table: butte::Table<__B>) -> Self {
                     Self { table }
                 }
             }
 
-            impl<B> From<#struct_id<B>> for butte::Table<B> {
-                fn from(s: #struct_id<B>) -> Self {
+            impl<__B> From<#struct_id<__B>> for butte::Table<__B> {
+                fn from(s: #struct_id<__B>) -> Self {
                     s.table
                 }
             }
@@ -770,14 +770,14 @@ impl ToTokens for ir::Table<'_> {
             }
 
 
-            impl<B> #struct_id<B>
+            impl<__B> #struct_id<__B>
             where
-                B: std::convert::AsRef<[u8]>
+                __B: std::convert::AsRef<[u8]>
             {
                 // fields access
                 #(#field_accessors)*
 
-                pub fn get_root(buf: B) -> Result<Self, butte::Error> {
+                pub fn get_root(buf: __B) -> Result<Self, butte::Error> {
                     let table = butte::Table::get_root(buf)?;
                     Ok(Self { table })
                 }
@@ -793,11 +793,11 @@ impl ToTokens for ir::Table<'_> {
                 }
             }
 
-            impl<B> butte::FollowBuf for #struct_id<B>
+            impl<__B> butte::FollowBuf for #struct_id<__B>
             where
-                B: std::convert::AsRef<[u8]>
+                __B: std::convert::AsRef<[u8]>
             {
-                type Buf = B;
+                type Buf = __B;
                 type Inner = Self;
 
                 #[inline]
-- 
2.43.0


From 0c6795def4a6f61e7a79732985b7c81f145cabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:06 +0000
Subject: [PATCH 23/29] fix: allow fields named like a prelude variant

---
 butte-build/src/codegen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index fb266c5..21cf5e4 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -561,18 +561,18 @@ impl ToTokens for ir::Table<'_> {
             let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
-                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
+                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, value, #default_value))
                 } else {
-                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
+                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, value))
                 }
             } else {
-                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
+                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, value))
             };
 
             quote! {
                 #[inline]
                 #allow_type_complexity
-                fn #add_method_name(&mut self, #field_id: #arg_ty) {
+                fn #add_method_name(&mut self, value: #arg_ty) {
                     #body;
                 }
             }
-- 
2.43.0


From 5b4e06161a34230d90be862ad5331cf633f1433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:30 +0000
Subject: [PATCH 24/29] fix: reject schemas for which no valid code can be
 generated

---
 butte-build/src/compile.rs     |   3 +-
 butte-build/src/ir/mod.rs      |   2 +
 butte-build/src/ir/types.rs    |  41 ++++++-
 butte-build/src/ir/validate.rs | 200 +++++++++++++++++++++++++++++++++
 4 files changed, 244 insertions(+), 2 deletions(-)
 create mode 100644 butte-build/src/ir/validate.rs

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 0e29f5f..4cf8bd0 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -1,6 +1,6 @@
 use crate::{
     codegen::{CodeGenerator, RpcGenerator},
-    ir::Builder,
+    ir::{validate, Builder},
 };
 /// Compile flatbuffers files
 use std::io::{self, Write};
@@ -32,6 +32,7 @@ pub fn compile_fbs_generic(
         ));
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
+    validate(&root).map_err(|e| anyhow!("cannot generate code, {}", e))?;
 
     let mut generator = CodeGenerator { root, rpc_gen };
 
diff --git a/butte-build/src/ir/mod.rs b/butte-build/src/ir/mod.rs
index 4171592..d841240 100644
--- a/butte-build/src/ir/mod.rs
+++ b/butte-build/src/ir/mod.rs
@@ -1,5 +1,7 @@
 mod keywords;
 pub mod transform;
 pub mod types;
+mod validate;
 
 pub(crate) use transform::Builder;
+pub(crate) use validate::validate;
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 79ac5cd..13086fd 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -9,7 +9,7 @@
 use crate::ast::types as ast;
 use derive_more::{AsRef, From};
 use heck::SnakeCase;
-use std::{borrow::Cow, fmt::Display};
+use std::{borrow::Cow, convert::TryFrom, fmt::Display};
 use typed_builder::TypedBuilder;
 
 /// A single IR node.
@@ -200,6 +200,29 @@ impl<'a> Type<'a> {
         )
     }
 
+    /// The type as an integer type, if it is one.
+    pub fn as_integer(&self) -> Option<EnumBaseType> {
+        Some(match self {
+            Type::Byte => EnumBaseType::Byte,
+            Type::UByte => EnumBaseType::UByte,
+            Type::Short => EnumBaseType::Short,
+            Type::UShort => EnumBaseType::UShort,
+            Type::Int => EnumBaseType::Int,
+            Type::UInt => EnumBaseType::UInt,
+            Type::Long => EnumBaseType::Long,
+            Type::ULong => EnumBaseType::ULong,
+            Type::Int8 => EnumBaseType::Int8,
+            Type::UInt8 => EnumBaseType::UInt8,
+            Type::Int16 => EnumBaseType::Int16,
+            Type::UInt16 => EnumBaseType::UInt16,
+            Type::Int32 => EnumBaseType::Int32,
+            Type::UInt32 => EnumBaseType::UInt32,
+            Type::Int64 => EnumBaseType::Int64,
+            Type::UInt64 => EnumBaseType::UInt64,
+            _ => return None,
+        })
+    }
+
     pub fn is_array(&self) -> bool {
         matches!(self, Type::Array(..))
     }
@@ -329,6 +352,22 @@ pub enum EnumBaseType {
     UInt64,
 }
 
+impl EnumBaseType {
+    /// Is the value in the range of the type?
+    pub fn can_hold(self, value: ast::IntegerConstant) -> bool {
+        match self {
+            EnumBaseType::Byte | EnumBaseType::Int8 => i8::try_from(value).is_ok(),
+            EnumBaseType::UByte | EnumBaseType::UInt8 => u8::try_from(value).is_ok(),
+            EnumBaseType::Short | EnumBaseType::Int16 => i16::try_from(value).is_ok(),
+            EnumBaseType::UShort | EnumBaseType::UInt16 => u16::try_from(value).is_ok(),
+            EnumBaseType::Int | EnumBaseType::Int32 => i32::try_from(value).is_ok(),
+            EnumBaseType::UInt | EnumBaseType::UInt32 => u32::try_from(value).is_ok(),
+            EnumBaseType::Long | EnumBaseType::Int64 => i64::try_from(value).is_ok(),
+            EnumBaseType::ULong | EnumBaseType::UInt64 => u64::try_from(value).is_ok(),
+        }
+    }
+}
+
 impl<'a> std::convert::TryFrom<&ast::Type<'a>> for EnumBaseType {
     type Error = ();
     fn try_from(ty: &ast::Type<'a>) -> Result<Self, Self::Error> {
diff --git a/butte-build/src/ir/validate.rs b/butte-build/src/ir/validate.rs
new file mode 100644
index 0000000..4d8ae12
--- /dev/null
+++ b/butte-build/src/ir/validate.rs
@@ -0,0 +1,200 @@
+//! Checks that a schema can be turned into Rust code.
+
+use crate::{ast::types as ast, ir::types as ir};
+use anyhow::{anyhow, Result};
+use heck::{ShoutySnakeCase, SnakeCase};
+use std::collections::HashSet;
+
+/// Names the generated code relies on.
+const RESERVED_TYPE_NAMES: &[&str] = &[
+    "Option", "Result", "From", "Default", "std", "butte", "__B", "bool", "str", "i8", "u8", "i16",
+    "u16", "i32", "u32", "f32", "i64", "u64", "f64",
+];
+
+/// Functions of every generated table.
+const TABLE_FUNCTIONS: &[&str] = &["create", "get_root"];
+
+/// The names generated in one module or type.
+#[derive(Default)]
+struct Names(HashSet<String>);
+
+impl Names {
+    fn add(&mut self, name: impl Into<String>) -> Result<()> {
+        let name = name.into();
+        if self.0.contains(&name) {
+            return Err(anyhow!("name generated more than once: {}", name));
+        }
+        self.0.insert(name);
+        Ok(())
+    }
+}
+
+/// Check that the generated code would be valid.
+pub fn validate(root: &ir::Root<'_>) -> Result<()> {
+    validate_nodes(&root.nodes)
+}
+
+fn validate_nodes(nodes: &[ir::Node<'_>]) -> Result<()> {
+    let mut types = Names::default();
+    let mut functions = Names::default();
+    let mut services = Names::default();
+    for node in nodes {
+        let ident = node.ident().simple();
+        let name = ident.raw.as_ref();
+        validate_ident(ident)?;
+        match node {
+            ir::Node::Namespace(n) => {
+                let module = ident.to_snake_case();
+                validate_type_name(&module)?;
+                types.add(module.raw)?;
+                validate_nodes(&n.nodes)?;
+            }
+            ir::Node::Table(t) => {
+                validate_type_name(ident)?;
+                types.add(name)?;
+                types.add(format!("{}Args", name))?;
+                types.add(format!("{}Builder", name))?;
+                validate_table(t)?;
+            }
+            ir::Node::Struct(s) => {
+                return Err(anyhow!("structs are not supported yet: {}", s.ident))
+            }
+            ir::Node::Enum(e) => {
+                validate_type_name(ident)?;
+                types.add(name)?;
+                functions.add(name.to_snake_case())?;
+                validate_enum(e)?;
+            }
+            ir::Node::Union(u) => {
+                validate_type_name(ident)?;
+                types.add(name)?;
+                validate_union(u)?;
+            }
+            ir::Node::Rpc(r) => {
+                services.add(name)?;
+                let mut methods = Names::default();
+                for method in &r.methods {
+                    methods.add(method.ident.raw.as_ref())?;
+                }
+            }
+        }
+    }
+    Ok(())
+}
+
+fn validate_ident(ident: &ir::Ident<'_>) -> Result<()> {
+    if ident.is_valid() {
+        Ok(())
+    } else {
+        Err(anyhow!("not usable as a name in Rust: {}", ident))
+    }
+}
+
+fn validate_type_name(ident: &ir::Ident<'_>) -> Result<()> {
+    if RESERVED_TYPE_NAMES.contains(&ident.raw.as_ref()) {
+        Err(anyhow!("name needed by the generated code: {}", ident))
+    } else {
+        Ok(())
+    }
+}
+
+fn validate_table(table: &ir::Table<'_>) -> Result<()> {
+    let mut fields = Names::default();
+    let mut accessors = Names::default();
+    let mut constants = Names::default();
+    for function in TABLE_FUNCTIONS {
+        accessors.add(*function)?;
+    }
+    for field in &table.fields {
+        validate_ident(&field.ident)?;
+        fields.add(field.ident.raw.as_ref())?;
+        accessors.add(field.ident.to_snake_case().raw)?;
+        constants.add(field.ident.raw.to_shouty_snake_case())?;
+        validate_component(&field.ty)?;
+        validate_default(field).map_err(|e| anyhow!("{}, field {}", e, field.ident))?;
+    }
+    Ok(())
+}
+
+fn validate_component(ty: &ir::Type<'_>) -> Result<()> {
+    match ty {
+        ir::Type::Array(component) if component.is_union() => {
+            Err(anyhow!("vectors of unions are not supported yet: {}", ty))
+        }
+        ir::Type::Array(component) => validate_component(component),
+        _ => Ok(()),
+    }
+}
+
+fn validate_enum(e: &ir::Enum<'_>) -> Result<()> {
+    let mut names = Names::default();
+    let mut values = HashSet::new();
+    for (variant, value) in e.variants.iter().zip(e.values()) {
+        validate_ident(&variant.ident)?;
+        names.add(variant.ident.raw.as_ref())?;
+        if !e.base_type.can_hold(value) {
+            return Err(anyhow!(
+                "{}.{} is out of range: {}",
+                e.ident,
+                variant.ident,
+                value
+            ));
+        }
+        if !values.insert(value) {
+            return Err(anyhow!("{} has two names for {}", e.ident, value));
+        }
+    }
+    Ok(())
+}
+
+fn validate_union(u: &ir::Union<'_>) -> Result<()> {
+    for variant in &u.variants {
+        match &variant.ty {
+            ir::Type::Custom(ir::CustomTypeRef {
+                ty: ir::CustomType::Table,
+                ..
+            }) => (),
+            ty => {
+                return Err(anyhow!(
+                    "only tables can be in a union: {} in {}",
+                    ty,
+                    u.ident
+                ))
+            }
+        }
+    }
+    Ok(())
+}
+
+fn validate_default(field: &ir::Field<'_>) -> Result<()> {
+    use ast::{DefaultValue, Scalar};
+    let valid = match (&field.ty, &field.default_value) {
+        (_, None) => true,
+        (ir::Type::Bool, Some(DefaultValue::Scalar(value))) => matches!(value, Scalar::Boolean(_)),
+        (ir::Type::Float, Some(DefaultValue::Scalar(value)))
+        | (ir::Type::Float32, Some(DefaultValue::Scalar(value)))
+        | (ir::Type::Double, Some(DefaultValue::Scalar(value)))
+        | (ir::Type::Float64, Some(DefaultValue::Scalar(value))) => {
+            matches!(value, Scalar::Float(_) | Scalar::Integer(_))
+        }
+        (
+            ir::Type::Custom(ir::CustomTypeRef {
+                ty: ir::CustomType::Enum { variants, .. },
+                ..
+            }),
+            Some(DefaultValue::Ident(name)),
+        ) => {
+            let name = ir::Ident::from(name);
+            variants.iter().any(|variant| variant.ident == name)
+        }
+        (ty, Some(DefaultValue::Scalar(Scalar::Integer(value)))) => ty
+            .as_integer()
+            .map_or(false, |integer| integer.can_hold(*value)),
+        _ => false,
+    };
+    if valid {
+        Ok(())
+    } else {
+        Err(anyhow!("bad default value for {}", field.ty))
+    }
+}
-- 
2.43.0


From 34292056fc9746a143b87da1c3df78d55104aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:58 +0000
Subject: [PATCH 25/29] fix: allow enum values named like names used in
 generated code

---
 butte-build/src/codegen.rs     | 9 ++++++---
 butte-build/src/ir/validate.rs | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 21cf5e4..8521922 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -508,7 +508,7 @@ impl ToTokens for ir::Table<'_> {
                         }
                     } else {
                         // no custom default value, default to the scalar type's default
-                        quote!(#field_id: <#arg_ty>::default())
+                        quote!(#field_id: <#arg_ty as Default>::default())
                     }
                 },
             );
@@ -572,6 +572,7 @@ impl ToTokens for ir::Table<'_> {
             quote! {
                 #[inline]
                 #allow_type_complexity
+                #[allow(bindings_with_variant_name)]
                 fn #add_method_name(&mut self, value: #arg_ty) {
                     #body;
                 }
@@ -1000,7 +1001,7 @@ impl ToTokens for ir::Enum<'_> {
             impl<'a> butte::Follow<'a> for #enum_id {
                 type Inner = Self;
 
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
+                fn follow(buf: &'a [u8], loc: usize) -> Result<Self, butte::Error> {
                     let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;
                     <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)
                 }
@@ -1008,7 +1009,7 @@ impl ToTokens for ir::Enum<'_> {
 
             impl std::convert::TryFrom<#base_type> for #enum_id {
                 type Error = butte::Error;
-                fn try_from(value: #base_type) -> Result<Self, Self::Error> {
+                fn try_from(value: #base_type) -> Result<Self, butte::Error> {
                     match value {
                         #(#from_base_to_enum_variants,)*
                         _ => Err(butte::Error::UnknownEnumVariant)
@@ -1017,6 +1018,7 @@ impl ToTokens for ir::Enum<'_> {
             }
 
             impl From<#enum_id> for #base_type {
+                #[allow(bindings_with_variant_name)]
                 fn from(value: #enum_id) -> #base_type {
                     match value {
                         #(#from_enum_variant_to_base),*
@@ -1034,6 +1036,7 @@ impl ToTokens for ir::Enum<'_> {
                 }
             }
 
+            #[allow(bindings_with_variant_name)]
             pub fn #enum_id_fn_name(e: #enum_id) -> &'static str {
                 match e {
                     #(#names_to_strings),*
diff --git a/butte-build/src/ir/validate.rs b/butte-build/src/ir/validate.rs
index 4d8ae12..13559bd 100644
--- a/butte-build/src/ir/validate.rs
+++ b/butte-build/src/ir/validate.rs
@@ -8,7 +8,7 @@ use std::collections::HashSet;
 /// Names the generated code relies on.
 const RESERVED_TYPE_NAMES: &[&str] = &[
     "Option", "Result", "From", "Default", "std", "butte", "__B", "bool", "str", "i8", "u8", "i16",
-    "u16", "i32", "u32", "f32", "i64", "u64", "f64",
+    "u16", "i32", "u32", "f32", "i64", "u64", "f64", "usize",
 ];
 
 /// Functions of every generated table.
-- 
2.43.0


From a86dab0b23b30a5a759c86a80d7d7dd3ad89d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:14 +0000
Subject: [PATCH 26/29] fix: align 64-bit scalars to 8 bytes on hosts that
 align them to 4

On 32-bit x86 align_of::<u64>() and align_of::<f64>() are 4, so buffers written
there did not have the alignment the FlatBuffers format requires.
---
 butte-build/src/codegen.rs | 5 +++++
 butte/src/lib.rs           | 2 +-
 butte/src/push.rs          | 7 +++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 8521922..46feeb0 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1034,6 +1034,11 @@ impl ToTokens for ir::Enum<'_> {
                     let scalar = <#base_type>::from(*self);
                     butte::emplace_scalar::<#base_type>(dst, scalar);
                 }
+
+                #[inline]
+                fn alignment() -> butte::PushAlignment {
+                    <#base_type as butte::Push>::alignment()
+                }
             }
 
             #[allow(bindings_with_variant_name)]
diff --git a/butte/src/lib.rs b/butte/src/lib.rs
index b76a645..c51f420 100644
--- a/butte/src/lib.rs
+++ b/butte/src/lib.rs
@@ -49,7 +49,7 @@ pub use crate::{
     error::Error,
     follow::{Follow, FollowBuf, FollowStart},
     primitives::*,
-    push::Push,
+    push::{Push, PushAlignment},
     table::{buffer_has_identifier, get_root, get_size_prefixed_root, Table},
     vector::{follow_cast_ref, SafeSliceAccess, Vector, VectorIter},
     vtable::field_index_to_field_offset,
diff --git a/butte/src/push.rs b/butte/src/push.rs
index bc907fa..29ca8c8 100644
--- a/butte/src/push.rs
+++ b/butte/src/push.rs
@@ -65,6 +65,13 @@ macro_rules! impl_push_for_endian_scalar {
             fn push(&self, dst: &mut [u8], _rest: &[u8]) {
                 emplace_scalar::<$ty>(dst, *self);
             }
+
+            // The format aligns a scalar to its size, even where the host does not
+            // (64-bit scalars on 32-bit x86).
+            #[inline]
+            fn alignment() -> PushAlignment {
+                PushAlignment::new(size_of::<$ty>())
+            }
         }
     };
 }
-- 
2.43.0


From 1902f3873717e4ce45932214ad7ceb30f537f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:48 +0000
Subject: [PATCH 27/29] fix: report malformed buffers as out of bounds on
 32-bit hosts too

Offsets and lengths read from a malformed buffer overflowed a 32-bit usize: a
panic with overflow checks, and without them a panic in string access or
elements read from the wrong place.
---
 butte/src/endian_scalar.rs |  4 +++-
 butte/src/primitives.rs    | 39 ++++++++++++++------------------------
 butte/src/vector.rs        | 27 +++++++++++++++-----------
 butte/src/vtable.rs        |  2 +-
 4 files changed, 34 insertions(+), 38 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 3434ec0..61bba6c 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -202,7 +202,9 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
 /// Performs endian conversion, if necessary.
 #[inline]
 pub fn read_scalar_at<T: EndianScalar>(s: &[u8], loc: usize) -> Result<T, Error> {
-    let buf = &s.get(loc..loc + size_of::<T>()).ok_or(Error::OutOfBounds)?;
+    let buf = &s
+        .get(loc..loc.saturating_add(size_of::<T>()))
+        .ok_or(Error::OutOfBounds)?;
     read_scalar(buf)
 }
 
diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 97a4787..f1b191b 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -15,10 +15,10 @@
  * limitations under the License.
  */
 
-use std::{marker::PhantomData, mem::size_of, ops::Deref};
+use std::{convert::TryFrom, marker::PhantomData, mem::size_of, ops::Deref};
 
 use crate::{
-    endian_scalar::{emplace_scalar, read_scalar, read_scalar_at},
+    endian_scalar::{emplace_scalar, read_scalar_at},
     follow::{Follow, FollowBuf},
     push::Push,
     Error,
@@ -173,11 +173,9 @@ where
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        let off = {
-            let slice = buf.get(loc..loc + SIZE_UOFFSET).ok_or(Error::OutOfBounds)?;
-            read_scalar::<u32>(slice)? as usize
-        };
-        T::follow(buf, loc + off)
+        // A location too large for the host is also out of bounds.
+        let off = read_scalar_at::<u32>(buf, loc)? as usize;
+        T::follow(buf, loc.saturating_add(off))
     }
 }
 
@@ -191,14 +189,8 @@ where
 
     #[inline(always)]
     fn follow_buf(buf: Self::Buf, loc: usize) -> Result<Self::Inner, Error> {
-        let off = {
-            let slice = buf
-                .as_ref()
-                .get(loc..loc + SIZE_UOFFSET)
-                .ok_or(Error::OutOfBounds)?;
-            read_scalar::<u32>(slice)? as usize
-        };
-        T::follow_buf(buf, loc + off)
+        let off = read_scalar_at::<u32>(buf.as_ref(), loc)? as usize;
+        T::follow_buf(buf, loc.saturating_add(off))
     }
 }
 
@@ -226,9 +218,8 @@ impl<'a, T: Follow<'a>> Follow<'a> for ForwardsVOffset<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        let slice = buf.get(loc..loc + SIZE_VOFFSET).ok_or(Error::OutOfBounds)?;
-        let off = read_scalar::<VOffsetT>(slice)? as usize;
-        T::follow(buf, loc + off)
+        let off = read_scalar_at::<VOffsetT>(buf, loc)? as usize;
+        T::follow(buf, loc.saturating_add(off))
     }
 }
 
@@ -256,14 +247,12 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
-        let off = read_scalar::<SOffsetT>(slice)?;
-        // The target can lie before the start of the buffer, if the buffer is malformed.
+        let off = read_scalar_at::<SOffsetT>(buf, loc)?;
+        // The target can lie before the start of the buffer, or too far behind its end
+        // for the host, if the buffer is malformed.
         let target = loc as i64 - i64::from(off);
-        if target < 0 {
-            return Err(Error::OutOfBounds);
-        }
-        T::follow(buf, target as usize)
+        let target = usize::try_from(target).map_err(|_| Error::OutOfBounds)?;
+        T::follow(buf, target)
     }
 }
 
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 24bb7da..58497e2 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -69,7 +69,9 @@ impl<'a, T: Follow<'a> + 'a> Vector<'a, T> {
         debug_assert!(idx < read_scalar_at::<u32>(self.0, self.1)? as usize);
         let sz = size_of::<T>();
         debug_assert!(sz > 0);
-        T::follow(self.0, self.1 as usize + SIZE_UOFFSET + sz * idx)
+        // A location too large for the host is also out of bounds.
+        let start = self.1.saturating_add(SIZE_UOFFSET);
+        T::follow(self.0, start.saturating_add(sz.saturating_mul(idx)))
     }
 
     #[inline(always)]
@@ -90,7 +92,7 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
         debug_assert!(sz > 0);
         let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
         let data_buf = buf
-            .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
+            .get(loc + SIZE_UOFFSET..(loc + SIZE_UOFFSET).saturating_add(len.saturating_mul(sz)))
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
         if ptr as usize % align_of::<T>() != 0 {
@@ -132,7 +134,9 @@ pub unsafe fn follow_cast_ref<'a, T: Sized + 'a>(
     loc: usize,
 ) -> Result<&'a T, Error> {
     let sz = size_of::<T>();
-    let buf = buf.get(loc..loc + sz).ok_or(Error::OutOfBounds)?;
+    let buf = buf
+        .get(loc..loc.saturating_add(sz))
+        .ok_or(Error::OutOfBounds)?;
     let ptr = buf.as_ptr() as *const T;
     Ok(&*ptr)
 }
@@ -143,7 +147,7 @@ impl<'a> Follow<'a> for &'a str {
         // Len of the String/Vector
         let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
 
-        let end_loc = loc + SIZE_UOFFSET + len;
+        let end_loc = (loc + SIZE_UOFFSET).saturating_add(len);
 
         // We check bounds early, because we need to make sure strings are null-terminated
         // The null byte not included in the string `len`
@@ -169,7 +173,7 @@ fn follow_slice_helper<T: EndianScalar>(buf: &[u8], loc: usize) -> Result<&[T],
     debug_assert!(sz > 0);
     let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
     let data_buf = buf
-        .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
+        .get(loc + SIZE_UOFFSET..(loc + SIZE_UOFFSET).saturating_add(len.saturating_mul(sz)))
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
     if ptr as usize % align_of::<T>() != 0 || !T::are_valid_bytes(data_buf) {
@@ -212,7 +216,7 @@ impl<'a, T: 'a> VectorIter<'a, T> {
             // inner.1 is the location of the data for the vector.
             // The first SIZE_UOFFSET bytes is the length. We skip
             // that to get to the actual vector content.
-            loc: inner.1 + SIZE_UOFFSET,
+            loc: inner.1.saturating_add(SIZE_UOFFSET),
             remaining: len,
             phantom: PhantomData,
         }
@@ -243,7 +247,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
             None
         } else {
             let result = T::follow(self.buf, self.loc);
-            self.loc += sz;
+            self.loc = self.loc.saturating_add(sz);
             self.remaining -= 1;
             Some(result)
         }
@@ -256,9 +260,9 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         self.remaining = self.remaining.saturating_sub(n);
 
-        // Note that this might overflow, but that is okay because
-        // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
+        // Note that this might overflow: any elements still remaining
+        // then are out of bounds.
+        self.loc = self.loc.saturating_add(sz.saturating_mul(n));
 
         self.next()
     }
@@ -279,7 +283,8 @@ impl<'a, T: Follow<'a> + 'a> DoubleEndedIterator for VectorIter<'a, T> {
             None
         } else {
             self.remaining -= 1;
-            Some(T::follow(self.buf, self.loc + sz * self.remaining))
+            let back = sz.saturating_mul(self.remaining);
+            Some(T::follow(self.buf, self.loc.saturating_add(back)))
         }
     }
 
diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index a63e29f..71f9d80 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -42,7 +42,7 @@ impl<'a> VTable<'a> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
     }
     pub fn object_inline_num_bytes(&self) -> Result<usize, Error> {
-        let n = read_scalar_at::<VOffsetT>(self.buf, self.loc + SIZE_VOFFSET)?;
+        let n = read_scalar_at::<VOffsetT>(self.buf, self.loc.saturating_add(SIZE_VOFFSET))?;
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
-- 
2.43.0


From 8e4f7e095ae6caf32fd4394d9f14fafcedc36e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:55 +0000
Subject: [PATCH 28/29] fix: refuse to grow a buffer beyond 2 gigabytes

Only the size of a single request was checked, so a buffer could grow past the
limit and its 32-bit offsets and vtable offsets wrapped without notice.
---
 butte/src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index dd92339..f0147f6 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -638,13 +638,14 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
     #[inline]
     fn ensure_capacity(&mut self, want: usize) -> usize {
-        if self.unused_ready_space() >= want {
-            return want;
-        }
+        // The limit is on the data: offsets that span more do not fit into a vtable offset.
         assert!(
-            want <= FLATBUFFERS_MAX_BUFFER_SIZE,
+            want <= FLATBUFFERS_MAX_BUFFER_SIZE - self.used_space(),
             "cannot grow buffer beyond 2 gigabytes"
         );
+        if self.unused_ready_space() >= want {
+            return want;
+        }
 
         while self.unused_ready_space() < want {
             self.grow_owned_buf();
-- 
2.43.0


From 20e48244c33a3f58b78cd31f1ed15ea68d5fd52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:10 +0000
Subject: [PATCH 29/29] fix: keep the documentation of union fields

---
 butte-build/src/codegen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 46feeb0..6fe38c9 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -663,6 +663,7 @@ impl ToTokens for ir::Table<'_> {
                         },
                     );
                     quote! {
+                        #doc
                         #[inline]
                         pub fn #snake_name(&self) -> Result<#ty_ret, butte::Error> {
                             Ok(match self.#type_snake_name()? {
@@ -693,6 +694,7 @@ impl ToTokens for ir::Table<'_> {
                     );
 
                     quote! {
+                        #doc
                         #[inline]
                         pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
                             Ok(match self.#type_snake_name()? {
-- 
2.43.0

