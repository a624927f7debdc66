From 56d430fdecf81243de89e11d446fb75a57b03bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 01/30] fix: read and write bit fields of zero width instead of
 panicking

---
 src/impls/primitive.rs | 12 ++++++++++++
 src/writer.rs          |  7 +++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8ab9e29..713d0f5 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -397,6 +397,10 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                // A field of no bits is zero, and takes nothing from the stream.
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_be_bytes([0; { MAX_TYPE_BITS / 8 }]));
+                }
                 // Fast path: big-endian, and `Order::default()` is Msb0. Reads the
                 // field straight into an integer, with no `BitSlice` in between.
                 if !endian.is_le() && size.0 > 0 && size.0 <= 64 {
@@ -429,6 +433,10 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                // A field of no bits is zero, and takes nothing from the stream.
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_be_bytes([0; { MAX_TYPE_BITS / 8 }]));
+                }
                 // Fast path: big-endian, Msb0. See the `(Endian, BitSize)` impl above.
                 if !endian.is_le() && order == Order::Msb0 && size.0 > 0 && size.0 <= 64 {
                     let value = reader.read_bits_uint_msb0(size.0)? as $inner;
@@ -623,6 +631,10 @@ macro_rules! ImplDekuReadSignExtend {
                         size.0
                     ));
                 }
+                // A field of no bits is zero, and takes nothing from the stream.
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_be_bytes([0; { MAX_TYPE_BITS / 8 }]));
+                }
                 let mut bits = ::bitvec::array::BitArray::<[u8; { MAX_TYPE_BITS / 8 }], Msb0>::new(
                     [0; { MAX_TYPE_BITS / 8 }],
                 );
diff --git a/src/writer.rs b/src/writer.rs
index 0a6c641..23b0713 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -62,7 +62,7 @@ impl<W: Write + Seek> Writer<W> {
         self.leftover.0.as_bitslice().iter().by_vals().collect()
     }
 
-    /// Writes the low `amt` bits (`1..=64`) of `value`, most-significant-bit
+    /// Writes the low `amt` bits (`0..=64`) of `value`, most-significant-bit
     /// first. The integer mirror of `Reader::read_bits_uint_msb0`.
     ///
     /// Only valid when the pending leftover is `Msb0`; the caller checks that.
@@ -73,8 +73,11 @@ impl<W: Write + Seek> Writer<W> {
     #[inline]
     #[cfg(feature = "bits")]
     pub(crate) fn write_bits_uint_msb0(&mut self, value: u64, amt: usize) -> Result<(), DekuError> {
-        debug_assert!((1..=64).contains(&amt));
+        debug_assert!(amt <= 64);
         debug_assert_eq!(self.leftover.1, Order::Msb0);
+        if amt == 0 {
+            return Ok(());
+        }
 
         let (lead, lead_len) = self.leftover.0.as_msb0_byte();
         // Leftover bits first, then the value's low `amt` bits: at most 7 + 64.
-- 
2.43.0


From 1e779f3053a38b4887d205b9fdaf1dc636ee7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 02/30] fix: report I/O errors met while reading the whole
 bytes of a bit field

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index fe3217d..28e6e28 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -313,6 +313,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
@@ -326,6 +327,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
-- 
2.43.0


From 9e36012efd49df035d2f61cd143c312fd79bf664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 03/30] fix: do not make up a byte when looking for the end
 meets an I/O error

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 28e6e28..55a4492 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -162,6 +162,8 @@ impl<R: Read + Seek> Reader<R> {
                     log::trace!("end");
                     return true;
                 }
+                // Nothing was read. Not the end either: the next read reports the error.
+                return false;
             }
 
             #[cfg(feature = "logging")]
-- 
2.43.0


From fa7acbd0cef70878d1d4526736a5a446864e44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 04/30] fix: keep the buffered byte when no bytes are requested

---
 src/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 55a4492..14f80f7 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -533,6 +533,9 @@ impl<R: Read + Seek> Reader<R> {
         byte: u8,
         amt: usize,
     ) -> Result<ReaderRet, DekuError> {
+        if amt == 0 {
+            return Ok(ReaderRet::Bytes);
+        }
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
@@ -671,6 +674,9 @@ impl<R: Read + Seek> Reader<R> {
         buf: &mut [u8; N],
         byte: u8,
     ) -> Result<(), DekuError> {
+        if N == 0 {
+            return Ok(());
+        }
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
-- 
2.43.0


From 30faaa5c7bb4afa5a3406c7a5ca8a5fa59f50878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 05/30] fix: do not reserve memory for an untrusted element
 count up front

---
 src/impls/hashmap.rs | 8 +++++++-
 src/impls/hashset.rs | 8 +++++++-
 src/impls/vec.rs     | 9 ++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 9ebff2e..394410e 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -7,6 +7,9 @@ use crate::ctx::*;
 use crate::writer::Writer;
 use crate::{DekuError, DekuReader, DekuWriter};
 
+/// Upper bound of the elements room is made for before any has been read
+const MAX_PREALLOC: usize = 1024;
+
 /// Read `K, V`s into a hashmap until a given predicate returns true
 /// * `capacity` - an optional capacity to pre-allocate the hashmap with
 /// * `ctx` - The context required by `K, V`. It will be passed to every `K, V` when constructing.
@@ -28,7 +31,10 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &(K, V)) -> bool,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    // The capacity may come from untrusted input: do not reserve more than a
+    // fixed amount up front, the container grows as elements are actually read.
+    let capacity = capacity.unwrap_or(0).min(MAX_PREALLOC);
+    let mut res = HashMap::with_capacity_and_hasher(capacity, S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index bd9ba58..ea9646d 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -7,6 +7,9 @@ use no_std_io::io::{Read, Seek, Write};
 use crate::ctx::*;
 use crate::{DekuError, DekuReader, DekuWriter};
 
+/// Upper bound of the elements room is made for before any has been read
+const MAX_PREALLOC: usize = 1024;
+
 /// Read `T`s into a hashset until a given predicate returns true
 /// * `capacity` - an optional capacity to pre-allocate the hashset with
 /// * `ctx` - The context required by `T`. It will be passed to every `T` when constructing.
@@ -27,7 +30,10 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    // The capacity may come from untrusted input: do not reserve more than a
+    // fixed amount up front, the container grows as elements are actually read.
+    let capacity = capacity.unwrap_or(0).min(MAX_PREALLOC);
+    let mut res = HashSet::with_capacity_and_hasher(capacity, S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 4140ae7..17e653c 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -10,6 +10,9 @@ use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
 use crate::{DekuError, DekuWriter};
 
+/// Upper bound of the memory reserved before any element has been read
+const MAX_PREALLOC_BYTES: usize = 64 * 1024;
+
 impl DekuReader<'_, ReadExact> for Vec<u8> {
     fn from_reader_with_ctx<R: Read + Seek>(
         reader: &mut Reader<R>,
@@ -65,7 +68,11 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    // The capacity may come from untrusted input: do not reserve more than a
+    // fixed amount up front, the vector grows as elements are actually read.
+    let mut res = capacity.map_or_else(Vec::new, |capacity| {
+        Vec::with_capacity(capacity.min(MAX_PREALLOC_BYTES / mem::size_of::<T>()))
+    });
 
     let start_read = reader.bits_read;
 
-- 
2.43.0


From 7b7319322bf717038a038d0bccf8202bcf993e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 06/30] fix: do not overflow on a huge bytes_read limit

---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 394410e..d641fbf 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -161,7 +161,7 @@ where
 
             // Read until a given quantity of byte bits have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashmap
                 if bit_size == 0 {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index ea9646d..1d27cd4 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -146,7 +146,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashset
                 if bit_size == 0 {
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 17e653c..2bea63b 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -165,7 +165,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty vector
                 if bit_size == 0 {
-- 
2.43.0


From aa00b95b78fdc6f23a1d9068146c7f8790ee04c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 07/30] fix: seek relative to the read position when a byte is
 buffered

---
 src/reader.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 14f80f7..c7383de 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -48,6 +48,17 @@ impl<R: Read + Seek> Seek for Reader<R> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
+        let pos = match (pos, &self.leftover) {
+            // A byte buffered by `end` has been taken from `inner`, but not been read yet
+            (SeekFrom::Current(0), Some(Leftover::Byte(_))) => {
+                return Ok(self.inner.stream_position()?.saturating_sub(1));
+            }
+            (SeekFrom::Current(amt), Some(Leftover::Byte(_))) => {
+                SeekFrom::Current(amt.saturating_sub(1))
+            }
+            (pos, _) => pos,
+        };
+
         // clear leftover
         self.leftover = None;
 
-- 
2.43.0


From 09cb1d2398e427ea87da36c500c82c94b891a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 08/30] fix: honour size, bit order and ctx of counted byte
 vectors

---
 deku-derive/src/macros/deku_read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 89d3839..18a8855 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -832,7 +832,16 @@ fn emit_field_read(
                     }
                 }
             }
-            if is_vec_u8 {
+            // Elements with a size, a bit order or a context of their own are
+            // not plain bytes
+            #[cfg(feature = "bits")]
+            let has_bits = f.bits.is_some();
+            #[cfg(not(feature = "bits"))]
+            let has_bits = false;
+            let plain_bytes =
+                !has_bits && f.bytes.is_none() && f.ctx.is_none() && field_bit_order.is_none();
+
+            if is_vec_u8 && plain_bytes {
                 quote! {
                     {
                         use core::borrow::Borrow;
-- 
2.43.0


From c69a284b78537aeda8b2f393ce22dc97cf84c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 09/30] fix: refuse a seek on NoSeek with an error in no_std
 too

---
 src/noseek.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/noseek.rs b/src/noseek.rs
index 84e222f..b3b0571 100644
--- a/src/noseek.rs
+++ b/src/noseek.rs
@@ -1,6 +1,6 @@
 //! Wrapper type that provides a fake [`Seek`] implementation.
 
-use crate::no_std_io::{Read, Result, Seek, SeekFrom, Write};
+use crate::no_std_io::{Error, Read, Result, Seek, SeekFrom, Write};
 
 /// A wrapper that provides a limited implementation of
 /// [`Seek`] for unseekable [`Read`] and [`Write`] streams.
@@ -43,11 +43,7 @@ impl<T> Seek for NoSeek<T> {
         match pos {
             SeekFrom::Start(n) if self.pos == n => Ok(n),
             SeekFrom::Current(0) => Ok(self.pos),
-            // https://github.com/rust-lang/rust/issues/86442
-            #[cfg(feature = "std")]
-            _ => Err(std::io::Error::other("seek on unseekable file")),
-            #[cfg(not(feature = "std"))]
-            _ => panic!("seek on unseekable file"),
+            _ => Err(Error::other("seek on unseekable file")),
         }
     }
 
-- 
2.43.0


From 0a1bbd7bb3f98a5e6824ee8ba0113631745502ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 10/30] fix: read exact byte counts unaligned, past a buffered
 byte and without seeking

---
 src/impls/vec.rs | 71 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 2bea63b..3457b72 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -5,7 +5,7 @@ use no_std_io::io::{Read, Seek, SeekFrom, Write};
 use alloc::vec::Vec;
 
 use crate::error::NeedSize;
-use crate::reader::Reader;
+use crate::reader::{Leftover, Reader};
 use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
 use crate::{DekuError, DekuWriter};
@@ -21,30 +21,59 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
     where
         Self: Sized,
     {
-        // Check remaining bytes via the inner reader before allocating,
-        // so a bogus count from untrusted input doesn't cause a huge
-        // allocation that will immediately fail on read.
-        let inner = reader.as_mut();
-        let pos = inner
-            .stream_position()
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        let end = inner
-            .seek(SeekFrom::End(0))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        inner
-            .seek(SeekFrom::Start(pos))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-
-        if (end - pos) < exact.0 as u64 {
-            return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
+        let mut res = Vec::new();
+        match remaining_bytes(reader)? {
+            // Check remaining bytes via the inner reader before allocating,
+            // so a bogus count from untrusted input doesn't cause a huge
+            // allocation that will immediately fail on read.
+            Some(remaining) if remaining < exact.0 as u64 => {
+                return Err(DekuError::Incomplete(NeedSize::new(
+                    exact.0.saturating_mul(8),
+                )));
+            }
+            Some(_) => read_chunk(reader, &mut res, exact.0)?,
+            // The inner reader can't seek: allocate only as the data comes in
+            None => {
+                let mut amt = exact.0;
+                while amt > 0 {
+                    let chunk = amt.min(MAX_PREALLOC_BYTES);
+                    read_chunk(reader, &mut res, chunk)?;
+                    amt -= chunk;
+                }
+            }
         }
-
-        let mut bytes = alloc::vec![0x00; exact.0];
-        let _ = reader.read_bytes(exact.0, &mut bytes, Order::Lsb0)?;
-        Ok(bytes)
+        Ok(res)
     }
 }
 
+/// Amount of bytes left to read, `None` if the inner reader can't seek
+fn remaining_bytes<R: Read + Seek>(reader: &mut Reader<R>) -> Result<Option<u64>, DekuError> {
+    let buffered = u64::from(matches!(reader.leftover, Some(Leftover::Byte(_))));
+    let inner = reader.as_mut();
+    let Ok(pos) = inner.stream_position() else {
+        return Ok(None);
+    };
+    let Ok(end) = inner.seek(SeekFrom::End(0)) else {
+        return Ok(None);
+    };
+    inner
+        .seek(SeekFrom::Start(pos))
+        .map_err(|e| DekuError::Io(e.kind()))?;
+    Ok(Some(end.saturating_sub(pos).saturating_add(buffered)))
+}
+
+/// Read `amt` bytes to the end of `res`
+fn read_chunk<R: Read + Seek>(
+    reader: &mut Reader<R>,
+    res: &mut Vec<u8>,
+    amt: usize,
+) -> Result<(), DekuError> {
+    let start = res.len();
+    res.resize(start + amt, 0x00);
+    let _ = reader.read_bytes(amt, &mut res[start..], Order::default())?;
+    Ok(())
+}
+
 /// Read `T`s into a vec until a given predicate returns true
 /// * `capacity` - an optional capacity to pre-allocate the vector with
 /// * `ctx` - The context required by `T`. It will be passed to every `T` when constructing.
-- 
2.43.0


From 4956f69677b8507e9a2195a97a3691fef2232f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 11/30] fix: do not reverse the bytes of a field after a change
 of bit order

---
 src/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 23b0713..b12c15b 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -349,6 +349,10 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        // On a byte boundary there is no other order to mix with
+        if self.leftover.0.is_empty() {
+            self.leftover.1 = order;
+        }
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From bf2b07f114dbf49f3bb5a658a9fbf60168cdae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 12/30] fix: write byte sized integers in the bit order of the
 stream

---
 src/impls/primitive.rs | 29 ++++++++++++++---------------
 src/writer.rs          | 17 ++++++++++++++++-
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 713d0f5..e774172 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -140,10 +140,10 @@ impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, _): (Endian, ByteSize, Order),
+        (_, _, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
+        writer.write_bytes_order(&input, order)?;
         Ok(())
     }
 }
@@ -972,6 +972,17 @@ macro_rules! ImplDekuWrite {
                 &self,
                 writer: &mut Writer<W>,
                 (endian, size): (Endian, ByteSize),
+            ) -> Result<(), DekuError> {
+                <$typ>::to_writer(self, writer, (endian, size, Order::default()))
+            }
+        }
+
+        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
+            #[inline(always)]
+            fn to_writer<W: Write + Seek>(
+                &self,
+                writer: &mut Writer<W>,
+                (endian, size, order): (Endian, ByteSize, Order),
             ) -> Result<(), DekuError> {
                 let input = match endian {
                     Endian::Little => self.to_le_bytes(),
@@ -995,22 +1006,10 @@ macro_rules! ImplDekuWrite {
                     &input[..size.0 as usize]
                 };
 
-                writer.write_bytes(&input)?;
+                writer.write_bytes_order(&input, order)?;
                 Ok(())
             }
         }
-
-        /// When using Endian and ByteSize, Order is not used
-        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
-            #[inline]
-            fn to_writer<W: Write + Seek>(
-                &self,
-                writer: &mut Writer<W>,
-                (endian, size, _order): (Endian, ByteSize, Order),
-            ) -> Result<(), DekuError> {
-                <$typ>::to_writer(self, writer, (endian, size))
-            }
-        }
     };
 }
 
diff --git a/src/writer.rs b/src/writer.rs
index b12c15b..8bdf195 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -7,7 +7,6 @@ use no_std_io::io::{Seek, SeekFrom, Write};
 #[cfg(feature = "logging")]
 use log;
 
-#[cfg(feature = "bits")]
 use crate::ctx::Order;
 
 use crate::DekuError;
@@ -405,6 +404,22 @@ impl<W: Write + Seek> Writer<W> {
         Ok(())
     }
 
+    /// Write `buf` into `Writer`, its bytes taking the bits of the stream in `order`
+    #[inline(always)]
+    pub(crate) fn write_bytes_order(&mut self, buf: &[u8], order: Order) -> Result<(), DekuError> {
+        #[cfg(feature = "bits")]
+        if order == Order::Lsb0 && self.leftover.1 == Order::Lsb0 && !self.leftover.0.is_empty() {
+            for byte in buf {
+                self.write_bits_order(BitSlice::from_element(byte), order)?;
+            }
+            return Ok(());
+        }
+        #[cfg(not(feature = "bits"))]
+        let _ = order;
+
+        self.write_bytes(buf)
+    }
+
     /// Write all remaining bits into `Writer`, adding empty bits to the end so that we can write
     /// into a byte buffer
     #[inline]
-- 
2.43.0


From 1278dd79beea59273e5adbcae5a0a34cd7ed85f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 13/30] fix: write big endian Lsb0 bit fields the way they are
 read

---
 src/impls/primitive.rs | 51 +++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index e774172..d19e240 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -867,39 +867,28 @@ macro_rules! ImplDekuWrite {
                         }
                     }
                     (Endian::Big, Order::Lsb0) => {
-                        const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                        if let Some(first) = input_bits.first_one() {
-                            let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
-                                    bit_size
-                                ));
-                            }
+                        // The field is read as whole bytes, most significant
+                        // first, of which the last holds what is left of it.
+                        let len = bit_size.div_ceil(8);
+                        let (unused, used) = input.split_at(input.len() - len);
+                        let last_bits = bit_size - len.saturating_sub(1) * 8;
+                        let last = used.last().copied().unwrap_or(0);
+                        let too_large = unused.iter().any(|b| *b != 0);
+                        if too_large || (last_bits < 8 && last >> last_bits != 0) {
+                            let significant = input_bits.len() - input_bits.leading_zeros();
+                            return Err(deku_error!(
+                                DekuError::InvalidParam,
+                                "bit size of input is larger than requested size",
+                                "{} exceeds {}",
+                                core::cmp::max(significant, len * 8),
+                                bit_size
+                            ));
                         }
 
-                        if bit_size <= 8 {
-                            writer.write_bits_order(
-                                &input_bits[input_bits.len() - bit_size..],
-                                order,
-                            )?;
-                        } else {
-                            let mut remaining_bits = bit_size;
-                            for chunk in input_bits.chunks(8) {
-                                if chunk.len() > remaining_bits {
-                                    writer.write_bits_order(
-                                        &chunk[chunk.len() - remaining_bits..],
-                                        order,
-                                    )?;
-                                    break;
-                                } else {
-                                    writer.write_bits_order(&chunk, order)?;
-                                }
-                                remaining_bits -= chunk.len();
-                            }
+                        for (i, byte) in used.iter().enumerate() {
+                            let bits = byte.view_bits::<Msb0>();
+                            let unused = if i + 1 == len { 8 - last_bits } else { 0 };
+                            writer.write_bits_order(&bits[unused..], order)?;
                         }
                     }
                     (Endian::Big, Order::Msb0) => {
-- 
2.43.0


From 2dc860160745379347de895a7a6639bcc149d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 14/30] fix: write signed bit fields with a bit order in two's
 complement

---
 src/impls/primitive.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index d19e240..b3cb85b 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -806,6 +806,43 @@ macro_rules! ForwardDekuRead {
     };
 }
 
+/// Value holding the low `bit_size` bits of a number in two's complement, which
+/// must be able to hold it
+#[cfg(feature = "bits")]
+macro_rules! value_of_bit_size {
+    (Unsigned, $value:expr, $bit_size:expr, $typ:ty) => {
+        $value
+    };
+    (Signed, $value:expr, $bit_size:expr, $typ:ty) => {{
+        const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
+        let (value, bit_size): ($typ, usize) = ($value, $bit_size);
+        if bit_size >= MAX_TYPE_BITS {
+            value
+        } else {
+            let sign_bits = if value < 0 {
+                value.leading_ones()
+            } else {
+                value.leading_zeros()
+            } as usize;
+            let significant = if value == 0 {
+                0
+            } else {
+                MAX_TYPE_BITS - sign_bits + 1
+            };
+            if significant > bit_size {
+                return Err(deku_error!(
+                    DekuError::InvalidParam,
+                    "bit size of input is larger than requested size",
+                    "{} exceeds {}",
+                    significant,
+                    bit_size
+                ));
+            }
+            value & !(<$typ>::MAX.wrapping_shl(bit_size as u32) | <$typ>::MIN)
+        }
+    }};
+}
+
 macro_rules! ImplDekuWrite {
     ($typ:ty, $signed_type:ident) => {
         #[cfg(feature = "bits")]
@@ -816,9 +853,10 @@ macro_rules! ImplDekuWrite {
                 writer: &mut Writer<W>,
                 (endian, size, order): (Endian, BitSize, Order),
             ) -> Result<(), DekuError> {
+                let value = value_of_bit_size!($signed_type, *self, size.0, $typ);
                 let input = match endian {
-                    Endian::Little => self.to_le_bytes(),
-                    Endian::Big => self.to_be_bytes(),
+                    Endian::Little => value.to_le_bytes(),
+                    Endian::Big => value.to_be_bytes(),
                 };
 
                 let bit_size: usize = size.0;
-- 
2.43.0


From 5fdf4e84975322a7f84989972a9166b649376bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 15/30] fix: sign extend signed integers read from fewer bytes

---
 src/impls/primitive.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index b3cb85b..300109c 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -665,7 +665,7 @@ macro_rules! ImplDekuReadSignExtend {
                 let ret = reader.read_bytes(size.0, &mut buf, order)?;
                 let a = match ret {
                     ReaderRet::Bytes => {
-                        if endian.is_le() {
+                        let value = if endian.is_le() {
                             <$typ>::from_le_bytes(buf.try_into().unwrap())
                         } else {
                             if size.0 != core::mem::size_of::<$typ>() {
@@ -674,7 +674,10 @@ macro_rules! ImplDekuReadSignExtend {
                                 buf[..padding].fill(0x00);
                             }
                             <$typ>::from_be_bytes(buf.try_into().unwrap())
-                        }
+                        };
+                        // The sign is the most significant bit of what was read
+                        let shift = ((MAX_TYPE_BYTES - size.0) * 8) as u32;
+                        value.checked_shl(shift).map_or(value, |v| v >> shift)
                     }
                     #[cfg(all(feature = "bits", feature = "alloc"))]
                     ReaderRet::Bits(Some(bits)) => {
-- 
2.43.0


From c72da0b084729247ff0a7e09129553428788ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 16/30] fix: write the id stored in an id_pat variant the way
 it is read

---
 deku-derive/src/macros/deku_write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 461c5e8..5098242 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -327,7 +327,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let field_writes = emit_field_writes(
                 input,
                 &variant.fields.as_ref(),
-                variant.id_pat.is_some(),
+                // an id given by `id` is not stored in the variant
+                variant.id_pat.is_some() && id.is_none(),
                 None,
                 &ident,
             )?;
@@ -616,7 +617,7 @@ fn emit_field_write(
         // TODO: This should error on some attributes that don't make sense aren't used?
         // Such as magic, seek*
         let crate_ = super::get_crate_name();
-        let field_endian = input.id_endian.as_ref();
+        let field_endian = input.id_endian.as_ref().or(input.endian.as_ref());
         #[cfg(feature = "bits")]
         let field_bits = input.bits.as_ref();
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From 65b2dc8e93fa6447240bccd7e1ce9850193d120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 17/30] fix: do not count skipped fields in DekuSize

---
 deku-derive/src/macros/deku_size.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index e731c2c..0155de7 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -5,7 +5,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 use syn::spanned::Spanned;
 
-use crate::{DekuData, DekuDataEnum, DekuDataStruct, FieldData};
+use crate::{DekuData, DekuDataEnum, DekuDataStruct, FieldData, SkipMode};
 
 pub(crate) fn emit_deku_size(input: &DekuData) -> Result<TokenStream, syn::Error> {
     // NOTE: This is overkill, but keeps the same validating requirements of DekuRead. This ensures
@@ -60,7 +60,9 @@ fn calculate_fields_size<'a>(
 
         let field_type = &f.ty;
         #[cfg(feature = "bits")]
-        if let Some(bits) = &f.bits {
+        if is_skipped(f) {
+            // only the magic and the padding around the field are serialized
+        } else if let Some(bits) = &f.bits {
             components.push(quote! { (#bits) });
         } else if let Some(bytes) = &f.bytes {
             components.push(quote! { (#bytes) * 8 });
@@ -69,7 +71,9 @@ fn calculate_fields_size<'a>(
         }
 
         #[cfg(not(feature = "bits"))]
-        if let Some(bytes) = &f.bytes {
+        if is_skipped(f) {
+            // only the magic and the padding around the field are serialized
+        } else if let Some(bytes) = &f.bytes {
             components.push(quote! { (#bytes) * 8 });
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
@@ -100,6 +104,11 @@ fn calculate_fields_size<'a>(
     quote! { 0 #(+ (#field_components))* }
 }
 
+/// Check if a field is neither read nor written
+fn is_skipped(field: &FieldData) -> bool {
+    matches!(field.skip, Some(SkipMode::All)) && field.cond.is_none()
+}
+
 /// Check if struct/enum has seek attributes
 fn has_seek_attributes(input: &DekuData) -> bool {
     input.seek_rewind
@@ -159,7 +168,7 @@ fn add_field_bounds<'a>(
             continue;
         }
 
-        if !field.temp {
+        if !field.temp && !is_skipped(field) {
             let field_type = &field.ty;
             #[cfg(feature = "bits")]
             let needs_bound = field.bits.is_none() && field.bytes.is_none();
-- 
2.43.0


From 07d3a5bee76d5c9b49012c0e46d3b94113fa02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 18/30] fix: honour a bit width of zero or too many bits for
 single byte types

---
 src/impls/primitive.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 300109c..190e575 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -761,7 +761,8 @@ macro_rules! ForwardDekuRead {
             ) -> Result<$typ, DekuError> {
                 let endian = Endian::default();
 
-                if (bit_size.0 % 8) == 0 {
+                // A byte width is ignored by single byte types
+                if (bit_size.0 % 8) == 0 && (core::mem::size_of::<$typ>() > 1 || bit_size.0 == 8) {
                     <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(bit_size.0 / 8)))
                 } else {
                     <$typ>::from_reader_with_ctx(reader, (endian, bit_size))
@@ -779,7 +780,8 @@ macro_rules! ForwardDekuRead {
             ) -> Result<$typ, DekuError> {
                 let endian = Endian::default();
 
-                if (bit_size.0 % 8) == 0 {
+                // A byte width is ignored by single byte types
+                if (bit_size.0 % 8) == 0 && (core::mem::size_of::<$typ>() > 1 || bit_size.0 == 8) {
                     <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(bit_size.0 / 8), order))
                 } else {
                     <$typ>::from_reader_with_ctx(reader, (endian, bit_size, order))
-- 
2.43.0


From eafa735f9a5528a856238db877b2dbce934e0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 19/30] fix: refuse a negative number in a bit field of no bits

---
 src/impls/primitive.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 190e575..f5d9041 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -1155,6 +1155,17 @@ macro_rules! ImplDekuWriteDetails {
                     ));
                 }
 
+                // No bits hold zero, and nothing else
+                if bit_size == 0 && *self != 0 {
+                    return Err(deku_error!(
+                        DekuError::InvalidParam,
+                        "bit size of input is larger than bit requested size",
+                        "{} exceeds {}",
+                        1,
+                        bit_size
+                    ));
+                }
+
                 if matches!(endian, Endian::Little) {
                     // Check if this is a value that will fit inside the required bits, if
                     // not, throw an error
-- 
2.43.0


From 31251e2b7872b69d24a8ae0a9d6bbd31a8c9c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 20/30] fix: read over whole bytes of padding instead of
 seeking

---
 src/reader.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index c7383de..e54b568 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -204,16 +204,13 @@ impl<R: Read + Seek> Reader<R> {
                 self.read_bits_into(&mut buf[..needed], _order)?;
             }
 
-            let bytes_amt = amt / 8;
             let bits_amt = amt % 8;
 
-            // first, seek with bytes
-            if bytes_amt != 0 {
-                debug_assert_eq!(self.bits_read % 8, 0);
-                self.seek(SeekFrom::Current(
-                    i64::try_from(bytes_amt).expect("could not convert seek usize into i64"),
-                ))
-                .map_err(|e| DekuError::Io(e.kind()))?;
+            // first, the whole bytes: they have to be there, and skipping them
+            // must neither need a stream that can seek, nor turn `bits_read`
+            // into a position in that stream
+            for _ in 0..amt / 8 {
+                self.read_bytes(1, &mut [0], _order)?;
             }
 
             // Save, and keep the leftover bits since the read will most likely be less than a byte
-- 
2.43.0


From 1b478d516d5b74419d62c9efdd058754e161a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 21/30] fix: skip a whole number of bytes without the bits
 feature

---
 src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index e54b568..da8e5c1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -221,9 +221,13 @@ impl<R: Read + Seek> Reader<R> {
 
         #[cfg(not(feature = "bits"))]
         {
-            if amt > 0 {
+            if amt % 8 != 0 {
                 panic!("requires deku feature: bits");
             }
+            while amt > 0 {
+                self.read_bytes(1, &mut [0], _order)?;
+                amt -= 8;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 3894a0112c24d6e625ebeb94d3c3dc2b56559eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 22/30] fix: report a seek amount out of range as an error

A seek attribute whose value does not fit the type of the offset, such as a
u64 offset read from the input with its upper bit set, made reading and
writing panic.
---
 deku-derive/src/macros/deku_read.rs  | 27 +++++++++++++++++++++------
 deku-derive/src/macros/deku_write.rs | 27 +++++++++++++++++++++------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 18a8855..9e8e8e3 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,7 +48,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -59,7 +61,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -70,7 +74,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -685,7 +691,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -695,7 +704,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -705,7 +717,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 5098242..c318e40 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,7 +38,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -49,7 +51,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -60,7 +64,9 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -654,7 +660,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -664,7 +673,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                let seek_amt = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -674,7 +686,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                let seek_amt = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
-- 
2.43.0


From e598b8f1342308a2ce56a6663e18f94afff3c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 23/30] fix: compute an amount of padding without overflow

The number of bytes was multiplied by 8 in the type it was written in, so that
32 bytes stated by a u8, or a huge number read from the input, panicked or
wrapped around to a small amount.
---
 deku-derive/src/macros/deku_read.rs  | 14 +++++++++-----
 deku-derive/src/macros/deku_write.rs | 14 +++++++++-----
 deku-derive/src/macros/mod.rs        | 25 ++++++++++++++++++++-----
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 9e8e8e3..2721892 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -607,15 +607,19 @@ fn emit_bit_byte_offsets(
 }
 
 #[cfg(feature = "bits")]
-fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream {
+fn emit_padding(
+    bit_size: &TokenStream,
+    text: &TokenStream,
+    bit_order: Option<&LitStr>,
+) -> TokenStream {
     let crate_ = super::get_crate_name();
     if let Some(bit_order) = bit_order {
         let order = gen_bit_order_from_str(bit_order).unwrap();
         quote! {
             {
                 use core::convert::TryFrom;
-                let __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert ot usize", "{}", stringify!(#bit_size))
+                let __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert ot usize", "{}", stringify!(#text))
                 )?;
                 __deku_reader.skip_bits(__deku_pad, #order)?;
             }
@@ -624,8 +628,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#text))
                 )?;
                 __deku_reader.skip_bits(__deku_pad, ::#crate_::ctx::Order::default())?;
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index c318e40..ed5f467 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -549,7 +549,11 @@ fn emit_bit_byte_offsets(
 }
 
 #[cfg(feature = "bits")]
-fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream {
+fn emit_padding(
+    bit_size: &TokenStream,
+    text: &TokenStream,
+    bit_order: Option<&LitStr>,
+) -> TokenStream {
     let crate_ = super::get_crate_name();
     const PAD: usize = crate::PAD_ARRAY_SIZE * 8;
     if let Some(bit_order) = bit_order {
@@ -557,8 +561,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let mut __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let mut __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#text))
                 )?;
                 let __deku_pad_source = ::#crate_::bitvec::bitarr!(u8, ::#crate_::bitvec::Msb0; 0; #PAD);
                 while __deku_pad > 0 {
@@ -572,8 +576,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let mut __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let mut __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#text))
                 )?;
                 let __deku_pad_source = ::#crate_::bitvec::bitarr!(u8, ::#crate_::bitvec::Msb0; 0; #PAD);
                 while __deku_pad > 0 {
diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 40ee333..2494352 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -382,14 +382,29 @@ fn pad_bits(
     bits: Option<&TokenStream>,
     bytes: Option<&TokenStream>,
     bit_order: Option<&LitStr>,
-    emit_padding: fn(&TokenStream, bit_order: Option<&LitStr>) -> TokenStream,
+    emit_padding: fn(&TokenStream, &TokenStream, bit_order: Option<&LitStr>) -> TokenStream,
 ) -> TokenStream {
+    // The amounts are of whatever type they were written in: in that type, the
+    // number of bits may not be representable.
     match (bits, bytes) {
-        (Some(pad_bits), Some(pad_bytes)) => {
-            emit_padding(&quote! { (#pad_bits) + ((#pad_bytes) * 8) }, bit_order)
+        (Some(pad_bits), Some(pad_bytes)) => emit_padding(
+            &quote! {
+                match (usize::try_from(#pad_bits), usize::try_from(#pad_bytes)) {
+                    (Ok(bits), Ok(bytes)) => bytes.checked_mul(8).and_then(|v| v.checked_add(bits)),
+                    _ => None,
+                }
+            },
+            &quote! { (#pad_bits) + ((#pad_bytes) * 8) },
+            bit_order,
+        ),
+        (Some(pad_bits), None) => {
+            emit_padding(&quote! { usize::try_from(#pad_bits).ok() }, pad_bits, bit_order)
         }
-        (Some(pad_bits), None) => emit_padding(pad_bits, bit_order),
-        (None, Some(pad_bytes)) => emit_padding(&quote! {((#pad_bytes) * 8)}, bit_order),
+        (None, Some(pad_bytes)) => emit_padding(
+            &quote! { usize::try_from(#pad_bytes).ok().and_then(|v| v.checked_mul(8)) },
+            &quote! {((#pad_bytes) * 8)},
+            bit_order,
+        ),
         (None, None) => quote!(),
     }
 }
-- 
2.43.0


From 7bae2b08e6f0dee20ecd33ecf15083fd82891c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 24/30] fix: read elements without fields that take bits of the
 input

---
 src/impls/vec.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 3457b72..b73c00a 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -92,21 +92,21 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    // ZST detected, return empty vec
-    if mem::size_of::<T>() == 0 {
-        return Ok(Vec::new());
-    }
-
     // The capacity may come from untrusted input: do not reserve more than a
     // fixed amount up front, the vector grows as elements are actually read.
     let mut res = capacity.map_or_else(Vec::new, |capacity| {
-        Vec::with_capacity(capacity.min(MAX_PREALLOC_BYTES / mem::size_of::<T>()))
+        Vec::with_capacity(capacity.min(MAX_PREALLOC_BYTES / mem::size_of::<T>().max(1)))
     });
 
     let start_read = reader.bits_read;
 
     loop {
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
+
+        // ZST that takes nothing of the input detected, return empty vec
+        if mem::size_of::<T>() == 0 && reader.bits_read == start_read {
+            return Ok(Vec::new());
+        }
         res.push(val);
 
         // This unwrap is safe as we are pushing to the vec immediately before it,
@@ -128,10 +128,7 @@ where
     T: DekuReader<'a, Ctx>,
     Ctx: Copy,
 {
-    // ZST detected, return empty vec
-    if mem::size_of::<T>() == 0 {
-        return Ok(Vec::new());
-    }
+    let start_read = reader.bits_read;
 
     let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
     loop {
@@ -139,6 +136,11 @@ where
             break;
         }
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
+
+        // ZST that takes nothing of the input detected, return empty vec
+        if mem::size_of::<T>() == 0 && reader.bits_read == start_read {
+            return Ok(Vec::new());
+        }
         res.push(val);
     }
 
-- 
2.43.0


From eafa4dc181ebc411492ea7aa95267a220cebeea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 25/30] fix: write the bits of an unfinished byte before
 seeking

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 8bdf195..7d33ffd 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -31,10 +31,10 @@ impl<W: Write + Seek> Seek for Writer<W> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
-        // clear leftover
+        // write the bits of an unfinished byte where they belong
+        self.finalize()?;
         #[cfg(feature = "bits")]
         {
-            self.leftover.0.clear();
             self.leftover.1 = Order::Msb0;
         }
 
-- 
2.43.0


From 066ae350807076937eea8e3890998514723cb7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 26/30] fix: count every element of arrays and tuples with a
 width in DekuSize

---
 deku-derive/src/macros/deku_size.rs | 38 ++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index 0155de7..b755e7e 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -63,9 +63,9 @@ fn calculate_fields_size<'a>(
         if is_skipped(f) {
             // only the magic and the padding around the field are serialized
         } else if let Some(bits) = &f.bits {
-            components.push(quote! { (#bits) });
+            components.push(calculate_sized_type(field_type, &|_| quote! { (#bits) }));
         } else if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
+            components.push(calculate_sized_type(field_type, &|ty| byte_sized(ty, bytes)));
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
         }
@@ -74,7 +74,7 @@ fn calculate_fields_size<'a>(
         if is_skipped(f) {
             // only the magic and the padding around the field are serialized
         } else if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
+            components.push(calculate_sized_type(field_type, &|ty| byte_sized(ty, bytes)));
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
         }
@@ -104,6 +104,38 @@ fn calculate_fields_size<'a>(
     quote! { 0 #(+ (#field_components))* }
 }
 
+/// Calculate the size of a field with a `bits` or `bytes` attribute, which applies
+/// to every element of an array and to every member of a tuple
+fn calculate_sized_type(ty: &syn::Type, size: &dyn Fn(&syn::Type) -> TokenStream) -> TokenStream {
+    match ty {
+        syn::Type::Array(array) => {
+            let len = &array.len;
+            let elem = calculate_sized_type(&array.elem, size);
+            quote! { ((#len) * (#elem)) }
+        }
+        syn::Type::Tuple(tuple) => {
+            let elems = tuple
+                .elems
+                .iter()
+                .map(|elem| calculate_sized_type(elem, size));
+            quote! { (0 #(+ (#elems))*) }
+        }
+        syn::Type::Paren(inner) => calculate_sized_type(&inner.elem, size),
+        syn::Type::Group(inner) => calculate_sized_type(&inner.elem, size),
+        _ => size(ty),
+    }
+}
+
+/// Size in bits of a value with a `bytes` attribute, which single byte integers ignore
+fn byte_sized(ty: &syn::Type, bytes: &impl quote::ToTokens) -> TokenStream {
+    match ty {
+        syn::Type::Path(path) if path.path.is_ident("u8") || path.path.is_ident("i8") => {
+            quote! { 8 }
+        }
+        _ => quote! { (#bytes) * 8 },
+    }
+}
+
 /// Check if a field is neither read nor written
 fn is_skipped(field: &FieldData) -> bool {
     matches!(field.skip, Some(SkipMode::All)) && field.cond.is_none()
-- 
2.43.0


From 7b6ca044990df836c8cc7bb384a043eb481dd4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 27/30] fix: count the bits of an unfinished byte in the
 offsets seen when writing

---
 deku-derive/src/macros/deku_write.rs |  4 ++--
 src/writer.rs                        | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index ed5f467..0201fa3 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -527,7 +527,7 @@ fn emit_bit_byte_offsets(
         .any(|v| token_contains_string(v, "__deku_byte_offset"))
     {
         Some(quote! {
-            let __deku_byte_offset = __deku_writer.bits_written / 8;
+            let __deku_byte_offset = __deku_writer.bit_offset() / 8;
         })
     } else {
         None
@@ -539,7 +539,7 @@ fn emit_bit_byte_offsets(
         || byte_offset.is_some()
     {
         Some(quote! {
-            let __deku_bit_offset = __deku_writer.bits_written;
+            let __deku_bit_offset = __deku_writer.bit_offset();
         })
     } else {
         None
diff --git a/src/writer.rs b/src/writer.rs
index 7d33ffd..c81d046 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -54,6 +54,17 @@ impl<W: Write + Seek> Writer<W> {
         }
     }
 
+    /// Offset in bits that is written next, counting the bits of an unfinished byte
+    #[doc(hidden)]
+    #[inline]
+    pub fn bit_offset(&self) -> usize {
+        #[cfg(feature = "bits")]
+        return self.bits_written + self.leftover.0.len();
+
+        #[cfg(not(feature = "bits"))]
+        self.bits_written
+    }
+
     /// Return the unused bits
     #[inline]
     #[cfg(all(feature = "bits", feature = "alloc"))]
-- 
2.43.0


From d29cc4cb2eb800bd9915e559e5e76dd1190050ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 28/30] fix: update the right field of a tuple struct with
 temporary fields

---
 deku-derive/src/macros/deku_write.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 0201fa3..342e9f0 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -489,10 +489,16 @@ fn emit_field_updates(
     fields: &Fields<&FieldData>,
     object_prefix: Option<TokenStream>,
 ) -> Vec<TokenStream> {
+    // temporary fields are not part of the struct: they take no index of it
+    let in_object = object_prefix.is_some();
     fields
         .iter()
         .enumerate()
-        .filter_map(|(i, f)| emit_field_update(i, f, &object_prefix))
+        .filter(|(_, f)| !f.temp)
+        .enumerate()
+        .filter_map(|(stored, (i, f))| {
+            emit_field_update(if in_object { stored } else { i }, f, &object_prefix)
+        })
         .collect()
 }
 
@@ -501,9 +507,6 @@ fn emit_field_update(
     f: &FieldData,
     object_prefix: &Option<TokenStream>,
 ) -> Option<TokenStream> {
-    if f.temp {
-        return None;
-    }
     let field_ident = f.get_ident(i, object_prefix.is_none());
     let deref = if object_prefix.is_none() {
         Some(quote! { * })
-- 
2.43.0


From 2cabff159196ea632a78133f4e1190a5e88c840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 29/30] fix: let every attribute of a field see the current
 offset

---
 deku-derive/src/macros/deku_read.rs  | 31 +++++++++++++++++++++++++++
 deku-derive/src/macros/deku_write.rs | 32 ++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 2721892..fe9e4e3 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -606,6 +606,14 @@ fn emit_bit_byte_offsets(
     (bit_offset, byte_offset)
 }
 
+fn emit_offsets(fields: &[&Option<TokenStream>]) -> TokenStream {
+    let (bit_offset, byte_offset) = emit_bit_byte_offsets(fields);
+    quote! {
+        #bit_offset
+        #byte_offset
+    }
+}
+
 #[cfg(feature = "bits")]
 fn emit_padding(
     bit_size: &TokenStream,
@@ -688,6 +696,9 @@ fn emit_field_read(
         &f.ctx.as_ref().map(|v| quote!(#v)),
         &f.assert,
         &f.assert_eq,
+        #[cfg(feature = "bits")]
+        &f.bits.as_ref().map(|v| quote!(#v)),
+        &f.bytes.as_ref().map(|v| quote!(#v)),
     ];
 
     let seek = if let Some(num) = &f.seek_from_current {
@@ -744,6 +755,23 @@ fn emit_field_read(
 
     let (bit_offset, byte_offset) = emit_bit_byte_offsets(&field_check_vars);
 
+    // these see the offset they start from
+    let seek_offsets = emit_offsets(&[
+        &f.seek_from_current,
+        &f.seek_from_end,
+        &f.seek_from_start,
+    ]);
+    let pad_before_offsets = emit_offsets(&[
+        #[cfg(feature = "bits")]
+        &f.pad_bits_before,
+        &f.pad_bytes_before,
+    ]);
+    let pad_after_offsets = emit_offsets(&[
+        #[cfg(feature = "bits")]
+        &f.pad_bits_after,
+        &f.pad_bytes_after,
+    ]);
+
     let field_map = f
         .map
         .as_ref()
@@ -1016,8 +1044,10 @@ fn emit_field_read(
     };
 
     let field_read = quote! {
+        #seek_offsets
         #seek
         #magic_read
+        #pad_before_offsets
         #pad_bits_before
 
         #bit_offset
@@ -1032,6 +1062,7 @@ fn emit_field_read(
         #field_assert
         #field_assert_eq
 
+        #pad_after_offsets
         #pad_bits_after
     };
 
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 342e9f0..2c29f20 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -551,6 +551,14 @@ fn emit_bit_byte_offsets(
     (bit_offset, byte_offset)
 }
 
+fn emit_offsets(fields: &[&Option<TokenStream>]) -> TokenStream {
+    let (bit_offset, byte_offset) = emit_bit_byte_offsets(fields);
+    quote! {
+        #bit_offset
+        #byte_offset
+    }
+}
+
 #[cfg(feature = "bits")]
 fn emit_padding(
     bit_size: &TokenStream,
@@ -721,10 +729,31 @@ fn emit_field_write(
         &f.ctx.as_ref().map(|v| quote!(#v)),
         &f.assert,
         &f.assert_eq,
+        &f.temp_value,
+        #[cfg(feature = "bits")]
+        &f.bits.as_ref().map(|v| quote!(#v)),
+        &f.bytes.as_ref().map(|v| quote!(#v)),
     ];
 
     let (bit_offset, byte_offset) = emit_bit_byte_offsets(&field_check_vars);
 
+    // these see the offset they start from
+    let seek_offsets = emit_offsets(&[
+        &f.seek_from_current,
+        &f.seek_from_end,
+        &f.seek_from_start,
+    ]);
+    let pad_before_offsets = emit_offsets(&[
+        #[cfg(feature = "bits")]
+        &f.pad_bits_before,
+        &f.pad_bytes_before,
+    ]);
+    let pad_after_offsets = emit_offsets(&[
+        #[cfg(feature = "bits")]
+        &f.pad_bits_after,
+        &f.pad_bytes_after,
+    ]);
+
     let ident = &ident.to_string();
     let field_writer = &f.writer;
     let field_ident = f.get_ident(i, object_prefix.is_none());
@@ -865,8 +894,10 @@ fn emit_field_write(
     };
 
     let field_write = quote! {
+        #seek_offsets
         #seek
         #magic_write
+        #pad_before_offsets
         #pad_bits_before
 
         #bit_offset
@@ -878,6 +909,7 @@ fn emit_field_write(
 
         #field_write_tokens
 
+        #pad_after_offsets
         #pad_bits_after
     };
 
-- 
2.43.0


From e6bb66d7e19fdfe5fdc8cd047dc0229c2017a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 30/30] fix: let enums be written to slices without the alloc
 feature

DekuContainerWrite was only implemented for enums when deku-derive had the
alloc feature; structs have it in every configuration.
---
 deku-derive/src/macros/deku_write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 2c29f20..0fc05ae 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -394,7 +394,9 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     }
                 }
             };
+        });
 
+        tokens.extend(quote! {
             #[automatically_derived]
             impl #imp ::#crate_::DekuContainerWrite for #ident #wher {}
         });
-- 
2.43.0

