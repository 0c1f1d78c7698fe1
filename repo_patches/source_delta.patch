From 848dce17830d96a3fbc7974cb9368d84a2c5fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 01/15] fix: decode zigzag-encoded varints back into i64
 correctly

---
 src/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 93e7b3c..0aef3d5 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -99,7 +99,7 @@ impl From< VarInt64 > for i64 {
     #[inline]
     fn from( value: VarInt64 ) -> Self {
         let value = value.0;
-        ((value >> 1) ^ (value << 15)) as i64
+        ((value >> 1) ^ (value & 1).wrapping_neg()) as i64
     }
 }
 
-- 
2.43.0


From aee440af7a7926a700076e9de7d6f4f6174f51a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 02/15] fix: peek multi-byte varints from the correct offset

---
 src/varint.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 0aef3d5..7660604 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -164,7 +164,20 @@ impl VarInt64 {
         where C: Context,
               R: Reader< 'a, C >
     {
-        impl_read!( reader, peek_u8, peek_bytes )
+        let first_byte = reader.peek_u8()?;
+        let length = (!first_byte).leading_zeros();
+
+        let upper_mask = 0b11111111_u64 >> length;
+        let upper_bits = (upper_mask & (first_byte as u64)).wrapping_shl( length * 8 );
+
+        // Peeking always starts at the first byte, so it needs to be peeked again and skipped.
+        let mut encoded = [0_u8; 9];
+        let encoded = &mut encoded[ ..length as usize + 1 ];
+        reader.peek_bytes( encoded )?;
+
+        let mut value = [0_u8; 8];
+        value[ ..length as usize ].copy_from_slice( &encoded[ 1.. ] );
+        Ok( VarInt64( upper_bits | u64::from_le_bytes( value ) ) )
     }
 }
 
-- 
2.43.0


From 0d08dabc6699abe7b1844f224e51120292c8cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 03/15] fix: do not use the raw copying fast paths for
 zero-sized primitive types

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index eb5febd..61b443b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -598,7 +598,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where T: Readable< 'a, C >,
               [T]: ToOwned< Owned = Vec< T > >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
                 let bytes = bytes?;
                 assert_eq!( bytes.len(), length * mem::size_of::< T >() );
@@ -642,7 +642,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where U: FromIterator< T >,
               T: Readable< 'a, C >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture() // TODO: Use different error maybe?
             })?;
@@ -668,7 +668,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         #[repr(packed)]
         struct Pair< K, V >( K, V );
 
-        if K::speedy_is_primitive() && V::speedy_is_primitive() && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
+        if K::speedy_is_primitive() && V::speedy_is_primitive() && mem::size_of::< Pair< K, V > >() != 0 && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture()
             })?;
-- 
2.43.0


From c9d6465e8fb6cb934d2fc6646f87c7159d799db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 04/15] fix: read every element of a vector of zero-sized types

---
 src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 61b443b..2cf6210 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -546,12 +546,11 @@ pub trait Reader< 'a, C: Context >: Sized {
             }
 
             let mut p = vec.as_mut_ptr();
-            let e = unsafe { p.add( length ) };
 
             // We deliberately have a separate counter instead
             // of subtracting pointers as this optimizes better.
             let mut count = 0;
-            while p < e {
+            while count < length {
                 let value = match self.read_value() {
                     Ok( value ) => value,
                     Err( error ) => {
-- 
2.43.0


From bb7aa9cb0d3c5b337492c9c87c7da84cf5971718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 05/15] fix: return an error instead of panicking on an out of
 range Duration

---
 src/error.rs         | 1 -
 src/readable_impl.rs | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 480f3ba..531ceba 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -199,7 +199,6 @@ pub fn error_zero_non_zero< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::ZeroNonZero ) )
 }
 
-#[cfg(feature = "std")]
 #[cold]
 pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 032b114..8e78e29 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -562,7 +562,11 @@ impl< 'a, C > Readable< 'a, C > for core::time::Duration where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let secs = reader.read_u64()?;
         let nanos = reader.read_u32()?;
-        Ok( core::time::Duration::new( secs, nanos ) )
+
+        // `Duration::new` would panic if the carry from the nanoseconds overflows the seconds.
+        core::time::Duration::from_secs( secs )
+            .checked_add( core::time::Duration::from_nanos( nanos as u64 ) )
+            .ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From 1e6817cb2f0551cf16bfd537fc2f87cd8841f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 06/15] fix: return an error instead of panicking on an out of
 range DateTime

---
 src/ext_chrono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext_chrono.rs b/src/ext_chrono.rs
index 5397a71..8cfde2a 100644
--- a/src/ext_chrono.rs
+++ b/src/ext_chrono.rs
@@ -20,7 +20,7 @@ impl< 'a, C > Readable< 'a, C > for DateTime< Utc >
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let seconds = reader.read_i64()?;
         let subsec_nanos = reader.read_u32()?;
-        Ok( Utc.timestamp( seconds, subsec_nanos ) )
+        Utc.timestamp_opt( seconds, subsec_nanos ).single().ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From 79adc95b3474efc5eb35710cb16c07ca3ef4405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 07/15] fix: handle length overflow when reading a Cow<[T]>

---
 src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 2cf6210..9e11dfc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -598,9 +598,10 @@ pub trait Reader< 'a, C: Context >: Sized {
               [T]: ToOwned< Owned = Vec< T > >
     {
         if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
+            let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
+            if let Some( bytes ) = self.read_bytes_borrowed( bytesize ) {
                 let bytes = bytes?;
-                assert_eq!( bytes.len(), length * mem::size_of::< T >() );
+                assert_eq!( bytes.len(), bytesize );
 
                 if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {
                     let slice = unsafe { T::speedy_slice_from_bytes( bytes ) };
-- 
2.43.0


From 45f6a2b65e279383bf14e04e246781e8253cf90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 08/15] fix: report errors which happen when flushing a file

---
 src/writable.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/writable.rs b/src/writable.rs
index 716fce8..3741cd4 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -236,8 +236,14 @@ pub trait Writable< C: Context > {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
         })?;
-        let stream = io::BufWriter::new( stream );
-        self.write_to_stream_with_ctx( context, stream )
+        let mut stream = io::BufWriter::new( stream );
+        self.write_to_stream_with_ctx( context, &mut stream )?;
+
+        // Dropping the `BufWriter` would silently ignore any errors.
+        stream.flush().map_err( |error| {
+            let error = Error::from_io_error( error );
+            <C::Error as From< Error >>::from( error )
+        })
     }
 
     #[inline]
-- 
2.43.0


From 7fbcde86a3c32f1c44dd2ccd43a818d7f9d0202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 09/15] fix: retry interrupted reads when filling the stream
 buffer

---
 src/readable.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/readable.rs b/src/readable.rs
index d6d130a..ce2b82f 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -288,6 +288,16 @@ impl< 'ctx, 'r, 'a, C: Context > Reader< 'r, C > for CopyingBufferReader< 'ctx,
     }
 }
 
+#[cfg(feature = "std")]
+fn read_uninterrupted( reader: &mut impl Read, buffer: &mut [u8] ) -> std::io::Result< usize > {
+    loop {
+        match reader.read( buffer ) {
+            Err( ref error ) if error.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result
+        }
+    }
+}
+
 #[cfg(feature = "std")]
 struct StreamReader< C: Context, S: Read > {
     context: C,
@@ -304,7 +314,7 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             let reader = &mut self.reader;
             while self.buffer.len() < self.buffer.capacity() {
                 let bytes_written = self.buffer.try_append_with( self.buffer.capacity() - self.buffer.len(), |chunk| {
-                    reader.read( chunk )
+                    read_uninterrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
@@ -363,7 +373,7 @@ impl< 'a, C: Context, S: Read > Reader< 'a, C > for StreamReader< C, S > {
                 }
 
                 let bytes_written = self.buffer.try_append_with( chunk_size, |chunk| {
-                    reader.read( chunk )
+                    read_uninterrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
-- 
2.43.0


From ed0d27aef17f4a723d7f880b8690f3d1701d1a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 10/15] fix: return an error instead of aborting when a huge
 vector cannot be allocated

---
 src/reader.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9e11dfc..f688d12 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -526,7 +526,16 @@ pub trait Reader< 'a, C: Context >: Sized {
             return Err( error_end_of_input() );
         }
 
-        let mut vec = Vec::with_capacity( length );
+        let mut vec = if T::minimum_bytes_needed() == 0 || self.can_read_at_least( required ).is_none() {
+            // The length is untrusted and nothing guarantees that there is enough input to back it,
+            // so we must not panic nor abort if it turns out to be too big to be allocated.
+            let mut vec = Vec::new();
+            vec.try_reserve_exact( length ).map_err( |_| crate::error::error_out_of_range_length() )?;
+            vec
+        } else {
+            Vec::with_capacity( length )
+        };
+
         if T::speedy_is_primitive() {
             unsafe {
                 self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, vec.capacity() * core::mem::size_of::< T >() )?;
-- 
2.43.0


From 0473a14d4c34ca781f9fb3081bcde84c4135421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 11/15] fix: never create misaligned references when
 deserializing &[T]

---
 speedy-derive/src/lib.rs     |  6 +++---
 src/error.rs                 |  7 +++++++
 src/private.rs               | 25 ++++++++++++++++++++++++-
 src/readable_unsized_impl.rs | 20 +++++++-------------
 4 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6dd2f61..597296a 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1580,14 +1580,14 @@ fn read_field_body( field: &Field ) -> TokenStream {
                             .ok_or_else( speedy::private::error_unsized )
                             .and_then( |error| error )
                     })
-                    .map( |slice| unsafe { core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, _length_ ) } )
+                    .and_then( |slice| unsafe { speedy::private::cast_bytes_to_slice( slice, _length_ ) } )
             }}
         } else {
             inner = quote! {{
                 _reader_.read_bytes_borrowed_until_eof()
                     .ok_or_else( speedy::private::error_unsized )
-                    .map( |slice| unsafe {
-                        core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, slice.len() / core::mem::size_of::< #inner_ty >() )
+                    .and_then( |slice| unsafe {
+                        speedy::private::cast_bytes_to_slice( slice, slice.len() / core::mem::size_of::< #inner_ty >() )
                     })
             }}
         }
diff --git a/src/error.rs b/src/error.rs
index 531ceba..0b6bd3e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -32,6 +32,7 @@ pub enum ErrorKind {
 
     Unsized,
     EndiannessMismatch,
+    UnalignedInput,
 
     #[cfg(feature = "std")]
     IoError( std::io::Error )
@@ -103,6 +104,7 @@ impl core::fmt::Display for Error {
             ErrorKind::ExpectedConstant { constant } => write!( fmt, "expected a predefined {} bytes(s) long constant", constant.len() ),
             ErrorKind::Unsized => write!( fmt, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it" ),
             ErrorKind::EndiannessMismatch => write!( fmt, "endianness mismatch" ),
+            ErrorKind::UnalignedInput => write!( fmt, "input is not sufficiently aligned for zero-copy deserialization" ),
 
             #[cfg(feature = "std")]
             ErrorKind::IoError( ref error ) => write!( fmt, "{}", error ),
@@ -219,3 +221,8 @@ pub fn error_unsized< T >() -> T where T: From< Error > {
 pub fn error_endianness_mismatch< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::EndiannessMismatch ) )
 }
+
+#[cold]
+pub fn error_unaligned_input< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::UnalignedInput ) )
+}
diff --git a/src/private.rs b/src/private.rs
index 40076e6..9302143 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -8,8 +8,10 @@ use {
     },
 };
 
+use crate::Error;
+
 #[cfg(feature = "alloc")]
-use crate::{Error, error::{error_expected_constant, error_invalid_string_utf8}};
+use crate::error::{error_expected_constant, error_invalid_string_utf8};
 
 #[cfg(feature = "alloc")]
 use alloc::{borrow::Cow, string::String, vec::Vec};
@@ -24,6 +26,7 @@ pub use crate::error::{
     error_invalid_str_utf8,
     error_unsized,
     error_endianness_mismatch,
+    error_unaligned_input,
 
     get_error_kind,
 };
@@ -54,6 +57,26 @@ pub fn cow_bytes_to_cow_str< E >( bytes: Cow<'_, [u8] > ) -> Result< Cow<'_, str
     }
 }
 
+/// Casts a slice of bytes into a slice of `length` elements.
+///
+/// # Safety
+///
+/// `T` must be valid for any bit pattern, and `bytes` must be at least `length * size_of::< T >()` bytes long.
+#[inline(always)]
+pub unsafe fn cast_bytes_to_slice< T, E >( bytes: &[u8], length: usize ) -> Result< &[T], E > where E: From< Error > {
+    if length == 0 {
+        return Ok( &[] );
+    }
+
+    if bytes.as_ptr() as usize % core::mem::align_of::< T >() != 0 {
+        return Err( error_unaligned_input() );
+    }
+
+    unsafe {
+        Ok( core::slice::from_raw_parts( bytes.as_ptr() as *const T, length ) )
+    }
+}
+
 #[inline]
 pub fn write_length_u64_varint< C, W >( length: usize, writer: &mut W ) -> Result< (), C::Error >
     where C: Context,
diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 1285686..cd7a00d 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -42,10 +42,9 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
         let length = crate::private::read_length( reader )?;
         let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
         let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe {
-            core::slice::from_raw_parts( bytes.as_ptr() as *const T, length )
-        };
-        Ok( slice )
+        unsafe {
+            crate::private::cast_bytes_to_slice( bytes, length )
+        }
     }
 
     #[inline]
@@ -54,13 +53,6 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
     }
 }
 
-#[inline(always)]
-unsafe fn cast_slice< T, const N: usize >( slice: &[u8] ) -> &[T; N] {
-    unsafe {
-        &*(slice.as_ptr() as *const [T; N])
-    }
-}
-
 impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where T: crate::utils::ZeroCopyable< C, T > {
     #[inline]
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
@@ -69,8 +61,10 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
         }
 
         let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe { cast_slice( bytes ) };
-        Ok( slice )
+        let slice = unsafe { crate::private::cast_bytes_to_slice( bytes, N )? };
+        unsafe {
+            Ok( &*(slice.as_ptr() as *const [T; N]) )
+        }
     }
 
     #[inline]
-- 
2.43.0


From 1d57af94baab7a4d01ebdb42f61534c44bd18539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 12/15] fix: do not overestimate the minimum size of enums with
 a peeked tag and empty variants

---
 speedy-derive/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 597296a..ef7e597 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2251,11 +2251,13 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let enumeration = Enum::new( &name, &input.attrs, &variants )?;
             let mut variant_matches = Vec::with_capacity( variants.len() );
             let mut variant_minimum_sizes = Vec::with_capacity( variants.len() );
+            let mut has_empty_variant = false;
             for variant in enumeration.variants {
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
                 let variant_path = quote! { #name::#unqualified_ident };
                 let (body, initializer, minimum_bytes) = readable_body( &mut types, &variant.structure );
+                has_empty_variant |= variant.structure.fields.iter().all( |field| field.skip );
                 variant_matches.push( quote! {
                     #tag => {
                         #body
@@ -2306,6 +2308,9 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let minimum_bytes_needed_body =
                 if !enumeration.peek_tag {
                     quote! { (#minimum_bytes_needed_body) + #tag_size }
+                } else if has_empty_variant {
+                    // Such a variant doesn't consume anything, as the peeked tag belongs to whatever comes next.
+                    quote! { 0 }
                 } else {
                     quote! { core::cmp::max( #minimum_bytes_needed_body, #tag_size ) }
                 };
-- 
2.43.0


From d8326c2302115c0c7a55d687f85d1592757ad299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 13/15] Add hooks for the verification harnesses, under --cfg
 speedy_verification

---
 src/circular_buffer.rs | 12 ++++++++++++
 src/private.rs         |  6 ++++++
 src/readable.rs        | 13 +++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/src/circular_buffer.rs b/src/circular_buffer.rs
index 8321eb5..a159e61 100644
--- a/src/circular_buffer.rs
+++ b/src/circular_buffer.rs
@@ -386,6 +386,18 @@ impl CircularBuffer {
     }
 }
 
+/// Access to the state of the buffer for the verification harnesses.
+#[cfg(speedy_verification)]
+impl CircularBuffer {
+    pub fn verification_new( buffer: Box< [u8] >, position: usize, length: usize ) -> Self {
+        CircularBuffer { buffer, position, length }
+    }
+
+    pub fn verification_state( &self ) -> (&[u8], usize, usize) {
+        (&self.buffer, self.position, self.length)
+    }
+}
+
 #[test]
 fn test_circular_buffer_basic() {
     let mut buf = CircularBuffer::new();
diff --git a/src/private.rs b/src/private.rs
index 9302143..dddbede 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -34,6 +34,12 @@ pub use crate::utils::ZeroCopyable;
 
 pub use memoffset::offset_of;
 
+#[cfg(all(feature = "std", speedy_verification))]
+pub use crate::{
+    circular_buffer::CircularBuffer,
+    readable::verification_read_from_stream,
+};
+
 #[cfg(feature = "alloc")]
 #[inline]
 pub fn vec_to_string< E >( bytes: Vec< u8 > ) -> Result< String, E > where E: From< Error > {
diff --git a/src/readable.rs b/src/readable.rs
index ce2b82f..261a8bf 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -427,6 +427,19 @@ impl< C: Context, S: Read > StreamReader< C, S > {
     }
 }
 
+/// Deserializes through a stream reader whose internal buffer is the given one; used by the verification harnesses.
+#[cfg(all(feature = "std", speedy_verification))]
+pub fn verification_read_from_stream< 'a, C: Context, S: Read, T: Readable< 'a, C > >(
+    context: C,
+    reader: S,
+    buffer: CircularBuffer,
+    is_buffering: bool
+) -> (Result< T, C::Error >, CircularBuffer) {
+    let mut reader = StreamReader { context, reader, buffer, is_buffering };
+    let result = T::read_from( &mut reader );
+    (result, reader.buffer)
+}
+
 pub trait Readable< 'a, C: Context >: Sized {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error >;
 
-- 
2.43.0


From 63de88cbd541f2d86d2228c01f61ec9caa7abdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 14/15] fix: do not overestimate the minimum size of enums with
 a peeked tag larger than a variant

---
 speedy-derive/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index ef7e597..6fc7631 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2251,13 +2251,12 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let enumeration = Enum::new( &name, &input.attrs, &variants )?;
             let mut variant_matches = Vec::with_capacity( variants.len() );
             let mut variant_minimum_sizes = Vec::with_capacity( variants.len() );
-            let mut has_empty_variant = false;
+            let mut peeked_variant_minimum_sizes = Vec::with_capacity( variants.len() );
             for variant in enumeration.variants {
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
                 let variant_path = quote! { #name::#unqualified_ident };
                 let (body, initializer, minimum_bytes) = readable_body( &mut types, &variant.structure );
-                has_empty_variant |= variant.structure.fields.iter().all( |field| field.skip );
                 variant_matches.push( quote! {
                     #tag => {
                         #body
@@ -2265,6 +2264,11 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                     }
                 });
 
+                // The peeked tag belongs to whatever comes next, so such a variant only consumes its own fields.
+                peeked_variant_minimum_sizes.push(
+                    if variant.structure.is_guaranteed_non_recursive() { minimum_bytes.clone() } else { quote! { 0 } }
+                );
+
                 if variant.structure.kind != StructKind::Unit {
                     if variant.structure.is_guaranteed_non_recursive() {
                         variant_minimum_sizes.push( minimum_bytes );
@@ -2308,11 +2312,12 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let minimum_bytes_needed_body =
                 if !enumeration.peek_tag {
                     quote! { (#minimum_bytes_needed_body) + #tag_size }
-                } else if has_empty_variant {
-                    // Such a variant doesn't consume anything, as the peeked tag belongs to whatever comes next.
-                    quote! { 0 }
                 } else {
-                    quote! { core::cmp::max( #minimum_bytes_needed_body, #tag_size ) }
+                    quote! {{
+                        let mut out = #tag_size;
+                        #(out = core::cmp::min( out, #peeked_variant_minimum_sizes );)*
+                        out
+                    }}
                 };
 
             (reader_body, minimum_bytes_needed_body, quote! {}, quote! {})
-- 
2.43.0


From 8ad5c1990c714336dee794dab28090313aeb8f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 15/15] fix: generate code which compiles for skipped fields of
 enum variants

---
 speedy-derive/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6fc7631..9c989b3 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1815,22 +1815,24 @@ fn write_field_body( field: &Field ) -> TokenStream {
 }
 
 fn writable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream) {
-    let mut field_names = Vec::new();
+    let mut field_patterns = Vec::new();
     let mut field_writers = Vec::new();
     for field in &st.fields {
+        let name = field.var_name();
         if field.skip {
+            field_patterns.push( if st.kind == StructKind::Named { quote! { #name: _ } } else { quote! { _ } } );
             continue;
         }
 
         let write_value = write_field_body( &field );
         types.extend( field.bound_types() );
 
-        field_names.push( field.var_name().clone() );
+        field_patterns.push( quote! { ref #name } );
         field_writers.push( write_value );
     }
 
     let body = quote! { #(#field_writers)* };
-    let initializer = quote! { #(ref #field_names),* };
+    let initializer = quote! { #(#field_patterns),* };
     let initializer = match st.kind {
         StructKind::Unit => initializer,
         StructKind::Unnamed => quote! { ( #initializer ) },
-- 
2.43.0

