From 58d8d6a8a14572c3e8c3d921fe662d279a6ec0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 01/15] fix: reject every surrogate code point when decoding a
 character

---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 6fc748d..b192e85 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -245,7 +245,7 @@ impl Decode for char {
 		let Ok(code_point) = u32::decode(input);
 
 		match code_point {
-			code_point @ (0x0000..=0xD7FF | 0xDE00..=0x10FFFF) => {
+			code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {
 				let this = unsafe { Self::from_u32_unchecked(code_point) };
 				Result::Ok(this)
 			},
-- 
2.43.0


From 17f95f6823ab7333e0beb5bffaaf851d55433397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 02/15] fix: encode the length of hash maps and hash sets, as
 their decoders read it

---
 oct/src/encode/encode/mod.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 37c61e4..cac1c1e 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -343,13 +343,24 @@ where
 	V: Encode<Error = E>,
 	S: BuildHasher,
 {
-	type Error = E;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
+	/// Encodes each key-value pair sequentially with an extra length specifier (of type [`usize`]) prepended first.
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for (key, value) in self {
-			key.encode(output)?;
-			value.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, (key, value)) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
+
+			value
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
@@ -363,12 +374,20 @@ where
 	K: Encode,
 	S: BuildHasher,
 {
-	type Error = K::Error;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, K::Error>>;
 
+	/// Encodes each key sequentially with an extra length specifier (of type [`usize`]) prepended first.
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for key in self {
-			key.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, key) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From 8f4f0f8b5a1a28f53adcc059a6bf718eb8d45528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 03/15] fix: decode only the encoded number of elements into a
 sized slice

---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2df99a7..f924b84 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,7 +36,7 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate() {
+		for (i, slot) in buf.iter_mut().take(len).enumerate() {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-- 
2.43.0


From f2b7395d62ab54059da016960f0909056290a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 04/15] fix: count the length specifier in the maximum encoded
 size of sized slices

---
 oct/src/sized_slice/code.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index f924b84..2f4d504 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -59,5 +59,7 @@ impl<T: Encode, const N: usize> Encode for SizedSlice<T, N> {
 }
 
 impl<T: SizedEncode, const N: usize> SizedEncode for SizedSlice<T, N> {
-	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;
+	const MAX_ENCODED_SIZE: usize =
+		usize::MAX_ENCODED_SIZE
+		+ T::MAX_ENCODED_SIZE * N;
 }
-- 
2.43.0


From 4b8172338d1055f25e7e9fa8013ae0aee9da5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 05/15] fix: compute the maximum encoded size of results from
 encodings, not memory layouts

---
 oct/src/encode/sized_encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 9aef887..6c60dab 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -232,7 +232,7 @@ where
 {
 	const MAX_ENCODED_SIZE: usize =
 		bool::MAX_ENCODED_SIZE
-		+ if size_of::<T>() > size_of::<E>() { size_of::<T>() } else { size_of::<E>() };
+		+ if T::MAX_ENCODED_SIZE > E::MAX_ENCODED_SIZE { T::MAX_ENCODED_SIZE } else { E::MAX_ENCODED_SIZE };
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 0d30441777fcb671906c28a7c7bf97eed4217359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 06/15] fix: only pass the used part of a slot to the decoder

---
 oct/src/slot/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/slot/mod.rs b/oct/src/slot/mod.rs
index 0acf598..4c96d82 100644
--- a/oct/src/slot/mod.rs
+++ b/oct/src/slot/mod.rs
@@ -296,7 +296,7 @@ impl<T: Decode> Slot<T> {
 		// We should only pass the used part of the slot to
 		// `decode`.
 
-		let mut stream = Input::new(&self.buf);
+		let mut stream = Input::new(self.as_slice());
 
 		let value = Decode::decode(&mut stream)?;
 		Ok(value)
-- 
2.43.0


From ee3871f7be631257f2f150a635215aad66fbcfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 07/15] fix: check bounds when copying into a sized slice

---
 oct/src/sized_slice/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index b0884b9..7171d55 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -77,11 +77,19 @@ pub struct SizedSlice<T, const N: usize> {
 
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Copies elements from a slice.
+	///
+	/// The length of `self` is updated to reflect the new data.
+	///
+	/// # Panics
+	///
+	/// If `self` cannot contain the entirety of `data`, then this method will panic.
 	#[inline]
 	pub const fn copy_from_slice(&mut self, data: &[T])
 	where
 		T: Copy,
 	{
+		assert!(data.len() <= N, "sized slice cannot contain source slice");
+
 		unsafe {
 			let src  = data.as_ptr();
 			let dst   = self.buf.as_mut_ptr().cast();
-- 
2.43.0


From ba6cceaab07a9feccce1a4afa9655e700864c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 08/15] fix: do not drop the elements of an array moved into a
 sized slice

---
 oct/src/sized_slice/conv.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index dad9071..5a44833 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -23,7 +23,7 @@ use crate::SizedSlice;
 use crate::error::LengthError;
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -194,6 +194,9 @@ impl<T, const N: usize> DerefMut for SizedSlice<T, N> {
 impl<T, const N: usize> From<[T; N]> for SizedSlice<T, N> {
 	#[inline(always)]
 	fn from(value: [T; N]) -> Self {
+		// The elements are moved into the new slice.
+		let value = ManuallyDrop::new(value);
+
 		unsafe {
 			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();
 
-- 
2.43.0


From 7d5c4a0c80aff1a7eba8bdd403a6ba8987398053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 09/15] fix: do not allocate with a zero-sized layout when
 boxing a sized slice

---
 oct/src/sized_slice/conv.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index 5a44833..85293f3 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -28,9 +28,6 @@ use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
 
-#[cfg(feature = "alloc")]
-use alloc::alloc::{alloc, Layout};
-
 #[cfg(feature = "alloc")]
 use alloc::boxed::Box;
 
@@ -120,15 +117,12 @@ impl<T, const N: usize> SizedSlice<T, N> {
 		let (buf, len) = self.into_raw_parts();
 
 		unsafe {
-			let layout = Layout::array::<T>(len).unwrap();
-			let ptr = alloc(layout).cast::<T>();
-
-			assert!(!ptr.is_null(), "allocation failed");
+			let mut v = Vec::<T>::with_capacity(len);
 
-			copy_nonoverlapping(buf.as_ptr().cast(), ptr, len);
+			copy_nonoverlapping(buf.as_ptr().cast(), v.as_mut_ptr(), len);
+			v.set_len(len);
 
-			let slice = core::ptr::slice_from_raw_parts_mut(ptr, len);
-			Box::from_raw(slice)
+			v.into_boxed_slice()
 
 			// `self.buf` is dropped without destructors being
 			// run.
-- 
2.43.0


From f05849dd25f0136324085e07decfc139b5d5ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 10/15] fix: report the number of remaining elements from the
 sized iterator

---
 oct/src/sized_iter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index 493e37c..c893985 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -176,7 +176,7 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline(always)]
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let rem = unsafe { self.len.unchecked_sub(self.pos) };
+		let rem = self.len;
 
 		(rem, Some(rem))
 	}
-- 
2.43.0


From 466d8bcb98da7ff62dfd0f07bee7f627868a7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 11/15] fix: hash sized slices identically to the slices they
 borrow as

---
 oct/src/sized_slice/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 7171d55..5a22ad9 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -262,9 +262,7 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		for v in self {
-			v.hash(state);
-		}
+		self.as_slice().hash(state);
 	}
 }
 
-- 
2.43.0


From 49df0bcb9625f4d4ddfdd4e34dc42e6ac0e2d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 12/15] fix: do not overflow when encoding the earliest system
 time

---
 oct/src/encode/encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index cac1c1e..b7fe86e 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -819,7 +819,7 @@ impl Encode for SystemTime {
 				.duration_since(*self)
 				.expect("cannot compute duration until the epoch");
 
-			0x0 - duration.as_secs() as i64
+			(duration.as_secs() as i64).wrapping_neg()
 		};
 
 		time.encode(output)?;
-- 
2.43.0


From 153096bab45978dc89d42b6cff0295285bca87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 13/15] fix: zero-extend signed discriminants, as documented

---
 oct/src/primitive_discriminant/mod.rs | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/oct/src/primitive_discriminant/mod.rs b/oct/src/primitive_discriminant/mod.rs
index ff4b75c..1d5e82c 100644
--- a/oct/src/primitive_discriminant/mod.rs
+++ b/oct/src/primitive_discriminant/mod.rs
@@ -45,12 +45,12 @@ pub(crate) use sealed::PrimitiveDiscriminant as SealedPrimitiveDiscriminant;
 pub trait PrimitiveDiscriminant: Copy + SealedPrimitiveDiscriminant + Sized { }
 
 macro_rules! impl_primitive_discriminant {
-	($ty:ty) => {
+	($ty:ty, $unsigned:ty$(,)?) => {
 		impl ::oct::SealedPrimitiveDiscriminant for $ty {
 			#[allow(clippy::cast_lossless)]
 			#[inline(always)]
 			fn to_u128(self) -> u128 {
-				self as u128
+				self as $unsigned as u128
 			}
 		}
 
@@ -58,15 +58,15 @@ macro_rules! impl_primitive_discriminant {
 	};
 }
 
-impl_primitive_discriminant!(u8);
-impl_primitive_discriminant!(i8);
-impl_primitive_discriminant!(u16);
-impl_primitive_discriminant!(i16);
-impl_primitive_discriminant!(u32);
-impl_primitive_discriminant!(i32);
-impl_primitive_discriminant!(u64);
-impl_primitive_discriminant!(i64);
-impl_primitive_discriminant!(u128);
-impl_primitive_discriminant!(i128);
-impl_primitive_discriminant!(usize);
-impl_primitive_discriminant!(isize);
+impl_primitive_discriminant!(u8, u8);
+impl_primitive_discriminant!(i8, u8);
+impl_primitive_discriminant!(u16, u16);
+impl_primitive_discriminant!(i16, u16);
+impl_primitive_discriminant!(u32, u32);
+impl_primitive_discriminant!(i32, u32);
+impl_primitive_discriminant!(u64, u64);
+impl_primitive_discriminant!(i64, u64);
+impl_primitive_discriminant!(u128, u128);
+impl_primitive_discriminant!(i128, u128);
+impl_primitive_discriminant!(usize, usize);
+impl_primitive_discriminant!(isize, usize);
-- 
2.43.0


From 8f5669815ebd32e27e6d2e82c1b31bbe203c874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 14/15] fix: initialise the whole buffer of default and cloned
 sized strings

---
 oct/src/sized_str/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_str/mod.rs b/oct/src/sized_str/mod.rs
index 09b3044..cc2e556 100644
--- a/oct/src/sized_str/mod.rs
+++ b/oct/src/sized_str/mod.rs
@@ -71,7 +71,6 @@ mod conv;
 /// assert_eq!(size_of_val(&str1), size_of_val(&str3));
 /// assert_eq!(size_of_val(&str2), size_of_val(&str3));
 /// ```
-#[derive(Clone, Default)]
 pub struct SizedStr<const N: usize>(SizedSlice<u8, N>);
 
 impl<const N: usize> SizedStr<N> {
@@ -135,6 +134,18 @@ impl<const N: usize> SizedStr<N> {
 	}
 }
 
+impl<const N: usize> Clone for SizedStr<N> {
+	#[inline]
+	fn clone(&self) -> Self {
+		// All octets of the buffer must be initialised, in-
+		// cluding the unused ones.
+
+		// SAFETY: `self` is valid UTF-8 and cannot be long-
+		// er than `N`.
+		unsafe { Self::from_utf8_unchecked(self.as_bytes()) }
+	}
+}
+
 impl<const N: usize> Debug for SizedStr<N> {
 	#[inline(always)]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
@@ -142,6 +153,14 @@ impl<const N: usize> Debug for SizedStr<N> {
 	}
 }
 
+impl<const N: usize> Default for SizedStr<N> {
+	#[inline]
+	fn default() -> Self {
+		// SAFETY: The resulting string is zero lengthed.
+		unsafe { Self::from_raw_parts([0x00; N], 0x0) }
+	}
+}
+
 impl<const N: usize> Display for SizedStr<N> {
 	#[inline(always)]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-- 
2.43.0


From 7cbaac2edf1c05f60512c78803d3c10f9f3d76e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:45 +0000
Subject: [PATCH 15/15] fix: derives refused types with defaulted generic
 parameters

---
 oct-macros/src/impl_derive_macro.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oct-macros/src/impl_derive_macro.rs b/oct-macros/src/impl_derive_macro.rs
index 16cd014..6881c41 100644
--- a/oct-macros/src/impl_derive_macro.rs
+++ b/oct-macros/src/impl_derive_macro.rs
@@ -63,13 +63,15 @@ where
 		Data::Union(..) => panic!("unions cannot derive `{trait_name:?}`"),
 	};
 
-	let generic_params = &input.generics.params;
-	let generic_where  = &input.generics.where_clause;
+	// NOTE: Unlike `generics.params`, this drops the de-
+	// faults of parameters, as these are not permitted in
+	// implementations.
+	let (generic_params, _, generic_where) = input.generics.split_for_impl();
 
 	let generic_names = GenericName::extract_from(&input.generics);
 
 	let output = quote! {
-		#unsafe_token impl<#generic_params> #trait_path for #self_name<#generic_names>
+		#unsafe_token impl #generic_params #trait_path for #self_name<#generic_names>
 		#generic_where
 		{
 			#body
-- 
2.43.0

