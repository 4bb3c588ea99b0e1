From fe360fc6b720ca0b339289ff1207fa689067f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:20 +0000
Subject: [PATCH 1/6] fix: rotate_left/rotate_right on signed vectors shifted
 in sign bits

The rotates combined a left shift with an arithmetic right shift, so any
negative lane came out wrong, and reduced the amount with a signed
remainder, which left negative amounts as over-long shifts.
---
 src/api/ops/vector_rotates.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/api/ops/vector_rotates.rs b/src/api/ops/vector_rotates.rs
index 6c4bed7..1dde0a3 100644
--- a/src/api/ops/vector_rotates.rs
+++ b/src/api/ops/vector_rotates.rs
@@ -15,8 +15,14 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self << n) | (self >> ((LANE_WIDTH - n) % LANE_WIDTH))
+                let n = n & (LANE_WIDTH - 1);
+                let m = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                let mut wrapped = self >> m;
+                if $elem_ty::MIN != 0 {
+                    // `>>` is arithmetic on signed lanes: clear the sign bits
+                    wrapped &= !($id::splat(!0) << n);
+                }
+                (self << n) | wrapped
             }
 
             /// Shifts the bits of each lane to the right by the specified
@@ -30,8 +36,14 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self >> n) | (self << ((LANE_WIDTH - n) % LANE_WIDTH))
+                let n = n & (LANE_WIDTH - 1);
+                let m = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                let mut shifted = self >> n;
+                if $elem_ty::MIN != 0 {
+                    // `>>` is arithmetic on signed lanes: clear the sign bits
+                    shifted &= !($id::splat(!0) << m);
+                }
+                shifted | (self << m)
             }
         }
 
-- 
2.43.0


From bcfbdd8c0314f19901e83cfe304c71fa7ee562d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:09 +0000
Subject: [PATCH 2/6] fix: casting i128x1/u128x1 to m128x1 produced
 non-canonical masks

The lane was reinterpreted instead of being compared against zero, unlike
every other cast to a mask, so the resulting lane was neither true nor
false (all ones or all zeros).
---
 src/api/cast/v128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/cast/v128.rs b/src/api/cast/v128.rs
index 2e10b97..e310a35 100644
--- a/src/api/cast/v128.rs
+++ b/src/api/cast/v128.rs
@@ -299,4 +299,4 @@ impl_from_cast_mask!(
 // FIXME[test_v128]: 64-bit single element vectors into_cast impls
 impl_from_cast!(i128x1[test_v128]: u128x1, m128x1);
 impl_from_cast!(u128x1[test_v128]: i128x1, m128x1);
-impl_from_cast!(m128x1[test_v128]: i128x1, u128x1);
+impl_from_cast_mask!(m128x1[test_v128]: i128x1, u128x1);
-- 
2.43.0


From 43a3bbfcdeeacee6263a03aa2a262e09307e1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:09 +0000
Subject: [PATCH 3/6] fix: casting out-of-range floats to integers was
 undefined behaviour

Numeric casts are documented to behave like `as` and are safe, but
simd_cast yields poison for NaN and for floats that do not fit the
destination; simd_as saturates and maps NaN to zero, and is identical
otherwise.
---
 src/api/cast/macros.rs | 4 ++--
 src/codegen/llvm.rs    | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/cast/macros.rs b/src/api/cast/macros.rs
index 3bb29f0..3f980f8 100644
--- a/src/api/cast/macros.rs
+++ b/src/api/cast/macros.rs
@@ -5,9 +5,9 @@ macro_rules! impl_from_cast_ {
         impl crate::api::cast::FromCast<$from_ty> for $id {
             #[inline]
             fn from_cast(x: $from_ty) -> Self {
-                use crate::llvm::simd_cast;
+                use crate::llvm::simd_as;
                 debug_assert_eq!($from_ty::lanes(), $id::lanes());
-                Simd(unsafe { simd_cast(x.0) })
+                Simd(unsafe { simd_as(x.0) })
             }
         }
 
diff --git a/src/codegen/llvm.rs b/src/codegen/llvm.rs
index bb482fa..f3a1e31 100644
--- a/src/codegen/llvm.rs
+++ b/src/codegen/llvm.rs
@@ -81,6 +81,7 @@ extern "platform-intrinsic" {
     pub(crate) fn simd_extract<T, U>(x: T, idx: u32) -> U;
 
     pub(crate) fn simd_cast<T, U>(x: T) -> U;
+    pub(crate) fn simd_as<T, U>(x: T) -> U;
 
     pub(crate) fn simd_add<T>(x: T, y: T) -> T;
     pub(crate) fn simd_sub<T>(x: T, y: T) -> T;
-- 
2.43.0


From 1e34c4baaa7414c372b4795a37801ae840d5e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:09 +0000
Subject: [PATCH 4/6] fix: implement 32-lane shuffles for 16-bit masks

m16x32 was the only vector type whose own lane count shuffle! could not
produce.
---
 src/codegen/shuffle.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index d3acd48..97a605b 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -50,6 +50,7 @@ impl_shuffle! { [u32; 2], m16, crate::codegen::m16x2 }
 impl_shuffle! { [u32; 4], m16, crate::codegen::m16x4 }
 impl_shuffle! { [u32; 8], m16, crate::codegen::m16x8 }
 impl_shuffle! { [u32; 16], m16, crate::codegen::m16x16 }
+impl_shuffle! { [u32; 32], m16, crate::codegen::m16x32 }
 
 impl_shuffle! { [u32; 2], i32, crate::codegen::i32x2 }
 impl_shuffle! { [u32; 4], i32, crate::codegen::i32x4 }
-- 
2.43.0


From 71dac4e34539da458b7f5ad5dea79ccb216cba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:43 +0000
Subject: [PATCH 5/6] fix: offset_from on pointer vectors returned the negated
 distance

offset_from is documented as the inverse of offset, but it subtracted
self from origin.
---
 src/api/minimal/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/minimal/ptr.rs b/src/api/minimal/ptr.rs
index d9e47c9..290ffb5 100644
--- a/src/api/minimal/ptr.rs
+++ b/src/api/minimal/ptr.rs
@@ -1166,7 +1166,7 @@ macro_rules! impl_minimal_p {
                 let x: $isize_ty = unsafe { crate::mem::transmute(self) };
                 let y: $isize_ty = unsafe { crate::mem::transmute(origin) };
                 // note: {-,/} currently perform wrapping_{sub, div}
-                (y - x) / (crate::mem::size_of::<T>() as isize)
+                (x - y) / (crate::mem::size_of::<T>() as isize)
             }
 
             /// Calculates the offset from a pointer (convenience for
-- 
2.43.0


From 009670e472fc23b0b8e95c70d915e358611f7bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 6/6] fix: shuffle! on pointer vectors did not type-check

The shuffle output of a pointer lane type named a vector of pointees, which
is not the tuple type of any pointer vector.
---
 src/codegen/shuffle.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index 97a605b..f8b132f 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -114,28 +114,28 @@ impl_shuffle! { [u32; 8], msize, crate::codegen::msizex8 }
 
 impl<T> Seal<[u32; 2]> for *const T {}
 impl<T> Shuffle<[u32; 2]> for *const T {
-    type Output = crate::codegen::cptrx2<T>;
+    type Output = crate::codegen::cptrx2<*const T>;
 }
 impl<T> Seal<[u32; 4]> for *const T {}
 impl<T> Shuffle<[u32; 4]> for *const T {
-    type Output = crate::codegen::cptrx4<T>;
+    type Output = crate::codegen::cptrx4<*const T>;
 }
 impl<T> Seal<[u32; 8]> for *const T {}
 impl<T> Shuffle<[u32; 8]> for *const T {
-    type Output = crate::codegen::cptrx8<T>;
+    type Output = crate::codegen::cptrx8<*const T>;
 }
 
 impl<T> Seal<[u32; 2]> for *mut T {}
 impl<T> Shuffle<[u32; 2]> for *mut T {
-    type Output = crate::codegen::mptrx2<T>;
+    type Output = crate::codegen::mptrx2<*mut T>;
 }
 impl<T> Seal<[u32; 4]> for *mut T {}
 impl<T> Shuffle<[u32; 4]> for *mut T {
-    type Output = crate::codegen::mptrx4<T>;
+    type Output = crate::codegen::mptrx4<*mut T>;
 }
 impl<T> Seal<[u32; 8]> for *mut T {}
 impl<T> Shuffle<[u32; 8]> for *mut T {
-    type Output = crate::codegen::mptrx8<T>;
+    type Output = crate::codegen::mptrx8<*mut T>;
 }
 
 impl_shuffle! { [u32; 1], i128, crate::codegen::i128x1 }
-- 
2.43.0

