From 97fe0de3ea1db8a31468224edd352914a9f4b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 01/17] fix: load/store 2- and 3-component structures without
 misaligned f64 access

XMFLOAT2/3 and XMINT2/3 are 4-byte aligned; _mm_load_sd/_mm_store_sd dereference an
8-byte aligned f64 pointer, which is undefined behaviour (and aborts with debug assertions).
---
 src/convert.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index cb5e66e..ff1cdb1 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -234,7 +234,7 @@ pub fn XMLoadInt2(
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        return _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        return _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
     }
 }
 
@@ -280,7 +280,7 @@ pub fn XMLoadFloat2(
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        return _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        return _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
     }
 }
 
@@ -313,14 +313,14 @@ pub fn XMLoadInt3(
 
     #[cfg(_XM_SSE4_INTRINSICS_)]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(mem::transmute::<_, *const f32>(&pSource[2]));
         return _mm_insert_ps(xy, z, 0x20);
     }
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(mem::transmute::<_, *const f32>(&pSource[2]));
         return _mm_movelh_ps(xy, z);
     }
@@ -370,14 +370,14 @@ pub fn XMLoadFloat3(
 
     #[cfg(_XM_SSE4_INTRINSICS_)]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(&pSource.z);
         return _mm_insert_ps(xy, z, 0x20);
     }
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(&pSource.z);
         return _mm_movelh_ps(xy, z);
     }
@@ -1050,7 +1050,7 @@ pub fn XMStoreInt2(
 
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
     }
 }
 
@@ -1092,7 +1092,7 @@ pub fn XMStoreFloat2(
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
         let pDestination: *mut XMFLOAT2 = mem::transmute(pDestination);
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
     }
 }
 
@@ -1131,7 +1131,7 @@ pub fn XMStoreInt3(
 
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
-        _mm_store_sd(mem::transmute::<_, *mut f64>(&mut *pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(&mut *pDestination), _mm_castps_si128(V));
         let z: __m128 = XM_PERMUTE_PS!(V, _MM_SHUFFLE(2, 2, 2, 2));
         _mm_store_ss(mem::transmute::<_, *mut f32>(&mut pDestination[2]), z);
     }
@@ -1185,7 +1185,7 @@ pub fn XMStoreFloat3(
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
         let pDestination: *mut XMFLOAT3 = mem::transmute(pDestination);
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
         let z: __m128 = XM_PERMUTE_PS!(V, _MM_SHUFFLE(2, 2, 2, 2));
         _mm_store_ss(&mut (*pDestination).z, z);
     }
-- 
2.43.0


From b3eb4ba11c88d090c9bf4f60b68a7c9bfcea516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 02/17] fix: += and -= on XMMatrix update every row

All four results were written to row 0.
---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 4c78e25..fa4d8f8 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -3785,9 +3785,9 @@ impl std::ops::AddAssign for XMMatrix {
     fn add_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorAdd(self.r[0], M.r[0]);
-            self.r[0] = XMVectorAdd(self.r[1], M.r[1]);
-            self.r[0] = XMVectorAdd(self.r[2], M.r[2]);
-            self.r[0] = XMVectorAdd(self.r[3], M.r[3]);
+            self.r[1] = XMVectorAdd(self.r[1], M.r[1]);
+            self.r[2] = XMVectorAdd(self.r[2], M.r[2]);
+            self.r[3] = XMVectorAdd(self.r[3], M.r[3]);
         }
     }
 }
@@ -3812,9 +3812,9 @@ impl std::ops::SubAssign for XMMatrix {
     fn sub_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorSubtract(self.r[0], M.r[0]);
-            self.r[0] = XMVectorSubtract(self.r[1], M.r[1]);
-            self.r[0] = XMVectorSubtract(self.r[2], M.r[2]);
-            self.r[0] = XMVectorSubtract(self.r[3], M.r[3]);
+            self.r[1] = XMVectorSubtract(self.r[1], M.r[1]);
+            self.r[2] = XMVectorSubtract(self.r[2], M.r[2]);
+            self.r[3] = XMVectorSubtract(self.r[3], M.r[3]);
         }
     }
 }
-- 
2.43.0


From 08f2832fb595a72cb23fee1ce2cbe624195e5848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 03/17] fix: XMVectorSetBinaryConstant tests the low bit of
 every component

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1edfda..b5cc253 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2808,10 +2808,10 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
         let mut vResult: XMVECTORU32 = crate::undefined();
-        vResult.u[0] = (0 - (C0 & 1)) & 0x3F800000;
-        vResult.u[1] = (0 - (C1 & 1)) & 0x3F800000;
-        vResult.u[2] = (0 - (C2 & 1)) & 0x3F800000;
-        vResult.u[3] = (0 - (C3 & 1)) & 0x3F800000;
+        vResult.u[0] = 0u32.wrapping_sub(C0 & 1) & 0x3F800000;
+        vResult.u[1] = 0u32.wrapping_sub(C1 & 1) & 0x3F800000;
+        vResult.u[2] = 0u32.wrapping_sub(C2 & 1) & 0x3F800000;
+        vResult.u[3] = 0u32.wrapping_sub(C3 & 1) & 0x3F800000;
         return vResult.v;
     }
 
@@ -2822,7 +2822,7 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 2, 3, 4] };
+        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 1, 1, 1] };
         let mut vTemp = _mm_set_epi32(C3 as i32, C2 as i32, C1 as i32, C0 as i32);
         // Mask off the low bits
         vTemp = _mm_and_si128(vTemp, g_vMask1.m128i());
-- 
2.43.0


From 23a7092cbbefbeb23e152987409502e09d6e66a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 04/17] fix: XMConvertVectorIntToFloat (no intrinsics) converts
 signed values and divides by 2^exponent

---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index ff1cdb1..dbfb4f5 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -13,10 +13,10 @@ pub fn XMConvertVectorIntToFloat(VInt: FXMVECTOR, DivExponent: u32) -> XMVECTOR
 
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
-        let fScale = 1.0 / (1 >> DivExponent) as f32;
+        let fScale = 1.0 / (1u32 << DivExponent) as f32;
         let mut Result: XMVECTOR = crate::undefined();
         for ElementIndex in 0..4 {
-            let iTemp = VInt.vector4_u32[ElementIndex];
+            let iTemp = VInt.vector4_u32[ElementIndex] as i32;
             Result.vector4_f32[ElementIndex] = iTemp as f32 * fScale;
         }
         return Result;
-- 
2.43.0


From 327027cdf2269f67305f02201afcf2aef69edd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 05/17] fix: XMLoadFloat3x3 keeps the bits of the second row

Merging with an addition turned -0.0 into 0.0 and altered signalling NaNs.
---
 src/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/convert.rs b/src/convert.rs
index dbfb4f5..084a6c4 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -668,7 +668,7 @@ pub fn XMLoadFloat3x3(
 
         let mut M: XMMATRIX  = crate::undefined();
         M.r[0] = _mm_movelh_ps(V1, T1);
-        M.r[1] = _mm_add_ps(T4, T5);
+        M.r[1] = _mm_or_ps(T4, T5);
         M.r[2] = _mm_shuffle_ps(V2, V3, _MM_SHUFFLE(1, 0, 3, 2));
         M.r[3] = *g_XMIdentityR3;
         return M;
-- 
2.43.0


From 4665be8f521d13fd8e315cb1de2be7644fa4bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 06/17] fix: XMVectorInBoundsR (no intrinsics) reports
 CR6BOUNDS

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 704b728..bf0092e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2913,7 +2913,7 @@ pub fn XMVectorInBoundsR(pCR: &mut u32, V: FXMVECTOR, Bounds: FXMVECTOR) -> XMVE
         let mut CR = 0;
         if ubool(ux & uy & uz & uw) {
             // All elements are in bounds
-            CR = XM_CRMASK_CR6TRUE;
+            CR = XM_CRMASK_CR6BOUNDS;
         }
         *pCR = CR;
 
-- 
2.43.0


From 4de1b3579a7d0fba8ae3bec30727be9d160f1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:54 +0000
Subject: [PATCH 07/17] fix: XMVector{2,3,4}Greater[OrEqual]R (no intrinsics)
 report CR6FALSE for unordered components

"No component is greater" was tested with the opposite comparison, which is also false for NaN.
---
 src/vector.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index bf0092e..11fe1c0 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -7542,8 +7542,8 @@ pub fn XMVector2GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -7615,8 +7615,8 @@ pub fn XMVector2GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9359,9 +9359,9 @@ pub fn XMVector3GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] <= V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9435,9 +9435,9 @@ pub fn XMVector3GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11497,10 +11497,10 @@ pub fn XMVector4GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if (V1.vector4_f32[0] <= V2.vector4_f32[0] &&
-            V1.vector4_f32[1] <= V2.vector4_f32[1] &&
-            V1.vector4_f32[2] <= V2.vector4_f32[2] &&
-            V1.vector4_f32[3] <= V2.vector4_f32[3])
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] > V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11578,10 +11578,10 @@ pub fn XMVector4GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]) &&
-            (V1.vector4_f32[3] < V2.vector4_f32[3]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] >= V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
-- 
2.43.0


From 40333465cd6de95a82040f6a43cf3fd2003bce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:54 +0000
Subject: [PATCH 08/17] fix: XMVectorRound (no intrinsics) rounds every
 component, not only the first

---
 src/vector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 11fe1c0..4016684 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -3152,9 +3152,9 @@ pub fn XMVectorRound(V: FXMVECTOR) -> XMVECTOR {
         let Result = XMVECTORF32 {
             f: [
                 round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
+                round_to_nearest(V.vector4_f32[1]),
+                round_to_nearest(V.vector4_f32[2]),
+                round_to_nearest(V.vector4_f32[3]),
             ]
         };
         return Result.v;
-- 
2.43.0


From dd405caff24eb7cbc42a016775d1d2ad95f56fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:54 +0000
Subject: [PATCH 09/17] fix: XMConvertHalfToFloat (no F16C) normalizes
 denormals until the leading bit is found

---
 src/packed_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packed_vector.rs b/src/packed_vector.rs
index 3a62443..8712e1e 100644
--- a/src/packed_vector.rs
+++ b/src/packed_vector.rs
@@ -30,7 +30,7 @@ pub fn XMConvertHalfToFloat(Value: HALF) -> f32 {
             {
                 Exponent = Exponent.wrapping_sub(1);
                 Mantissa <<= 1;
-                if ((Mantissa & 0x0400) == 0) {
+                if ((Mantissa & 0x0400) != 0) {
                     break;
                 }
             }
-- 
2.43.0


From caa47f4a2d536201fe181de901371ebada2474c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:28 +0000
Subject: [PATCH 10/17] fix: BoundingOrientedBox::CreateFromPoints rotates
 every point into the box frame

---
 src/collision.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index a7f8cfc..c22b5f1 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -3273,11 +3273,11 @@ impl BoundingOrientedBox {
         //for (let i: size_t = 1; i < Count; ++i)
         for (i, point) in pPoints.enumerate()
         {
-            let Point: XMVECTOR = XMLoadFloat3(point);
+            let Point: XMVECTOR = XMVector3TransformNormal(XMLoadFloat3(point), InverseR);
 
             if i == 0 {
-                vMin = XMVector3TransformNormal(Point, InverseR);
-                vMax = vMin;
+                vMin = Point;
+                vMax = Point;
             } else {
                 vMin = XMVectorMin(vMin, Point);
                 vMax = XMVectorMax(vMax, Point);
-- 
2.43.0


From ca5e3353f966967e790c724886571c04180a6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:28 +0000
Subject: [PATCH 11/17] fix: BoundingFrustum::IntersectsTriangle tests the
 triangle in the frustum's local space

---
 src/collision.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index c22b5f1..d2707ac 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -4434,8 +4434,8 @@ impl BoundingFrustum {
        Corners[7] = XMVectorMultiply(vLeftBottom, vFar);
 
        // Test the plane of the triangle.
-       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(V1, V0), XMVectorSubtract(V2, V0));
-       let Dist: XMVECTOR = XMVector3Dot(Normal, V0);
+       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(TV1, TV0), XMVectorSubtract(TV2, TV0));
+       let Dist: XMVECTOR = XMVector3Dot(Normal, TV0);
 
        let mut MinDist: XMVECTOR;
        let mut MaxDist: XMVECTOR;
@@ -4457,9 +4457,9 @@ impl BoundingFrustum {
 
        // Check the edge/edge axes (3*6).
        let mut TriangleEdgeAxis: [XMVECTOR; 3] = unsafe { undefined() };
-       TriangleEdgeAxis[0] = XMVectorSubtract(V1, V0);
-       TriangleEdgeAxis[1] = XMVectorSubtract(V2, V1);
-       TriangleEdgeAxis[2] = XMVectorSubtract(V0, V2);
+       TriangleEdgeAxis[0] = XMVectorSubtract(TV1, TV0);
+       TriangleEdgeAxis[1] = XMVectorSubtract(TV2, TV1);
+       TriangleEdgeAxis[2] = XMVectorSubtract(TV0, TV2);
 
        let mut FrustumEdgeAxis: [XMVECTOR; 6] = unsafe { undefined() };
        FrustumEdgeAxis[0] = vRightTop;
@@ -4480,9 +4480,9 @@ impl BoundingFrustum {
                let mut MinA: XMVECTOR;
                let mut MaxA: XMVECTOR;
 
-               let Dist0: XMVECTOR = XMVector3Dot(V0, Axis);
-               let Dist1: XMVECTOR = XMVector3Dot(V1, Axis);
-               let Dist2: XMVECTOR = XMVector3Dot(V2, Axis);
+               let Dist0: XMVECTOR = XMVector3Dot(TV0, Axis);
+               let Dist1: XMVECTOR = XMVector3Dot(TV1, Axis);
+               let Dist2: XMVECTOR = XMVector3Dot(TV2, Axis);
 
                MinA = XMVectorMin(Dist0, Dist1);
                MinA = XMVectorMin(MinA, Dist2);
-- 
2.43.0


From 5a1e9d22de13d9dfef021b6df7f332c1654ada67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:28 +0000
Subject: [PATCH 12/17] fix: triangle_tests::IntersectsTriangle snaps ADist by
 its own magnitude

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index d2707ac..d93ca4a 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5271,7 +5271,7 @@ pub mod triangle_tests {
 
         // Ensure robustness with co-planar triangles by zeroing small distances.
         let mut ADistIsZeroCR: u32 = unsafe { undefined() };
-        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(BDist));
+        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(ADist));
         ADist = XMVectorSelect(ADist, Zero, ADistIsZero);
 
         let mut ADistIsLessCR: u32 = unsafe { undefined() };
-- 
2.43.0


From e18d47671d7469544638cd1d20c6fdab0a5bf9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:28 +0000
Subject: [PATCH 13/17] fix: triangle_tests::IntersectsTriangle uses outward
 edge axes for coplanar triangles

---
 src/collision.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index d93ca4a..0d063ce 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5293,7 +5293,7 @@ pub mod triangle_tests {
             let mut MinDist: XMVECTOR;
 
             // Compute an axis perpindicular to the edge (points out).
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A1, A0));
+            Axis = XMVector3Cross(XMVectorSubtract(A1, A0), N1);
             Dist = XMVector3Dot(Axis, A0);
 
             // Test points of B against the axis.
@@ -5305,7 +5305,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A1, A2)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A2, A1));
+            Axis = XMVector3Cross(XMVectorSubtract(A2, A1), N1);
             Dist = XMVector3Dot(Axis, A1);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5316,7 +5316,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A2, A0)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A0, A2));
+            Axis = XMVector3Cross(XMVectorSubtract(A0, A2), N1);
             Dist = XMVector3Dot(Axis, A2);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5327,7 +5327,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B0, B1)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B1, B0));
+            Axis = XMVector3Cross(XMVectorSubtract(B1, B0), N2);
             Dist = XMVector3Dot(Axis, B0);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5338,7 +5338,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B1, B2)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B2, B1));
+            Axis = XMVector3Cross(XMVectorSubtract(B2, B1), N2);
             Dist = XMVector3Dot(Axis, B1);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5349,7 +5349,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B2,B0)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B0, B2));
+            Axis = XMVector3Cross(XMVectorSubtract(B0, B2), N2);
             Dist = XMVector3Dot(Axis, B2);
 
             MinDist = XMVector3Dot(A0, Axis);
-- 
2.43.0


From 54155574fe58a7aede8539689b5fd45838de8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:30 +0000
Subject: [PATCH 14/17] fix: XMMatrixDecompose uses the x, y, z basis vectors
 for degenerate axes

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index fa4d8f8..9d6c763 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1370,8 +1370,8 @@ pub fn XMMatrixDecompose(
         // PERFORMANCE: We're using a static here insteads of const due to the references
         static pvCanonicalBasis: [&XMVECTOR; 3] = unsafe {[
             &g_XMIdentityR0.v,
+            &g_XMIdentityR1.v,
             &g_XMIdentityR2.v,
-            &g_XMIdentityR3.v,
         ]};
 
         // Get the translation
-- 
2.43.0


From f6583ec71d549534b6043d166a564fea978122ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:01 +0000
Subject: [PATCH 15/17] fix: XMVectorSwizzle (SSE) indexes the components with
 bounds checks

The SSE body read through a raw pointer with the caller's indices; with debug assertions off an
index of 4 or more read outside the vector from a safe function.
---
 src/vector.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 4016684..79689e7 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1574,18 +1574,16 @@ pub fn XMVectorSwizzle(
 
     #[cfg(all(not(_XM_AVX_INTRINSICS_), _XM_SSE_INTRINSICS_))]
     unsafe {
-        let aPtr = mem::transmute::<_, *const u32>(&V);
+        let a: [u32; 4] = mem::transmute(V);
 
-        let mut Result: XMVECTOR = crate::undefined();
-
-        let pWork = mem::transmute::<_, *mut u32>(&mut Result);
-
-        idx!(mut pWork[0]) = idx!(aPtr[E0]);
-        idx!(mut pWork[1]) = idx!(aPtr[E1]);
-        idx!(mut pWork[2]) = idx!(aPtr[E2]);
-        idx!(mut pWork[3]) = idx!(aPtr[E3]);
+        let Result: [u32; 4] = [
+            a[E0 as usize],
+            a[E1 as usize],
+            a[E2 as usize],
+            a[E3 as usize],
+        ];
 
-        return Result;
+        return mem::transmute(Result);
     }
 }
 
-- 
2.43.0


From f5e30a44aa344cca54b9b7838fa7fc89066695ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:50 +0000
Subject: [PATCH 16/17] fix: XMPlaneNormalize no longer executes an SSE4.1
 instruction in builds without SSE4.1

---
 src/misc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/misc.rs b/src/misc.rs
index e3c685d..e29d2f4 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -2027,7 +2027,13 @@ pub fn XMPlaneNormalize(
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let mut vLengthSq: XMVECTOR = _mm_dp_ps(P, P, 0x7f);
+        // Perform the dot product on x,y and z only
+        let mut vLengthSq: XMVECTOR = _mm_mul_ps(P, P);
+        let mut vTemp: XMVECTOR = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(2, 1, 2, 1));
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        vTemp = XM_PERMUTE_PS!(vTemp, _MM_SHUFFLE(1, 1, 1, 1));
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        vLengthSq = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(0, 0, 0, 0));
         // Prepare for the division
         let mut vResult: XMVECTOR = _mm_sqrt_ps(vLengthSq);
         // Failsafe on zero (Or epsilon) length planes
-- 
2.43.0


From 83e3f4e22bed3e7ff6684e64b3249c1d487a1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:18 +0000
Subject: [PATCH 17/17] fix: XMMatrixMultiply and XMMatrixMultiplyTranspose
 need FMA for their AVX2 bodies

---
 src/matrix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9d6c763..1a37f20 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -299,7 +299,7 @@ pub fn XMMatrixMultiply(
         unimplemented!()
     }
 
-    #[cfg(_XM_AVX2_INTRINSICS_)]
+    #[cfg(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))]
     unsafe {
         let mut t0: __m256 = _mm256_castps128_ps256(M1.r[0]);
         t0 = _mm256_insertf128_ps(t0, M1.r[1], 1);
@@ -346,7 +346,7 @@ pub fn XMMatrixMultiply(
         return mResult;
     }
 
-    #[cfg(all(_XM_AVX_INTRINSICS_, not(_XM_AVX2_INTRINSICS_)))]
+    #[cfg(all(any(_XM_AVX_INTRINSICS_, _XM_AVX2_INTRINSICS_), not(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))))]
     unsafe {
         let mut mResult: XMMATRIX = crate::undefined();
 
@@ -599,7 +599,7 @@ pub fn XMMatrixMultiplyTranspose(
         unimplemented!()
     }
 
-    #[cfg(_XM_AVX2_INTRINSICS_)]
+    #[cfg(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))]
     unsafe {
         let mut t0: __m256 = _mm256_castps128_ps256(M1.r[0]);
         t0 = _mm256_insertf128_ps(t0, M1.r[1], 1);
@@ -656,7 +656,7 @@ pub fn XMMatrixMultiplyTranspose(
         return mResult;
     }
 
-    #[cfg(all(_XM_AVX_INTRINSICS_, not(_XM_AVX2_INTRINSICS_)))]
+    #[cfg(all(any(_XM_AVX_INTRINSICS_, _XM_AVX2_INTRINSICS_), not(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))))]
     unsafe {
         // Splat the component X,Y,Z then W
         let mut vX: XMVECTOR = _mm_broadcast_ss(&*mem::transmute::<_, *const f32>(&idx!(f32x4(M1.r[0])[0])));
-- 
2.43.0

