// GENERATED by dxv/gen_harness2.py - do not edit.
use crate::util::*;
use directx_math::*;
use directx_math::collision::*;

#[no_mangle] pub unsafe extern "C" fn h_Sphere_TransformMatrix(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingSphere)).TransformMatrix(&mut *(o.add(0) as *mut BoundingSphere), lm(i.add(4)));  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_TransformDecomposed(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingSphere)).TransformDecomposed(&mut *(o.add(0) as *mut BoundingSphere), f32::from_bits(*i.add(4)), lv(i.add(5)), lv(i.add(9)));  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_ContainsPoint(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).ContainsPoint(lv(i.add(4))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_ContainsTriangle(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).ContainsTriangle(lv(i.add(4)), lv(i.add(8)), lv(i.add(12))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_IntersectsTriangle(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).IntersectsTriangle(lv(i.add(4)), lv(i.add(8)), lv(i.add(12))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_ContainsSphere(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).ContainsSphere((&*(i.add(4) as *const BoundingSphere))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_IntersectsSphere(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).IntersectsSphere((&*(i.add(4) as *const BoundingSphere))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_ContainsBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).ContainsBox((&*(i.add(4) as *const BoundingBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_IntersectsBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).IntersectsBox((&*(i.add(4) as *const BoundingBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_ContainsOrientedBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).ContainsOrientedBox((&*(i.add(4) as *const BoundingOrientedBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_IntersectsOrientedBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).IntersectsOrientedBox((&*(i.add(4) as *const BoundingOrientedBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_ContainsFrustum(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).ContainsFrustum((&*(i.add(4) as *const BoundingFrustum))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_IntersectsFrustum(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).IntersectsFrustum((&*(i.add(4) as *const BoundingFrustum))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_IntersectsPlane(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).IntersectsPlane(lv(i.add(4))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_IntersectsRay(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).IntersectsRay(lv(i.add(4)), lv(i.add(8)), &mut *(o.add(0) as *mut f32)); *o.add(1) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_ContainedBy(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingSphere)).ContainedBy(lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16)), lv(i.add(20)), lv(i.add(24))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_TransformMatrix(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingBox)).TransformMatrix(&mut *(o.add(0) as *mut BoundingBox), lm(i.add(6)));  }
#[no_mangle] pub unsafe extern "C" fn h_Box_TransformDecomposed(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingBox)).TransformDecomposed(&mut *(o.add(0) as *mut BoundingBox), f32::from_bits(*i.add(6)), lv(i.add(7)), lv(i.add(11)));  }
#[no_mangle] pub unsafe extern "C" fn h_Box_ContainsPoint(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).ContainsPoint(lv(i.add(6))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_ContainsTriangle(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).ContainsTriangle(lv(i.add(6)), lv(i.add(10)), lv(i.add(14))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_IntersectsTriangle(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).IntersectsTriangle(lv(i.add(6)), lv(i.add(10)), lv(i.add(14))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_ContainsSphere(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).ContainsSphere((&*(i.add(6) as *const BoundingSphere))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_IntersectsSphere(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).IntersectsSphere((&*(i.add(6) as *const BoundingSphere))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_ContainsBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).ContainsBox((&*(i.add(6) as *const BoundingBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_IntersectsBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).IntersectsBox((&*(i.add(6) as *const BoundingBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_ContainsOrientedBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).ContainsOrientedBox((&*(i.add(6) as *const BoundingOrientedBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_IntersectsOrientedBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).IntersectsOrientedBox((&*(i.add(6) as *const BoundingOrientedBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_ContainsFrustum(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).ContainsFrustum((&*(i.add(6) as *const BoundingFrustum))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_IntersectsFrustum(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).IntersectsFrustum((&*(i.add(6) as *const BoundingFrustum))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_IntersectsPlane(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).IntersectsPlane(lv(i.add(6))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_IntersectsRay(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).IntersectsRay(lv(i.add(6)), lv(i.add(10)), &mut *(o.add(0) as *mut f32)); *o.add(1) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_ContainedBy(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingBox)).ContainedBy(lv(i.add(6)), lv(i.add(10)), lv(i.add(14)), lv(i.add(18)), lv(i.add(22)), lv(i.add(26))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Box_GetCorners(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingBox)).GetCorners(&mut *(o.add(0) as *mut [XMFLOAT3; 8]));  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_TransformMatrix(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingOrientedBox)).TransformMatrix(&mut *(o.add(0) as *mut BoundingOrientedBox), lm(i.add(10)));  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_TransformDecomposed(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingOrientedBox)).TransformDecomposed(&mut *(o.add(0) as *mut BoundingOrientedBox), f32::from_bits(*i.add(10)), lv(i.add(11)), lv(i.add(15)));  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_ContainsPoint(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).ContainsPoint(lv(i.add(10))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_ContainsTriangle(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).ContainsTriangle(lv(i.add(10)), lv(i.add(14)), lv(i.add(18))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_IntersectsTriangle(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).IntersectsTriangle(lv(i.add(10)), lv(i.add(14)), lv(i.add(18))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_ContainsSphere(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).ContainsSphere((&*(i.add(10) as *const BoundingSphere))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_IntersectsSphere(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).IntersectsSphere((&*(i.add(10) as *const BoundingSphere))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_ContainsBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).ContainsBox((&*(i.add(10) as *const BoundingBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_IntersectsBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).IntersectsBox((&*(i.add(10) as *const BoundingBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_ContainsOrientedBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).ContainsOrientedBox((&*(i.add(10) as *const BoundingOrientedBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_IntersectsOrientedBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).IntersectsOrientedBox((&*(i.add(10) as *const BoundingOrientedBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_ContainsFrustum(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).ContainsFrustum((&*(i.add(10) as *const BoundingFrustum))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_IntersectsFrustum(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).IntersectsFrustum((&*(i.add(10) as *const BoundingFrustum))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_IntersectsPlane(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).IntersectsPlane(lv(i.add(10))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_IntersectsRay(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).IntersectsRay(lv(i.add(10)), lv(i.add(14)), &mut *(o.add(0) as *mut f32)); *o.add(1) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_ContainedBy(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingOrientedBox)).ContainedBy(lv(i.add(10)), lv(i.add(14)), lv(i.add(18)), lv(i.add(22)), lv(i.add(26)), lv(i.add(30))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_GetCorners(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingOrientedBox)).GetCorners(&mut *(o.add(0) as *mut [XMFLOAT3; 8]));  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_TransformMatrix(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingFrustum)).TransformMatrix(&mut *(o.add(0) as *mut BoundingFrustum), lm(i.add(13)));  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_TransformDecomposed(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingFrustum)).TransformDecomposed(&mut *(o.add(0) as *mut BoundingFrustum), f32::from_bits(*i.add(13)), lv(i.add(14)), lv(i.add(18)));  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_ContainsPoint(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).ContainsPoint(lv(i.add(13))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_ContainsTriangle(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).ContainsTriangle(lv(i.add(13)), lv(i.add(17)), lv(i.add(21))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_IntersectsTriangle(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).IntersectsTriangle(lv(i.add(13)), lv(i.add(17)), lv(i.add(21))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_ContainsSphere(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).ContainsSphere((&*(i.add(13) as *const BoundingSphere))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_IntersectsSphere(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).IntersectsSphere((&*(i.add(13) as *const BoundingSphere))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_ContainsBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).ContainsBox((&*(i.add(13) as *const BoundingBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_IntersectsBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).IntersectsBox((&*(i.add(13) as *const BoundingBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_ContainsOrientedBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).ContainsOrientedBox((&*(i.add(13) as *const BoundingOrientedBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_IntersectsOrientedBox(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).IntersectsOrientedBox((&*(i.add(13) as *const BoundingOrientedBox))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_ContainsFrustum(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).ContainsFrustum((&*(i.add(13) as *const BoundingFrustum))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_IntersectsFrustum(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).IntersectsFrustum((&*(i.add(13) as *const BoundingFrustum))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_IntersectsPlane(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).IntersectsPlane(lv(i.add(13))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_IntersectsRay(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).IntersectsRay(lv(i.add(13)), lv(i.add(17)), &mut *(o.add(0) as *mut f32)); *o.add(1) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_ContainedBy(i: *const u32, o: *mut u32) {  let r = (&*(i.add(0) as *const BoundingFrustum)).ContainedBy(lv(i.add(13)), lv(i.add(17)), lv(i.add(21)), lv(i.add(25)), lv(i.add(29)), lv(i.add(33))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_GetCorners(i: *const u32, o: *mut u32) {  (&*(i.add(0) as *const BoundingFrustum)).GetCorners(&mut *(o.add(0) as *mut [XMFLOAT3; 8]));  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_CreateMerged(i: *const u32, o: *mut u32) {  BoundingSphere::CreateMerged(&mut *(o.add(0) as *mut BoundingSphere), (&*(i.add(0) as *const BoundingSphere)), (&*(i.add(4) as *const BoundingSphere)));  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_CreateFromBoundingBox(i: *const u32, o: *mut u32) {  BoundingSphere::CreateFromBoundingBox(&mut *(o.add(0) as *mut BoundingSphere), (&*(i.add(0) as *const BoundingBox)));  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_CreateFromBoundingOrientedBox(i: *const u32, o: *mut u32) {  BoundingSphere::CreateFromBoundingOrientedBox(&mut *(o.add(0) as *mut BoundingSphere), (&*(i.add(0) as *const BoundingOrientedBox)));  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_CreateFromFrustum(i: *const u32, o: *mut u32) {  BoundingSphere::CreateFromFrustum(&mut *(o.add(0) as *mut BoundingSphere), (&*(i.add(0) as *const BoundingFrustum)));  }
#[no_mangle] pub unsafe extern "C" fn h_Box_CreateMerged(i: *const u32, o: *mut u32) {  BoundingBox::CreateMerged(&mut *(o.add(0) as *mut BoundingBox), (&*(i.add(0) as *const BoundingBox)), (&*(i.add(6) as *const BoundingBox)));  }
#[no_mangle] pub unsafe extern "C" fn h_Box_CreateFromSphere(i: *const u32, o: *mut u32) {  BoundingBox::CreateFromSphere(&mut *(o.add(0) as *mut BoundingBox), (&*(i.add(0) as *const BoundingSphere)));  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_CreateFromBoundingBox(i: *const u32, o: *mut u32) {  BoundingOrientedBox::CreateFromBoundingBox(&mut *(o.add(0) as *mut BoundingOrientedBox), (&*(i.add(0) as *const BoundingBox)));  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_CreateFromMatrix(i: *const u32, o: *mut u32) {  BoundingFrustum::CreateFromMatrix(&mut *(o.add(0) as *mut BoundingFrustum), lm(i.add(0)), *i.add(16) != 0);  }
#[no_mangle] pub unsafe extern "C" fn h_Frustum_GetPlanes(i: *const u32, o: *mut u32) { let mut t0 = lv(o.add(0) as *const u32); let mut t1 = lv(o.add(4) as *const u32); let mut t2 = lv(o.add(8) as *const u32); let mut t3 = lv(o.add(12) as *const u32); let mut t4 = lv(o.add(16) as *const u32); let mut t5 = lv(o.add(20) as *const u32); (&*(i.add(0) as *const BoundingFrustum)).GetPlanes(Some(&mut t0), Some(&mut t1), Some(&mut t2), Some(&mut t3), Some(&mut t4), Some(&mut t5)); sv(o.add(0), t0); sv(o.add(4), t1); sv(o.add(8), t2); sv(o.add(12), t3); sv(o.add(16), t4); sv(o.add(20), t5); }
#[no_mangle] pub unsafe extern "C" fn h_Box_CreateFromPoints1(i: *const u32, o: *mut u32) {  BoundingBox::CreateFromPoints(&mut *(o.add(0) as *mut BoundingBox), (*(i.add(0) as *const [XMFLOAT3; 1])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_CreateFromPoints1(i: *const u32, o: *mut u32) {  BoundingSphere::CreateFromPoints(&mut *(o.add(0) as *mut BoundingSphere), (*(i.add(0) as *const [XMFLOAT3; 1])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_CreateFromPoints1(i: *const u32, o: *mut u32) {  BoundingOrientedBox::CreateFromPoints(&mut *(o.add(0) as *mut BoundingOrientedBox), (*(i.add(0) as *const [XMFLOAT3; 1])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_Box_CreateFromPoints2(i: *const u32, o: *mut u32) {  BoundingBox::CreateFromPoints(&mut *(o.add(0) as *mut BoundingBox), (*(i.add(0) as *const [XMFLOAT3; 2])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_CreateFromPoints2(i: *const u32, o: *mut u32) {  BoundingSphere::CreateFromPoints(&mut *(o.add(0) as *mut BoundingSphere), (*(i.add(0) as *const [XMFLOAT3; 2])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_CreateFromPoints2(i: *const u32, o: *mut u32) {  BoundingOrientedBox::CreateFromPoints(&mut *(o.add(0) as *mut BoundingOrientedBox), (*(i.add(0) as *const [XMFLOAT3; 2])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_Box_CreateFromPoints3(i: *const u32, o: *mut u32) {  BoundingBox::CreateFromPoints(&mut *(o.add(0) as *mut BoundingBox), (*(i.add(0) as *const [XMFLOAT3; 3])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_CreateFromPoints3(i: *const u32, o: *mut u32) {  BoundingSphere::CreateFromPoints(&mut *(o.add(0) as *mut BoundingSphere), (*(i.add(0) as *const [XMFLOAT3; 3])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_CreateFromPoints3(i: *const u32, o: *mut u32) {  BoundingOrientedBox::CreateFromPoints(&mut *(o.add(0) as *mut BoundingOrientedBox), (*(i.add(0) as *const [XMFLOAT3; 3])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_Box_CreateFromPoints4(i: *const u32, o: *mut u32) {  BoundingBox::CreateFromPoints(&mut *(o.add(0) as *mut BoundingBox), (*(i.add(0) as *const [XMFLOAT3; 4])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_Sphere_CreateFromPoints4(i: *const u32, o: *mut u32) {  BoundingSphere::CreateFromPoints(&mut *(o.add(0) as *mut BoundingSphere), (*(i.add(0) as *const [XMFLOAT3; 4])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_OBox_CreateFromPoints4(i: *const u32, o: *mut u32) {  BoundingOrientedBox::CreateFromPoints(&mut *(o.add(0) as *mut BoundingOrientedBox), (*(i.add(0) as *const [XMFLOAT3; 4])).iter());  }
#[no_mangle] pub unsafe extern "C" fn h_Tri_IntersectsRay(i: *const u32, o: *mut u32) {  let r = triangle_tests::IntersectsRay(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16)), &mut *(o.add(0) as *mut f32)); *o.add(1) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Tri_IntersectsTriangle(i: *const u32, o: *mut u32) {  let r = triangle_tests::IntersectsTriangle(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16)), lv(i.add(20))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Tri_IntersectsPlane(i: *const u32, o: *mut u32) {  let r = triangle_tests::IntersectsPlane(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12))); *o.add(0) = r as u32;  }
#[no_mangle] pub unsafe extern "C" fn h_Tri_ContainedBy(i: *const u32, o: *mut u32) {  let r = triangle_tests::ContainedBy(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16)), lv(i.add(20)), &lv(i.add(24)), &lv(i.add(28)), &lv(i.add(32))); *o.add(0) = r as u32;  }
