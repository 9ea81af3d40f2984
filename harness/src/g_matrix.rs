// GENERATED by dxv/gen_harness.py - do not edit.
use crate::util::*;
use directx_math::*;

#[no_mangle] pub unsafe extern "C" fn h_XMMatrixIsNaN(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixIsNaN(lm(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixIsInfinite(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixIsInfinite(lm(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixIsIdentity(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixIsIdentity(lm(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixMultiply(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixMultiply(lm(i.add(0)), &lm(i.add(16))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixMultiplyTranspose(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixMultiplyTranspose(lm(i.add(0)), &lm(i.add(16))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixTranspose(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixTranspose(lm(i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixInverse(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = lv(o.add(0) as *const u32); let r = XMMatrixInverse(Some(&mut t0), lm(i.add(0))); sm(o.add(4), r); sv(o.add(0), t0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixInverse_None(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixInverse(None, lm(i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixVectorTensorProduct(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixVectorTensorProduct(lv(i.add(0)), lv(i.add(4))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixDeterminant(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixDeterminant(lm(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixDecompose(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = lv(o.add(0) as *const u32); let mut t1 = lv(o.add(4) as *const u32); let mut t2 = lv(o.add(8) as *const u32); let r = XMMatrixDecompose(&mut t0, &mut t1, &mut t2, lm(i.add(0))); *o.add(12) = r as u32; sv(o.add(0), t0); sv(o.add(4), t1); sv(o.add(8), t2); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixIdentity(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixIdentity(); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixSet(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixSet(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5)), f32::from_bits(*i.add(6)), f32::from_bits(*i.add(7)), f32::from_bits(*i.add(8)), f32::from_bits(*i.add(9)), f32::from_bits(*i.add(10)), f32::from_bits(*i.add(11)), f32::from_bits(*i.add(12)), f32::from_bits(*i.add(13)), f32::from_bits(*i.add(14)), f32::from_bits(*i.add(15))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixTranslation(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixTranslation(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixTranslationFromVector(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixTranslationFromVector(lv(i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixScaling(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixScaling(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixScalingFromVector(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixScalingFromVector(lv(i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixRotationX(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixRotationX(f32::from_bits(*i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixRotationY(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixRotationY(f32::from_bits(*i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixRotationZ(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixRotationZ(f32::from_bits(*i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixRotationRollPitchYaw(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixRotationRollPitchYaw(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixRotationRollPitchYawFromVector(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixRotationRollPitchYawFromVector(lv(i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixRotationNormal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixRotationNormal(lv(i.add(0)), f32::from_bits(*i.add(4))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixRotationAxis(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixRotationAxis(lv(i.add(0)), f32::from_bits(*i.add(4))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixRotationQuaternion(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixRotationQuaternion(lv(i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixTransformation2D(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixTransformation2D(lv(i.add(0)), f32::from_bits(*i.add(4)), lv(i.add(5)), lv(i.add(9)), f32::from_bits(*i.add(13)), lv(i.add(14))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixTransformation(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixTransformation(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16)), lv(i.add(20))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixAffineTransformation2D(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixAffineTransformation2D(lv(i.add(0)), lv(i.add(4)), f32::from_bits(*i.add(8)), lv(i.add(9))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixAffineTransformation(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixAffineTransformation(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixReflect(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixReflect(lv(i.add(0))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixShadow(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixShadow(lv(i.add(0)), lv(i.add(4))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixLookAtLH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixLookAtLH(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixLookAtRH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixLookAtRH(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixLookToLH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixLookToLH(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixLookToRH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixLookToRH(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixPerspectiveLH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixPerspectiveLH(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixPerspectiveRH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixPerspectiveRH(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixPerspectiveFovLH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixPerspectiveFovLH(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixPerspectiveFovRH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixPerspectiveFovRH(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixPerspectiveOffCenterLH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixPerspectiveOffCenterLH(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixPerspectiveOffCenterRH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixPerspectiveOffCenterRH(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixOrthographicLH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixOrthographicLH(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3))); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrixOrthographicRH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMatrixOrthographicRH(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3))); sm(o.add(0), r); }
