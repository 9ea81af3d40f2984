// GENERATED by dxv/gen_harness.py - do not edit.
use crate::util::*;
use directx_math::*;

#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionNotEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionNotEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionIsNaN(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionIsNaN(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionIsInfinite(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionIsInfinite(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionIsIdentity(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionIsIdentity(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionDot(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionDot(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionMultiply(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionMultiply(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionLengthSq(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionLengthSq(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionReciprocalLength(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionReciprocalLength(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionLength(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionLength(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionNormalizeEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionNormalizeEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionNormalize(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionNormalize(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionConjugate(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionConjugate(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionInverse(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionInverse(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionLn(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionLn(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionExp(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionExp(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionSlerp(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionSlerp(lv(i.add(0)), lv(i.add(4)), f32::from_bits(*i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionSlerpV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionSlerpV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionSquad(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionSquad(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), f32::from_bits(*i.add(16))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionSquadV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionSquadV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionSquadSetup(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = lv(o.add(0) as *const u32); let mut t1 = lv(o.add(4) as *const u32); let mut t2 = lv(o.add(8) as *const u32); XMQuaternionSquadSetup(&mut t0, &mut t1, &mut t2, lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12))); sv(o.add(0), t0); sv(o.add(4), t1); sv(o.add(8), t2); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionBaryCentric(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionBaryCentric(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), f32::from_bits(*i.add(12)), f32::from_bits(*i.add(13))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionBaryCentricV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionBaryCentricV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionIdentity(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionIdentity(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionRotationRollPitchYaw(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionRotationRollPitchYaw(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionRotationRollPitchYawFromVector(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionRotationRollPitchYawFromVector(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionRotationNormal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionRotationNormal(lv(i.add(0)), f32::from_bits(*i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionRotationAxis(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionRotationAxis(lv(i.add(0)), f32::from_bits(*i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionRotationMatrix(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMQuaternionRotationMatrix(lm(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMQuaternionToAxisAngle(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = lv(o.add(0) as *const u32); XMQuaternionToAxisAngle(&mut t0, &mut *(o.add(4) as *mut f32), lv(i.add(0))); sv(o.add(0), t0); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneNearEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneNearEqual(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneNotEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneNotEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneIsNaN(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneIsNaN(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneIsInfinite(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneIsInfinite(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneDot(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneDot(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneDotCoord(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneDotCoord(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneDotNormal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneDotNormal(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneNormalizeEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneNormalizeEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneNormalize(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneNormalize(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneIntersectLine(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneIntersectLine(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneIntersectPlane(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = lv(o.add(0) as *const u32); let mut t1 = lv(o.add(4) as *const u32); XMPlaneIntersectPlane(&mut t0, &mut t1, lv(i.add(0)), lv(i.add(4))); sv(o.add(0), t0); sv(o.add(4), t1); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneTransform(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneTransform(lv(i.add(0)), lm(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneFromPointNormal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneFromPointNormal(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMPlaneFromPoints(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMPlaneFromPoints(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMFresnelTerm(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMFresnelTerm(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarNearEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarNearEqual(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarModAngle(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarModAngle(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarSin(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarSin(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarSinEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarSinEst(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarCos(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarCos(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarCosEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarCosEst(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarSinCos(i: *const u32, o: *mut u32) { let _ = (i, o);  XMScalarSinCos(&mut *(o.add(0) as *mut f32), &mut *(o.add(1) as *mut f32), f32::from_bits(*i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarSinCosEst(i: *const u32, o: *mut u32) { let _ = (i, o);  XMScalarSinCosEst(&mut *(o.add(0) as *mut f32), &mut *(o.add(1) as *mut f32), f32::from_bits(*i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarASin(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarASin(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarASinEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarASinEst(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarACos(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarACos(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMScalarACosEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMScalarACosEst(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
