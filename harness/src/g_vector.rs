// GENERATED by dxv/gen_harness.py - do not edit.
use crate::util::*;
use directx_math::*;

#[no_mangle] pub unsafe extern "C" fn h_XMVectorZero(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorZero(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSet(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSet(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetInt(*i.add(0), *i.add(1), *i.add(2), *i.add(3)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorReplicate(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorReplicate(f32::from_bits(*i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorReplicatePtr(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorReplicatePtr(&*(i.add(0) as *const f32)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorReplicateInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorReplicateInt(*i.add(0)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorTrueInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorTrueInt(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorFalseInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorFalseInt(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatX(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatX(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatY(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatY(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatZ(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatZ(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatW(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatW(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatOne(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatOne(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatInfinity(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatInfinity(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatQNaN(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatQNaN(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatEpsilon(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatEpsilon(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatSignMask(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatSignMask(); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetByIndex(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetByIndex(lv(i.add(0)), *i.add(4) as usize); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetX(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetX(lv(i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetY(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetY(lv(i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetZ(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetZ(lv(i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetW(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetW(lv(i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetXPtr(i: *const u32, o: *mut u32) { let _ = (i, o);  XMVectorGetXPtr(&mut *(o.add(0) as *mut f32), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetYPtr(i: *const u32, o: *mut u32) { let _ = (i, o);  XMVectorGetYPtr(&mut *(o.add(0) as *mut f32), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetZPtr(i: *const u32, o: *mut u32) { let _ = (i, o);  XMVectorGetZPtr(&mut *(o.add(0) as *mut f32), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetWPtr(i: *const u32, o: *mut u32) { let _ = (i, o);  XMVectorGetWPtr(&mut *(o.add(0) as *mut f32), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetIntByIndex(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetIntByIndex(lv(i.add(0)), *i.add(4) as usize); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetIntX(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetIntX(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetIntY(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetIntY(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetIntZ(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetIntZ(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGetIntW(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGetIntW(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetByIndex(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetByIndex(lv(i.add(0)), f32::from_bits(*i.add(4)), *i.add(5) as usize); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetX(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetX(lv(i.add(0)), f32::from_bits(*i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetY(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetY(lv(i.add(0)), f32::from_bits(*i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetZ(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetZ(lv(i.add(0)), f32::from_bits(*i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetW(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetW(lv(i.add(0)), f32::from_bits(*i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetIntByIndex(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetIntByIndex(lv(i.add(0)), *i.add(4), *i.add(5) as usize); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetIntX(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetIntX(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetIntY(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetIntY(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetIntZ(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetIntZ(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetIntW(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetIntW(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSwizzle(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSwizzle(lv(i.add(0)), *i.add(4), *i.add(5), *i.add(6), *i.add(7)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorPermute(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorPermute(lv(i.add(0)), lv(i.add(4)), *i.add(8), *i.add(9), *i.add(10), *i.add(11)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSelectControl(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSelectControl(*i.add(0), *i.add(1), *i.add(2), *i.add(3)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSelect(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSelect(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorMergeXY(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorMergeXY(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorMergeZW(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorMergeZW(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorShiftLeft(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorShiftLeft(lv(i.add(0)), lv(i.add(4)), *i.add(8)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorRotateLeft(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorRotateLeft(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorRotateRight(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorRotateRight(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorInsert(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorInsert(lv(i.add(0)), lv(i.add(4)), *i.add(8), *i.add(9), *i.add(10), *i.add(11), *i.add(12)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorEqual(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorEqualR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorEqualR(&mut *(o.add(0) as *mut u32), lv(i.add(0)), lv(i.add(4))); sv(o.add(1), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorEqualInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorEqualInt(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorEqualIntR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorEqualIntR(&mut *(o.add(0) as *mut u32), lv(i.add(0)), lv(i.add(4))); sv(o.add(1), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorNearEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorNearEqual(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorNotEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorNotEqual(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorNotEqualInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorNotEqualInt(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGreater(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGreater(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGreaterR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGreaterR(&mut *(o.add(0) as *mut u32), lv(i.add(0)), lv(i.add(4))); sv(o.add(1), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGreaterOrEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGreaterOrEqual(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorGreaterOrEqualR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorGreaterOrEqualR(&mut *(o.add(0) as *mut u32), lv(i.add(0)), lv(i.add(4))); sv(o.add(1), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorLess(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorLess(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorLessOrEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorLessOrEqual(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorInBounds(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorInBounds(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorInBoundsR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorInBoundsR(&mut *(o.add(0) as *mut u32), lv(i.add(0)), lv(i.add(4))); sv(o.add(1), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorIsNaN(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorIsNaN(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorIsInfinite(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorIsInfinite(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorMin(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorMin(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorMax(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorMax(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorRound(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorRound(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorTruncate(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorTruncate(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorFloor(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorFloor(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorCeiling(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorCeiling(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorClamp(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorClamp(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSaturate(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSaturate(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorAndInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorAndInt(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorAndCInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorAndCInt(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorOrInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorOrInt(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorNorInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorNorInt(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorXorInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorXorInt(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorNegate(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorNegate(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorAdd(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorAdd(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSum(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSum(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorAddAngles(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorAddAngles(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSubtract(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSubtract(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSubtractAngles(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSubtractAngles(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorMultiply(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorMultiply(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorMultiplyAdd(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorMultiplyAdd(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorDivide(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorDivide(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorNegativeMultiplySubtract(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorNegativeMultiplySubtract(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorScale(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorScale(lv(i.add(0)), f32::from_bits(*i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorReciprocalEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorReciprocalEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorReciprocal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorReciprocal(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSqrtEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSqrtEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSqrt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSqrt(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorReciprocalSqrtEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorReciprocalSqrtEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorReciprocalSqrt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorReciprocalSqrt(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorExp2(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorExp2(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorExp(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorExp(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorPow(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorPow(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorAbs(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorAbs(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorMod(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorMod(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorModAngles(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorModAngles(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSin(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSin(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorCos(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorCos(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSinCos(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = lv(o.add(0) as *const u32); let mut t1 = lv(o.add(4) as *const u32); XMVectorSinCos(&mut t0, &mut t1, lv(i.add(0))); sv(o.add(0), t0); sv(o.add(4), t1); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorTan(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorTan(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSinH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSinH(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorCosH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorCosH(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorTanH(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorTanH(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorASin(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorASin(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorACos(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorACos(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorATan(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorATan(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorATan2(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorATan2(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSinEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSinEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorCosEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorCosEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSinCosEst(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = lv(o.add(0) as *const u32); let mut t1 = lv(o.add(4) as *const u32); XMVectorSinCosEst(&mut t0, &mut t1, lv(i.add(0))); sv(o.add(0), t0); sv(o.add(4), t1); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorTanEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorTanEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorASinEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorASinEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorACosEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorACosEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorATanEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorATanEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorATan2Est(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorATan2Est(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorLerp(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorLerp(lv(i.add(0)), lv(i.add(4)), f32::from_bits(*i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorLerpV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorLerpV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorHermite(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorHermite(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), f32::from_bits(*i.add(16))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorHermiteV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorHermiteV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorCatmullRom(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorCatmullRom(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), f32::from_bits(*i.add(16))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorCatmullRomV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorCatmullRomV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorBaryCentric(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorBaryCentric(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), f32::from_bits(*i.add(12)), f32::from_bits(*i.add(13))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorBaryCentricV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorBaryCentricV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12)), lv(i.add(16))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Equal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Equal(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2EqualR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2EqualR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2EqualInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2EqualInt(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2EqualIntR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2EqualIntR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2NearEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2NearEqual(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2NotEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2NotEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2NotEqualInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2NotEqualInt(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Greater(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Greater(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2GreaterR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2GreaterR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2GreaterOrEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2GreaterOrEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2GreaterOrEqualR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2GreaterOrEqualR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Less(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Less(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2LessOrEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2LessOrEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2InBounds(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2InBounds(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2IsNaN(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2IsNaN(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2IsInfinite(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2IsInfinite(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Dot(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Dot(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Cross(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Cross(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2LengthSq(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2LengthSq(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2ReciprocalLengthEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2ReciprocalLengthEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2ReciprocalLength(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2ReciprocalLength(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2LengthEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2LengthEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Length(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Length(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2NormalizeEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2NormalizeEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Normalize(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Normalize(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2ClampLength(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2ClampLength(lv(i.add(0)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2ClampLengthV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2ClampLengthV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Reflect(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Reflect(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Refract(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Refract(lv(i.add(0)), lv(i.add(4)), f32::from_bits(*i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2RefractV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2RefractV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Orthogonal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Orthogonal(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2AngleBetweenNormalsEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2AngleBetweenNormalsEst(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2AngleBetweenNormals(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2AngleBetweenNormals(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2AngleBetweenVectors(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2AngleBetweenVectors(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2LinePointDistance(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2LinePointDistance(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2IntersectLine(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2IntersectLine(lv(i.add(0)), lv(i.add(4)), lv(i.add(8)), lv(i.add(12))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2Transform(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2Transform(lv(i.add(0)), lm(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2TransformCoord(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2TransformCoord(lv(i.add(0)), lm(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector2TransformNormal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector2TransformNormal(lv(i.add(0)), lm(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Equal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Equal(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3EqualR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3EqualR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3EqualInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3EqualInt(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3EqualIntR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3EqualIntR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3NearEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3NearEqual(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3NotEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3NotEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3NotEqualInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3NotEqualInt(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Greater(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Greater(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3GreaterR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3GreaterR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3GreaterOrEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3GreaterOrEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3GreaterOrEqualR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3GreaterOrEqualR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Less(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Less(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3LessOrEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3LessOrEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3InBounds(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3InBounds(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3IsNaN(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3IsNaN(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3IsInfinite(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3IsInfinite(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Dot(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Dot(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Cross(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Cross(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3LengthSq(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3LengthSq(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3ReciprocalLengthEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3ReciprocalLengthEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3ReciprocalLength(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3ReciprocalLength(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3LengthEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3LengthEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Length(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Length(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3NormalizeEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3NormalizeEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Normalize(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Normalize(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3ClampLength(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3ClampLength(lv(i.add(0)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3ClampLengthV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3ClampLengthV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Reflect(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Reflect(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Refract(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Refract(lv(i.add(0)), lv(i.add(4)), f32::from_bits(*i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3RefractV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3RefractV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Orthogonal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Orthogonal(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3AngleBetweenNormalsEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3AngleBetweenNormalsEst(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3AngleBetweenNormals(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3AngleBetweenNormals(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3AngleBetweenVectors(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3AngleBetweenVectors(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3LinePointDistance(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3LinePointDistance(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3ComponentsFromNormal(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = lv(o.add(0) as *const u32); let mut t1 = lv(o.add(4) as *const u32); XMVector3ComponentsFromNormal(&mut t0, &mut t1, lv(i.add(0)), lv(i.add(4))); sv(o.add(0), t0); sv(o.add(4), t1); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Rotate(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Rotate(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3InverseRotate(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3InverseRotate(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Transform(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Transform(lv(i.add(0)), lm(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3TransformCoord(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3TransformCoord(lv(i.add(0)), lm(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3TransformNormal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3TransformNormal(lv(i.add(0)), lm(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Project(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Project(lv(i.add(0)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5)), f32::from_bits(*i.add(6)), f32::from_bits(*i.add(7)), f32::from_bits(*i.add(8)), f32::from_bits(*i.add(9)), lm(i.add(10)), &lm(i.add(26)), &lm(i.add(42))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector3Unproject(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector3Unproject(lv(i.add(0)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5)), f32::from_bits(*i.add(6)), f32::from_bits(*i.add(7)), f32::from_bits(*i.add(8)), f32::from_bits(*i.add(9)), lm(i.add(10)), &lm(i.add(26)), &lm(i.add(42))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Equal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Equal(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4EqualR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4EqualR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4EqualInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4EqualInt(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4EqualIntR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4EqualIntR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4NearEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4NearEqual(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4NotEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4NotEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4NotEqualInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4NotEqualInt(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Greater(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Greater(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4GreaterR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4GreaterR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4GreaterOrEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4GreaterOrEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4GreaterOrEqualR(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4GreaterOrEqualR(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Less(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Less(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4LessOrEqual(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4LessOrEqual(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4InBounds(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4InBounds(lv(i.add(0)), lv(i.add(4))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4IsNaN(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4IsNaN(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4IsInfinite(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4IsInfinite(lv(i.add(0))); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Dot(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Dot(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Cross(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Cross(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4LengthSq(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4LengthSq(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4ReciprocalLengthEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4ReciprocalLengthEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4ReciprocalLength(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4ReciprocalLength(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4LengthEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4LengthEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Length(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Length(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4NormalizeEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4NormalizeEst(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Normalize(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Normalize(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4ClampLength(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4ClampLength(lv(i.add(0)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4ClampLengthV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4ClampLengthV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Reflect(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Reflect(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Refract(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Refract(lv(i.add(0)), lv(i.add(4)), f32::from_bits(*i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4RefractV(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4RefractV(lv(i.add(0)), lv(i.add(4)), lv(i.add(8))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Orthogonal(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Orthogonal(lv(i.add(0))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4AngleBetweenNormalsEst(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4AngleBetweenNormalsEst(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4AngleBetweenNormals(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4AngleBetweenNormals(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4AngleBetweenVectors(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4AngleBetweenVectors(lv(i.add(0)), lv(i.add(4))); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector4Transform(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVector4Transform(lv(i.add(0)), lm(i.add(4))); sv(o.add(0), r); }
