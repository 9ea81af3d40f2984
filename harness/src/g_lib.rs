// GENERATED by dxv/gen_harness.py - do not edit.
use crate::util::*;
use directx_math::*;

#[no_mangle] pub unsafe extern "C" fn h_XMConvertToRadians(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMConvertToRadians(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMConvertToDegrees(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMConvertToDegrees(f32::from_bits(*i.add(0))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMComparisonAllTrue(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMComparisonAllTrue(*i.add(0)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMComparisonAnyTrue(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMComparisonAnyTrue(*i.add(0)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMComparisonAllFalse(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMComparisonAllFalse(*i.add(0)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMComparisonAnyFalse(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMComparisonAnyFalse(*i.add(0)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMComparisonMixed(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMComparisonMixed(*i.add(0)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMComparisonAllInBounds(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMComparisonAllInBounds(*i.add(0)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMComparisonAnyOutOfBounds(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMComparisonAnyOutOfBounds(*i.add(0)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMMin_f32(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMin::<f32>(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMMin_u32(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMin::<u32>(*i.add(0), *i.add(1)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMMax_f32(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMax::<f32>(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1))); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMMax_u32(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMMax::<u32>(*i.add(0), *i.add(1)); *o.add(0) = r as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSetBinaryConstant(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSetBinaryConstant(*i.add(0), *i.add(1), *i.add(2), *i.add(3)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatConstant(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatConstant(*i.add(0) as i32, *i.add(1)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMVectorSplatConstantInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMVectorSplatConstantInt(*i.add(0) as i32); sv(o.add(0), r); }
