// GENERATED by dxv/gen_harness.py - do not edit.
use crate::util::*;
use directx_math::*;

#[no_mangle] pub unsafe extern "C" fn h_XMConvertHalfToFloat(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMConvertHalfToFloat(*i.add(0) as u16); *o.add(0) = r.to_bits(); }
#[no_mangle] pub unsafe extern "C" fn h_XMConvertFloatToHalf(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMConvertFloatToHalf(f32::from_bits(*i.add(0))); *o.add(0) = r as u32; }
