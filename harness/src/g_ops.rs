// GENERATED by dxv/gen_harness2.py - do not edit.
use crate::util::*;
use directx_math::*;

#[no_mangle] pub unsafe extern "C" fn h_XMVector_add(i: *const u32, o: *mut u32) { sv(o, (XMVector(lv(i)) + XMVector(lv(i.add(4)))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_add_assign(i: *const u32, o: *mut u32) { let mut a = XMVector(lv(i)); a += XMVector(lv(i.add(4))); sv(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_sub(i: *const u32, o: *mut u32) { sv(o, (XMVector(lv(i)) - XMVector(lv(i.add(4)))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_sub_assign(i: *const u32, o: *mut u32) { let mut a = XMVector(lv(i)); a -= XMVector(lv(i.add(4))); sv(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_mul(i: *const u32, o: *mut u32) { sv(o, (XMVector(lv(i)) * XMVector(lv(i.add(4)))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_mul_assign(i: *const u32, o: *mut u32) { let mut a = XMVector(lv(i)); a *= XMVector(lv(i.add(4))); sv(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_div(i: *const u32, o: *mut u32) { sv(o, (XMVector(lv(i)) / XMVector(lv(i.add(4)))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_div_assign(i: *const u32, o: *mut u32) { let mut a = XMVector(lv(i)); a /= XMVector(lv(i.add(4))); sv(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_mul_f32(i: *const u32, o: *mut u32) { sv(o, (XMVector(lv(i)) * f32::from_bits(*i.add(4))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_mul_f32_assign(i: *const u32, o: *mut u32) { let mut a = XMVector(lv(i)); a *= f32::from_bits(*i.add(4)); sv(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_mul_f32(i: *const u32, o: *mut u32) { sm(o, (XMMatrix(lm(i)) * f32::from_bits(*i.add(16))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_mul_f32_assign(i: *const u32, o: *mut u32) { let mut a = XMMatrix(lm(i)); a *= f32::from_bits(*i.add(16)); sm(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_div_f32(i: *const u32, o: *mut u32) { sv(o, (XMVector(lv(i)) / f32::from_bits(*i.add(4))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_div_f32_assign(i: *const u32, o: *mut u32) { let mut a = XMVector(lv(i)); a /= f32::from_bits(*i.add(4)); sv(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_div_f32(i: *const u32, o: *mut u32) { sm(o, (XMMatrix(lm(i)) / f32::from_bits(*i.add(16))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_div_f32_assign(i: *const u32, o: *mut u32) { let mut a = XMMatrix(lm(i)); a /= f32::from_bits(*i.add(16)); sm(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_f32_mul_XMVector(i: *const u32, o: *mut u32) { sv(o, (f32::from_bits(*i.add(4)) * XMVector(lv(i))).0); }
#[no_mangle] pub unsafe extern "C" fn h_f32_mul_XMMatrix(i: *const u32, o: *mut u32) { sm(o, (f32::from_bits(*i.add(16)) * XMMatrix(lm(i))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_neg(i: *const u32, o: *mut u32) { sv(o, (-XMVector(lv(i))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_neg(i: *const u32, o: *mut u32) { sm(o, (-XMMatrix(lm(i))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_eq(i: *const u32, o: *mut u32) { *o = (XMVector(lv(i)) == XMVector(lv(i.add(4)))) as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_ne(i: *const u32, o: *mut u32) { *o = (XMVector(lv(i)) != XMVector(lv(i.add(4)))) as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_eq(i: *const u32, o: *mut u32) { *o = (XMMatrix(lm(i)) == XMMatrix(lm(i.add(16)))) as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_ne(i: *const u32, o: *mut u32) { *o = (XMMatrix(lm(i)) != XMMatrix(lm(i.add(16)))) as u32; }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_add(i: *const u32, o: *mut u32) { sm(o, (XMMatrix(lm(i)) + XMMatrix(lm(i.add(16)))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_add_assign(i: *const u32, o: *mut u32) { let mut a = XMMatrix(lm(i)); a += XMMatrix(lm(i.add(16))); sm(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_sub(i: *const u32, o: *mut u32) { sm(o, (XMMatrix(lm(i)) - XMMatrix(lm(i.add(16)))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_sub_assign(i: *const u32, o: *mut u32) { let mut a = XMMatrix(lm(i)); a -= XMMatrix(lm(i.add(16))); sm(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_mul(i: *const u32, o: *mut u32) { sm(o, (XMMatrix(lm(i)) * XMMatrix(lm(i.add(16)))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_mul_assign(i: *const u32, o: *mut u32) { let mut a = XMMatrix(lm(i)); a *= XMMatrix(lm(i.add(16))); sm(o, a.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_set(i: *const u32, o: *mut u32) { sv(o, XMVector::set(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_set(i: *const u32, o: *mut u32) { sm(o, XMMatrix::set(f32::from_bits(*i.add(0)), f32::from_bits(*i.add(1)), f32::from_bits(*i.add(2)), f32::from_bits(*i.add(3)), f32::from_bits(*i.add(4)), f32::from_bits(*i.add(5)), f32::from_bits(*i.add(6)), f32::from_bits(*i.add(7)), f32::from_bits(*i.add(8)), f32::from_bits(*i.add(9)), f32::from_bits(*i.add(10)), f32::from_bits(*i.add(11)), f32::from_bits(*i.add(12)), f32::from_bits(*i.add(13)), f32::from_bits(*i.add(14)), f32::from_bits(*i.add(15))).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_from(i: *const u32, o: *mut u32) { sv(o, XMVector::from(&*(i as *const [f32; 4])).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_from16(i: *const u32, o: *mut u32) { sm(o, XMMatrix::from(&*(i as *const [f32; 16])).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_from4x4(i: *const u32, o: *mut u32) { sm(o, XMMatrix::from(&*(i as *const [[f32; 4]; 4])).0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_into16(i: *const u32, o: *mut u32) { let a: [f32; 16] = XMMatrix(lm(i)).into(); *(o as *mut [f32; 16]) = a; }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_into4x4(i: *const u32, o: *mut u32) { let a: [[f32; 4]; 4] = XMMatrix(lm(i)).into(); *(o as *mut [[f32; 4]; 4]) = a; }
#[no_mangle] pub unsafe extern "C" fn h_XMVector_deref(i: *const u32, o: *mut u32) { let mut v = XMVector(lv(i)); let w = *v; *v = w; sv(o, v.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMMatrix_deref(i: *const u32, o: *mut u32) { let mut v = XMMatrix(lm(i)); let w = *v; *v = w; sm(o, v.0); }
#[no_mangle] pub unsafe extern "C" fn h_XMINT2_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [i32; 2]); { let s = XMINT2::set(*(i.add(0) as *const i32), *(i.add(1) as *const i32)); *(o.add(0) as *mut i32) = s.x; *(o.add(1) as *mut i32) = s.y; } { let s = XMINT2::from(a); *(o.add(2) as *mut i32) = s.x; *(o.add(3) as *mut i32) = s.y; } { let s: &XMINT2 = (&a).into(); *(o.add(4) as *mut i32) = s.x; *(o.add(5) as *mut i32) = s.y; } let s = XMINT2::from(a); { let b: [i32; 2] = s.into(); *(o.add(6) as *mut [i32; 2]) = b; } { let b: &[i32; 2] = (&s).into(); *(o.add(8) as *mut [i32; 2]) = *b; } { let b: &[i32; 2] = s.as_ref(); *(o.add(10) as *mut [i32; 2]) = *b; } { let mut s2 = XMINT2::default(); { let b: &mut [i32; 2] = s2.as_mut(); *b = a; } let s = s2; *(o.add(12) as *mut i32) = s.x; *(o.add(13) as *mut i32) = s.y; } }
#[no_mangle] pub unsafe extern "C" fn h_XMINT3_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [i32; 3]); { let s = XMINT3::set(*(i.add(0) as *const i32), *(i.add(1) as *const i32), *(i.add(2) as *const i32)); *(o.add(0) as *mut i32) = s.x; *(o.add(1) as *mut i32) = s.y; *(o.add(2) as *mut i32) = s.z; } { let s = XMINT3::from(a); *(o.add(3) as *mut i32) = s.x; *(o.add(4) as *mut i32) = s.y; *(o.add(5) as *mut i32) = s.z; } { let s: &XMINT3 = (&a).into(); *(o.add(6) as *mut i32) = s.x; *(o.add(7) as *mut i32) = s.y; *(o.add(8) as *mut i32) = s.z; } let s = XMINT3::from(a); { let b: [i32; 3] = s.into(); *(o.add(9) as *mut [i32; 3]) = b; } { let b: &[i32; 3] = (&s).into(); *(o.add(12) as *mut [i32; 3]) = *b; } { let b: &[i32; 3] = s.as_ref(); *(o.add(15) as *mut [i32; 3]) = *b; } { let mut s2 = XMINT3::default(); { let b: &mut [i32; 3] = s2.as_mut(); *b = a; } let s = s2; *(o.add(18) as *mut i32) = s.x; *(o.add(19) as *mut i32) = s.y; *(o.add(20) as *mut i32) = s.z; } }
#[no_mangle] pub unsafe extern "C" fn h_XMINT4_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [i32; 4]); { let s = XMINT4::set(*(i.add(0) as *const i32), *(i.add(1) as *const i32), *(i.add(2) as *const i32), *(i.add(3) as *const i32)); *(o.add(0) as *mut i32) = s.x; *(o.add(1) as *mut i32) = s.y; *(o.add(2) as *mut i32) = s.z; *(o.add(3) as *mut i32) = s.w; } { let s = XMINT4::from(a); *(o.add(4) as *mut i32) = s.x; *(o.add(5) as *mut i32) = s.y; *(o.add(6) as *mut i32) = s.z; *(o.add(7) as *mut i32) = s.w; } { let s: &XMINT4 = (&a).into(); *(o.add(8) as *mut i32) = s.x; *(o.add(9) as *mut i32) = s.y; *(o.add(10) as *mut i32) = s.z; *(o.add(11) as *mut i32) = s.w; } let s = XMINT4::from(a); { let b: [i32; 4] = s.into(); *(o.add(12) as *mut [i32; 4]) = b; } { let b: &[i32; 4] = (&s).into(); *(o.add(16) as *mut [i32; 4]) = *b; } { let b: &[i32; 4] = s.as_ref(); *(o.add(20) as *mut [i32; 4]) = *b; } { let mut s2 = XMINT4::default(); { let b: &mut [i32; 4] = s2.as_mut(); *b = a; } let s = s2; *(o.add(24) as *mut i32) = s.x; *(o.add(25) as *mut i32) = s.y; *(o.add(26) as *mut i32) = s.z; *(o.add(27) as *mut i32) = s.w; } }
#[no_mangle] pub unsafe extern "C" fn h_XMUINT2_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [u32; 2]); { let s = XMUINT2::set(*(i.add(0) as *const u32), *(i.add(1) as *const u32)); *(o.add(0) as *mut u32) = s.x; *(o.add(1) as *mut u32) = s.y; } { let s = XMUINT2::from(a); *(o.add(2) as *mut u32) = s.x; *(o.add(3) as *mut u32) = s.y; } { let s: &XMUINT2 = (&a).into(); *(o.add(4) as *mut u32) = s.x; *(o.add(5) as *mut u32) = s.y; } let s = XMUINT2::from(a); { let b: [u32; 2] = s.into(); *(o.add(6) as *mut [u32; 2]) = b; } { let b: &[u32; 2] = (&s).into(); *(o.add(8) as *mut [u32; 2]) = *b; } { let b: &[u32; 2] = s.as_ref(); *(o.add(10) as *mut [u32; 2]) = *b; } { let mut s2 = XMUINT2::default(); { let b: &mut [u32; 2] = s2.as_mut(); *b = a; } let s = s2; *(o.add(12) as *mut u32) = s.x; *(o.add(13) as *mut u32) = s.y; } }
#[no_mangle] pub unsafe extern "C" fn h_XMUINT3_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [u32; 3]); { let s = XMUINT3::set(*(i.add(0) as *const u32), *(i.add(1) as *const u32), *(i.add(2) as *const u32)); *(o.add(0) as *mut u32) = s.x; *(o.add(1) as *mut u32) = s.y; *(o.add(2) as *mut u32) = s.z; } { let s = XMUINT3::from(a); *(o.add(3) as *mut u32) = s.x; *(o.add(4) as *mut u32) = s.y; *(o.add(5) as *mut u32) = s.z; } { let s: &XMUINT3 = (&a).into(); *(o.add(6) as *mut u32) = s.x; *(o.add(7) as *mut u32) = s.y; *(o.add(8) as *mut u32) = s.z; } let s = XMUINT3::from(a); { let b: [u32; 3] = s.into(); *(o.add(9) as *mut [u32; 3]) = b; } { let b: &[u32; 3] = (&s).into(); *(o.add(12) as *mut [u32; 3]) = *b; } { let b: &[u32; 3] = s.as_ref(); *(o.add(15) as *mut [u32; 3]) = *b; } { let mut s2 = XMUINT3::default(); { let b: &mut [u32; 3] = s2.as_mut(); *b = a; } let s = s2; *(o.add(18) as *mut u32) = s.x; *(o.add(19) as *mut u32) = s.y; *(o.add(20) as *mut u32) = s.z; } }
#[no_mangle] pub unsafe extern "C" fn h_XMUINT4_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [u32; 4]); { let s = XMUINT4::set(*(i.add(0) as *const u32), *(i.add(1) as *const u32), *(i.add(2) as *const u32), *(i.add(3) as *const u32)); *(o.add(0) as *mut u32) = s.x; *(o.add(1) as *mut u32) = s.y; *(o.add(2) as *mut u32) = s.z; *(o.add(3) as *mut u32) = s.w; } { let s = XMUINT4::from(a); *(o.add(4) as *mut u32) = s.x; *(o.add(5) as *mut u32) = s.y; *(o.add(6) as *mut u32) = s.z; *(o.add(7) as *mut u32) = s.w; } { let s: &XMUINT4 = (&a).into(); *(o.add(8) as *mut u32) = s.x; *(o.add(9) as *mut u32) = s.y; *(o.add(10) as *mut u32) = s.z; *(o.add(11) as *mut u32) = s.w; } let s = XMUINT4::from(a); { let b: [u32; 4] = s.into(); *(o.add(12) as *mut [u32; 4]) = b; } { let b: &[u32; 4] = (&s).into(); *(o.add(16) as *mut [u32; 4]) = *b; } { let b: &[u32; 4] = s.as_ref(); *(o.add(20) as *mut [u32; 4]) = *b; } { let mut s2 = XMUINT4::default(); { let b: &mut [u32; 4] = s2.as_mut(); *b = a; } let s = s2; *(o.add(24) as *mut u32) = s.x; *(o.add(25) as *mut u32) = s.y; *(o.add(26) as *mut u32) = s.z; *(o.add(27) as *mut u32) = s.w; } }
#[no_mangle] pub unsafe extern "C" fn h_XMFLOAT2_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [f32; 2]); { let s = XMFLOAT2::set(*(i.add(0) as *const f32), *(i.add(1) as *const f32)); *(o.add(0) as *mut f32) = s.x; *(o.add(1) as *mut f32) = s.y; } { let s = XMFLOAT2::from(a); *(o.add(2) as *mut f32) = s.x; *(o.add(3) as *mut f32) = s.y; } { let s: &XMFLOAT2 = (&a).into(); *(o.add(4) as *mut f32) = s.x; *(o.add(5) as *mut f32) = s.y; } let s = XMFLOAT2::from(a); { let b: [f32; 2] = s.into(); *(o.add(6) as *mut [f32; 2]) = b; } { let b: &[f32; 2] = (&s).into(); *(o.add(8) as *mut [f32; 2]) = *b; } { let b: &[f32; 2] = s.as_ref(); *(o.add(10) as *mut [f32; 2]) = *b; } { let mut s2 = XMFLOAT2::default(); { let b: &mut [f32; 2] = s2.as_mut(); *b = a; } let s = s2; *(o.add(12) as *mut f32) = s.x; *(o.add(13) as *mut f32) = s.y; } }
#[no_mangle] pub unsafe extern "C" fn h_XMFLOAT3_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [f32; 3]); { let s = XMFLOAT3::set(*(i.add(0) as *const f32), *(i.add(1) as *const f32), *(i.add(2) as *const f32)); *(o.add(0) as *mut f32) = s.x; *(o.add(1) as *mut f32) = s.y; *(o.add(2) as *mut f32) = s.z; } { let s = XMFLOAT3::from(a); *(o.add(3) as *mut f32) = s.x; *(o.add(4) as *mut f32) = s.y; *(o.add(5) as *mut f32) = s.z; } { let s: &XMFLOAT3 = (&a).into(); *(o.add(6) as *mut f32) = s.x; *(o.add(7) as *mut f32) = s.y; *(o.add(8) as *mut f32) = s.z; } let s = XMFLOAT3::from(a); { let b: [f32; 3] = s.into(); *(o.add(9) as *mut [f32; 3]) = b; } { let b: &[f32; 3] = (&s).into(); *(o.add(12) as *mut [f32; 3]) = *b; } { let b: &[f32; 3] = s.as_ref(); *(o.add(15) as *mut [f32; 3]) = *b; } { let mut s2 = XMFLOAT3::default(); { let b: &mut [f32; 3] = s2.as_mut(); *b = a; } let s = s2; *(o.add(18) as *mut f32) = s.x; *(o.add(19) as *mut f32) = s.y; *(o.add(20) as *mut f32) = s.z; } }
#[no_mangle] pub unsafe extern "C" fn h_XMFLOAT4_conv(i: *const u32, o: *mut u32) { let a = *(i as *const [f32; 4]); { let s = XMFLOAT4::set(*(i.add(0) as *const f32), *(i.add(1) as *const f32), *(i.add(2) as *const f32), *(i.add(3) as *const f32)); *(o.add(0) as *mut f32) = s.x; *(o.add(1) as *mut f32) = s.y; *(o.add(2) as *mut f32) = s.z; *(o.add(3) as *mut f32) = s.w; } { let s = XMFLOAT4::from(a); *(o.add(4) as *mut f32) = s.x; *(o.add(5) as *mut f32) = s.y; *(o.add(6) as *mut f32) = s.z; *(o.add(7) as *mut f32) = s.w; } { let s: &XMFLOAT4 = (&a).into(); *(o.add(8) as *mut f32) = s.x; *(o.add(9) as *mut f32) = s.y; *(o.add(10) as *mut f32) = s.z; *(o.add(11) as *mut f32) = s.w; } let s = XMFLOAT4::from(a); { let b: [f32; 4] = s.into(); *(o.add(12) as *mut [f32; 4]) = b; } { let b: &[f32; 4] = (&s).into(); *(o.add(16) as *mut [f32; 4]) = *b; } { let b: &[f32; 4] = s.as_ref(); *(o.add(20) as *mut [f32; 4]) = *b; } { let mut s2 = XMFLOAT4::default(); { let b: &mut [f32; 4] = s2.as_mut(); *b = a; } let s = s2; *(o.add(24) as *mut f32) = s.x; *(o.add(25) as *mut f32) = s.y; *(o.add(26) as *mut f32) = s.z; *(o.add(27) as *mut f32) = s.w; } }
#[no_mangle] pub unsafe extern "C" fn h_XMFLOAT3X3_conv(i: *const u32, o: *mut u32) { { let a = *(i as *const [f32; 9]); { let s = XMFLOAT3X3::from(a); *(o.add(0) as *mut f32) = s.m[0][0]; *(o.add(1) as *mut f32) = s.m[0][1]; *(o.add(2) as *mut f32) = s.m[0][2]; *(o.add(3) as *mut f32) = s.m[1][0]; *(o.add(4) as *mut f32) = s.m[1][1]; *(o.add(5) as *mut f32) = s.m[1][2]; *(o.add(6) as *mut f32) = s.m[2][0]; *(o.add(7) as *mut f32) = s.m[2][1]; *(o.add(8) as *mut f32) = s.m[2][2]; } { let s: &XMFLOAT3X3 = (&a).into(); *(o.add(9) as *mut f32) = s.m[0][0]; *(o.add(10) as *mut f32) = s.m[0][1]; *(o.add(11) as *mut f32) = s.m[0][2]; *(o.add(12) as *mut f32) = s.m[1][0]; *(o.add(13) as *mut f32) = s.m[1][1]; *(o.add(14) as *mut f32) = s.m[1][2]; *(o.add(15) as *mut f32) = s.m[2][0]; *(o.add(16) as *mut f32) = s.m[2][1]; *(o.add(17) as *mut f32) = s.m[2][2]; } let s = XMFLOAT3X3::from(a); { let b: [f32; 9] = s.into(); *(o.add(18) as *mut [f32; 9]) = b; } { let b: &[f32; 9] = (&s).into(); *(o.add(27) as *mut [f32; 9]) = *b; } { let b: &[f32; 9] = s.as_ref(); *(o.add(36) as *mut [f32; 9]) = *b; } { let mut s2 = XMFLOAT3X3::default(); { let b: &mut [f32; 9] = s2.as_mut(); *b = a; } let s = s2; *(o.add(45) as *mut f32) = s.m[0][0]; *(o.add(46) as *mut f32) = s.m[0][1]; *(o.add(47) as *mut f32) = s.m[0][2]; *(o.add(48) as *mut f32) = s.m[1][0]; *(o.add(49) as *mut f32) = s.m[1][1]; *(o.add(50) as *mut f32) = s.m[1][2]; *(o.add(51) as *mut f32) = s.m[2][0]; *(o.add(52) as *mut f32) = s.m[2][1]; *(o.add(53) as *mut f32) = s.m[2][2]; } } { let a = *(i as *const [[f32; 3]; 3]); { let s = XMFLOAT3X3::from(a); *(o.add(54) as *mut f32) = s.m[0][0]; *(o.add(55) as *mut f32) = s.m[0][1]; *(o.add(56) as *mut f32) = s.m[0][2]; *(o.add(57) as *mut f32) = s.m[1][0]; *(o.add(58) as *mut f32) = s.m[1][1]; *(o.add(59) as *mut f32) = s.m[1][2]; *(o.add(60) as *mut f32) = s.m[2][0]; *(o.add(61) as *mut f32) = s.m[2][1]; *(o.add(62) as *mut f32) = s.m[2][2]; } { let s: &XMFLOAT3X3 = (&a).into(); *(o.add(63) as *mut f32) = s.m[0][0]; *(o.add(64) as *mut f32) = s.m[0][1]; *(o.add(65) as *mut f32) = s.m[0][2]; *(o.add(66) as *mut f32) = s.m[1][0]; *(o.add(67) as *mut f32) = s.m[1][1]; *(o.add(68) as *mut f32) = s.m[1][2]; *(o.add(69) as *mut f32) = s.m[2][0]; *(o.add(70) as *mut f32) = s.m[2][1]; *(o.add(71) as *mut f32) = s.m[2][2]; } let s = XMFLOAT3X3::from(a); { let b: [[f32; 3]; 3] = s.into(); *(o.add(72) as *mut [[f32; 3]; 3]) = b; } { let b: &[[f32; 3]; 3] = (&s).into(); *(o.add(81) as *mut [[f32; 3]; 3]) = *b; } { let b: &[[f32; 3]; 3] = s.as_ref(); *(o.add(90) as *mut [[f32; 3]; 3]) = *b; } { let mut s2 = XMFLOAT3X3::default(); { let b: &mut [[f32; 3]; 3] = s2.as_mut(); *b = a; } let s = s2; *(o.add(99) as *mut f32) = s.m[0][0]; *(o.add(100) as *mut f32) = s.m[0][1]; *(o.add(101) as *mut f32) = s.m[0][2]; *(o.add(102) as *mut f32) = s.m[1][0]; *(o.add(103) as *mut f32) = s.m[1][1]; *(o.add(104) as *mut f32) = s.m[1][2]; *(o.add(105) as *mut f32) = s.m[2][0]; *(o.add(106) as *mut f32) = s.m[2][1]; *(o.add(107) as *mut f32) = s.m[2][2]; } } }
#[no_mangle] pub unsafe extern "C" fn h_XMFLOAT4X3_conv(i: *const u32, o: *mut u32) { { let a = *(i as *const [f32; 12]); { let s = XMFLOAT4X3::from(a); *(o.add(0) as *mut f32) = s.m[0][0]; *(o.add(1) as *mut f32) = s.m[0][1]; *(o.add(2) as *mut f32) = s.m[0][2]; *(o.add(3) as *mut f32) = s.m[1][0]; *(o.add(4) as *mut f32) = s.m[1][1]; *(o.add(5) as *mut f32) = s.m[1][2]; *(o.add(6) as *mut f32) = s.m[2][0]; *(o.add(7) as *mut f32) = s.m[2][1]; *(o.add(8) as *mut f32) = s.m[2][2]; *(o.add(9) as *mut f32) = s.m[3][0]; *(o.add(10) as *mut f32) = s.m[3][1]; *(o.add(11) as *mut f32) = s.m[3][2]; } { let s: &XMFLOAT4X3 = (&a).into(); *(o.add(12) as *mut f32) = s.m[0][0]; *(o.add(13) as *mut f32) = s.m[0][1]; *(o.add(14) as *mut f32) = s.m[0][2]; *(o.add(15) as *mut f32) = s.m[1][0]; *(o.add(16) as *mut f32) = s.m[1][1]; *(o.add(17) as *mut f32) = s.m[1][2]; *(o.add(18) as *mut f32) = s.m[2][0]; *(o.add(19) as *mut f32) = s.m[2][1]; *(o.add(20) as *mut f32) = s.m[2][2]; *(o.add(21) as *mut f32) = s.m[3][0]; *(o.add(22) as *mut f32) = s.m[3][1]; *(o.add(23) as *mut f32) = s.m[3][2]; } let s = XMFLOAT4X3::from(a); { let b: [f32; 12] = s.into(); *(o.add(24) as *mut [f32; 12]) = b; } { let b: &[f32; 12] = (&s).into(); *(o.add(36) as *mut [f32; 12]) = *b; } { let b: &[f32; 12] = s.as_ref(); *(o.add(48) as *mut [f32; 12]) = *b; } { let mut s2 = XMFLOAT4X3::default(); { let b: &mut [f32; 12] = s2.as_mut(); *b = a; } let s = s2; *(o.add(60) as *mut f32) = s.m[0][0]; *(o.add(61) as *mut f32) = s.m[0][1]; *(o.add(62) as *mut f32) = s.m[0][2]; *(o.add(63) as *mut f32) = s.m[1][0]; *(o.add(64) as *mut f32) = s.m[1][1]; *(o.add(65) as *mut f32) = s.m[1][2]; *(o.add(66) as *mut f32) = s.m[2][0]; *(o.add(67) as *mut f32) = s.m[2][1]; *(o.add(68) as *mut f32) = s.m[2][2]; *(o.add(69) as *mut f32) = s.m[3][0]; *(o.add(70) as *mut f32) = s.m[3][1]; *(o.add(71) as *mut f32) = s.m[3][2]; } } { let a = *(i as *const [[f32; 3]; 4]); { let s = XMFLOAT4X3::from(a); *(o.add(72) as *mut f32) = s.m[0][0]; *(o.add(73) as *mut f32) = s.m[0][1]; *(o.add(74) as *mut f32) = s.m[0][2]; *(o.add(75) as *mut f32) = s.m[1][0]; *(o.add(76) as *mut f32) = s.m[1][1]; *(o.add(77) as *mut f32) = s.m[1][2]; *(o.add(78) as *mut f32) = s.m[2][0]; *(o.add(79) as *mut f32) = s.m[2][1]; *(o.add(80) as *mut f32) = s.m[2][2]; *(o.add(81) as *mut f32) = s.m[3][0]; *(o.add(82) as *mut f32) = s.m[3][1]; *(o.add(83) as *mut f32) = s.m[3][2]; } { let s: &XMFLOAT4X3 = (&a).into(); *(o.add(84) as *mut f32) = s.m[0][0]; *(o.add(85) as *mut f32) = s.m[0][1]; *(o.add(86) as *mut f32) = s.m[0][2]; *(o.add(87) as *mut f32) = s.m[1][0]; *(o.add(88) as *mut f32) = s.m[1][1]; *(o.add(89) as *mut f32) = s.m[1][2]; *(o.add(90) as *mut f32) = s.m[2][0]; *(o.add(91) as *mut f32) = s.m[2][1]; *(o.add(92) as *mut f32) = s.m[2][2]; *(o.add(93) as *mut f32) = s.m[3][0]; *(o.add(94) as *mut f32) = s.m[3][1]; *(o.add(95) as *mut f32) = s.m[3][2]; } let s = XMFLOAT4X3::from(a); { let b: [[f32; 3]; 4] = s.into(); *(o.add(96) as *mut [[f32; 3]; 4]) = b; } { let b: &[[f32; 3]; 4] = (&s).into(); *(o.add(108) as *mut [[f32; 3]; 4]) = *b; } { let b: &[[f32; 3]; 4] = s.as_ref(); *(o.add(120) as *mut [[f32; 3]; 4]) = *b; } { let mut s2 = XMFLOAT4X3::default(); { let b: &mut [[f32; 3]; 4] = s2.as_mut(); *b = a; } let s = s2; *(o.add(132) as *mut f32) = s.m[0][0]; *(o.add(133) as *mut f32) = s.m[0][1]; *(o.add(134) as *mut f32) = s.m[0][2]; *(o.add(135) as *mut f32) = s.m[1][0]; *(o.add(136) as *mut f32) = s.m[1][1]; *(o.add(137) as *mut f32) = s.m[1][2]; *(o.add(138) as *mut f32) = s.m[2][0]; *(o.add(139) as *mut f32) = s.m[2][1]; *(o.add(140) as *mut f32) = s.m[2][2]; *(o.add(141) as *mut f32) = s.m[3][0]; *(o.add(142) as *mut f32) = s.m[3][1]; *(o.add(143) as *mut f32) = s.m[3][2]; } } }
#[no_mangle] pub unsafe extern "C" fn h_XMFLOAT3X4_conv(i: *const u32, o: *mut u32) { { let a = *(i as *const [f32; 12]); { let s = XMFLOAT3X4::from(a); *(o.add(0) as *mut f32) = s.m[0][0]; *(o.add(1) as *mut f32) = s.m[0][1]; *(o.add(2) as *mut f32) = s.m[0][2]; *(o.add(3) as *mut f32) = s.m[0][3]; *(o.add(4) as *mut f32) = s.m[1][0]; *(o.add(5) as *mut f32) = s.m[1][1]; *(o.add(6) as *mut f32) = s.m[1][2]; *(o.add(7) as *mut f32) = s.m[1][3]; *(o.add(8) as *mut f32) = s.m[2][0]; *(o.add(9) as *mut f32) = s.m[2][1]; *(o.add(10) as *mut f32) = s.m[2][2]; *(o.add(11) as *mut f32) = s.m[2][3]; } { let s: &XMFLOAT3X4 = (&a).into(); *(o.add(12) as *mut f32) = s.m[0][0]; *(o.add(13) as *mut f32) = s.m[0][1]; *(o.add(14) as *mut f32) = s.m[0][2]; *(o.add(15) as *mut f32) = s.m[0][3]; *(o.add(16) as *mut f32) = s.m[1][0]; *(o.add(17) as *mut f32) = s.m[1][1]; *(o.add(18) as *mut f32) = s.m[1][2]; *(o.add(19) as *mut f32) = s.m[1][3]; *(o.add(20) as *mut f32) = s.m[2][0]; *(o.add(21) as *mut f32) = s.m[2][1]; *(o.add(22) as *mut f32) = s.m[2][2]; *(o.add(23) as *mut f32) = s.m[2][3]; } let s = XMFLOAT3X4::from(a); { let b: [f32; 12] = s.into(); *(o.add(24) as *mut [f32; 12]) = b; } { let b: &[f32; 12] = (&s).into(); *(o.add(36) as *mut [f32; 12]) = *b; } { let b: &[f32; 12] = s.as_ref(); *(o.add(48) as *mut [f32; 12]) = *b; } { let mut s2 = XMFLOAT3X4::default(); { let b: &mut [f32; 12] = s2.as_mut(); *b = a; } let s = s2; *(o.add(60) as *mut f32) = s.m[0][0]; *(o.add(61) as *mut f32) = s.m[0][1]; *(o.add(62) as *mut f32) = s.m[0][2]; *(o.add(63) as *mut f32) = s.m[0][3]; *(o.add(64) as *mut f32) = s.m[1][0]; *(o.add(65) as *mut f32) = s.m[1][1]; *(o.add(66) as *mut f32) = s.m[1][2]; *(o.add(67) as *mut f32) = s.m[1][3]; *(o.add(68) as *mut f32) = s.m[2][0]; *(o.add(69) as *mut f32) = s.m[2][1]; *(o.add(70) as *mut f32) = s.m[2][2]; *(o.add(71) as *mut f32) = s.m[2][3]; } } { let a = *(i as *const [[f32; 4]; 3]); { let s = XMFLOAT3X4::from(a); *(o.add(72) as *mut f32) = s.m[0][0]; *(o.add(73) as *mut f32) = s.m[0][1]; *(o.add(74) as *mut f32) = s.m[0][2]; *(o.add(75) as *mut f32) = s.m[0][3]; *(o.add(76) as *mut f32) = s.m[1][0]; *(o.add(77) as *mut f32) = s.m[1][1]; *(o.add(78) as *mut f32) = s.m[1][2]; *(o.add(79) as *mut f32) = s.m[1][3]; *(o.add(80) as *mut f32) = s.m[2][0]; *(o.add(81) as *mut f32) = s.m[2][1]; *(o.add(82) as *mut f32) = s.m[2][2]; *(o.add(83) as *mut f32) = s.m[2][3]; } { let s: &XMFLOAT3X4 = (&a).into(); *(o.add(84) as *mut f32) = s.m[0][0]; *(o.add(85) as *mut f32) = s.m[0][1]; *(o.add(86) as *mut f32) = s.m[0][2]; *(o.add(87) as *mut f32) = s.m[0][3]; *(o.add(88) as *mut f32) = s.m[1][0]; *(o.add(89) as *mut f32) = s.m[1][1]; *(o.add(90) as *mut f32) = s.m[1][2]; *(o.add(91) as *mut f32) = s.m[1][3]; *(o.add(92) as *mut f32) = s.m[2][0]; *(o.add(93) as *mut f32) = s.m[2][1]; *(o.add(94) as *mut f32) = s.m[2][2]; *(o.add(95) as *mut f32) = s.m[2][3]; } let s = XMFLOAT3X4::from(a); { let b: [[f32; 4]; 3] = s.into(); *(o.add(96) as *mut [[f32; 4]; 3]) = b; } { let b: &[[f32; 4]; 3] = (&s).into(); *(o.add(108) as *mut [[f32; 4]; 3]) = *b; } { let b: &[[f32; 4]; 3] = s.as_ref(); *(o.add(120) as *mut [[f32; 4]; 3]) = *b; } { let mut s2 = XMFLOAT3X4::default(); { let b: &mut [[f32; 4]; 3] = s2.as_mut(); *b = a; } let s = s2; *(o.add(132) as *mut f32) = s.m[0][0]; *(o.add(133) as *mut f32) = s.m[0][1]; *(o.add(134) as *mut f32) = s.m[0][2]; *(o.add(135) as *mut f32) = s.m[0][3]; *(o.add(136) as *mut f32) = s.m[1][0]; *(o.add(137) as *mut f32) = s.m[1][1]; *(o.add(138) as *mut f32) = s.m[1][2]; *(o.add(139) as *mut f32) = s.m[1][3]; *(o.add(140) as *mut f32) = s.m[2][0]; *(o.add(141) as *mut f32) = s.m[2][1]; *(o.add(142) as *mut f32) = s.m[2][2]; *(o.add(143) as *mut f32) = s.m[2][3]; } } }
#[no_mangle] pub unsafe extern "C" fn h_XMFLOAT4X4_conv(i: *const u32, o: *mut u32) { { let a = *(i as *const [f32; 16]); { let s = XMFLOAT4X4::from(a); *(o.add(0) as *mut f32) = s.m[0][0]; *(o.add(1) as *mut f32) = s.m[0][1]; *(o.add(2) as *mut f32) = s.m[0][2]; *(o.add(3) as *mut f32) = s.m[0][3]; *(o.add(4) as *mut f32) = s.m[1][0]; *(o.add(5) as *mut f32) = s.m[1][1]; *(o.add(6) as *mut f32) = s.m[1][2]; *(o.add(7) as *mut f32) = s.m[1][3]; *(o.add(8) as *mut f32) = s.m[2][0]; *(o.add(9) as *mut f32) = s.m[2][1]; *(o.add(10) as *mut f32) = s.m[2][2]; *(o.add(11) as *mut f32) = s.m[2][3]; *(o.add(12) as *mut f32) = s.m[3][0]; *(o.add(13) as *mut f32) = s.m[3][1]; *(o.add(14) as *mut f32) = s.m[3][2]; *(o.add(15) as *mut f32) = s.m[3][3]; } { let s: &XMFLOAT4X4 = (&a).into(); *(o.add(16) as *mut f32) = s.m[0][0]; *(o.add(17) as *mut f32) = s.m[0][1]; *(o.add(18) as *mut f32) = s.m[0][2]; *(o.add(19) as *mut f32) = s.m[0][3]; *(o.add(20) as *mut f32) = s.m[1][0]; *(o.add(21) as *mut f32) = s.m[1][1]; *(o.add(22) as *mut f32) = s.m[1][2]; *(o.add(23) as *mut f32) = s.m[1][3]; *(o.add(24) as *mut f32) = s.m[2][0]; *(o.add(25) as *mut f32) = s.m[2][1]; *(o.add(26) as *mut f32) = s.m[2][2]; *(o.add(27) as *mut f32) = s.m[2][3]; *(o.add(28) as *mut f32) = s.m[3][0]; *(o.add(29) as *mut f32) = s.m[3][1]; *(o.add(30) as *mut f32) = s.m[3][2]; *(o.add(31) as *mut f32) = s.m[3][3]; } let s = XMFLOAT4X4::from(a); { let b: [f32; 16] = s.into(); *(o.add(32) as *mut [f32; 16]) = b; } { let b: &[f32; 16] = (&s).into(); *(o.add(48) as *mut [f32; 16]) = *b; } { let b: &[f32; 16] = s.as_ref(); *(o.add(64) as *mut [f32; 16]) = *b; } { let mut s2 = XMFLOAT4X4::default(); { let b: &mut [f32; 16] = s2.as_mut(); *b = a; } let s = s2; *(o.add(80) as *mut f32) = s.m[0][0]; *(o.add(81) as *mut f32) = s.m[0][1]; *(o.add(82) as *mut f32) = s.m[0][2]; *(o.add(83) as *mut f32) = s.m[0][3]; *(o.add(84) as *mut f32) = s.m[1][0]; *(o.add(85) as *mut f32) = s.m[1][1]; *(o.add(86) as *mut f32) = s.m[1][2]; *(o.add(87) as *mut f32) = s.m[1][3]; *(o.add(88) as *mut f32) = s.m[2][0]; *(o.add(89) as *mut f32) = s.m[2][1]; *(o.add(90) as *mut f32) = s.m[2][2]; *(o.add(91) as *mut f32) = s.m[2][3]; *(o.add(92) as *mut f32) = s.m[3][0]; *(o.add(93) as *mut f32) = s.m[3][1]; *(o.add(94) as *mut f32) = s.m[3][2]; *(o.add(95) as *mut f32) = s.m[3][3]; } } { let a = *(i as *const [[f32; 4]; 4]); { let s = XMFLOAT4X4::from(a); *(o.add(96) as *mut f32) = s.m[0][0]; *(o.add(97) as *mut f32) = s.m[0][1]; *(o.add(98) as *mut f32) = s.m[0][2]; *(o.add(99) as *mut f32) = s.m[0][3]; *(o.add(100) as *mut f32) = s.m[1][0]; *(o.add(101) as *mut f32) = s.m[1][1]; *(o.add(102) as *mut f32) = s.m[1][2]; *(o.add(103) as *mut f32) = s.m[1][3]; *(o.add(104) as *mut f32) = s.m[2][0]; *(o.add(105) as *mut f32) = s.m[2][1]; *(o.add(106) as *mut f32) = s.m[2][2]; *(o.add(107) as *mut f32) = s.m[2][3]; *(o.add(108) as *mut f32) = s.m[3][0]; *(o.add(109) as *mut f32) = s.m[3][1]; *(o.add(110) as *mut f32) = s.m[3][2]; *(o.add(111) as *mut f32) = s.m[3][3]; } { let s: &XMFLOAT4X4 = (&a).into(); *(o.add(112) as *mut f32) = s.m[0][0]; *(o.add(113) as *mut f32) = s.m[0][1]; *(o.add(114) as *mut f32) = s.m[0][2]; *(o.add(115) as *mut f32) = s.m[0][3]; *(o.add(116) as *mut f32) = s.m[1][0]; *(o.add(117) as *mut f32) = s.m[1][1]; *(o.add(118) as *mut f32) = s.m[1][2]; *(o.add(119) as *mut f32) = s.m[1][3]; *(o.add(120) as *mut f32) = s.m[2][0]; *(o.add(121) as *mut f32) = s.m[2][1]; *(o.add(122) as *mut f32) = s.m[2][2]; *(o.add(123) as *mut f32) = s.m[2][3]; *(o.add(124) as *mut f32) = s.m[3][0]; *(o.add(125) as *mut f32) = s.m[3][1]; *(o.add(126) as *mut f32) = s.m[3][2]; *(o.add(127) as *mut f32) = s.m[3][3]; } let s = XMFLOAT4X4::from(a); { let b: [[f32; 4]; 4] = s.into(); *(o.add(128) as *mut [[f32; 4]; 4]) = b; } { let b: &[[f32; 4]; 4] = (&s).into(); *(o.add(144) as *mut [[f32; 4]; 4]) = *b; } { let b: &[[f32; 4]; 4] = s.as_ref(); *(o.add(160) as *mut [[f32; 4]; 4]) = *b; } { let mut s2 = XMFLOAT4X4::default(); { let b: &mut [[f32; 4]; 4] = s2.as_mut(); *b = a; } let s = s2; *(o.add(176) as *mut f32) = s.m[0][0]; *(o.add(177) as *mut f32) = s.m[0][1]; *(o.add(178) as *mut f32) = s.m[0][2]; *(o.add(179) as *mut f32) = s.m[0][3]; *(o.add(180) as *mut f32) = s.m[1][0]; *(o.add(181) as *mut f32) = s.m[1][1]; *(o.add(182) as *mut f32) = s.m[1][2]; *(o.add(183) as *mut f32) = s.m[1][3]; *(o.add(184) as *mut f32) = s.m[2][0]; *(o.add(185) as *mut f32) = s.m[2][1]; *(o.add(186) as *mut f32) = s.m[2][2]; *(o.add(187) as *mut f32) = s.m[2][3]; *(o.add(188) as *mut f32) = s.m[3][0]; *(o.add(189) as *mut f32) = s.m[3][1]; *(o.add(190) as *mut f32) = s.m[3][2]; *(o.add(191) as *mut f32) = s.m[3][3]; } } }
#[no_mangle] pub unsafe extern "C" fn h_trait_swizzle0(i: *const u32, o: *mut u32) { let v = lv(i); sv(o.add(0), <(SwizzleX, SwizzleX, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(4), <(SwizzleX, SwizzleX, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(8), <(SwizzleX, SwizzleX, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(12), <(SwizzleX, SwizzleX, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(16), <(SwizzleX, SwizzleX, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(20), <(SwizzleX, SwizzleX, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(24), <(SwizzleX, SwizzleX, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(28), <(SwizzleX, SwizzleX, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(32), <(SwizzleX, SwizzleX, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(36), <(SwizzleX, SwizzleX, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(40), <(SwizzleX, SwizzleX, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(44), <(SwizzleX, SwizzleX, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(48), <(SwizzleX, SwizzleX, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(52), <(SwizzleX, SwizzleX, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(56), <(SwizzleX, SwizzleX, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(60), <(SwizzleX, SwizzleX, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(64), <(SwizzleX, SwizzleY, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(68), <(SwizzleX, SwizzleY, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(72), <(SwizzleX, SwizzleY, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(76), <(SwizzleX, SwizzleY, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(80), <(SwizzleX, SwizzleY, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(84), <(SwizzleX, SwizzleY, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(88), <(SwizzleX, SwizzleY, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(92), <(SwizzleX, SwizzleY, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(96), <(SwizzleX, SwizzleY, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(100), <(SwizzleX, SwizzleY, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(104), <(SwizzleX, SwizzleY, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(108), <(SwizzleX, SwizzleY, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(112), <(SwizzleX, SwizzleY, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(116), <(SwizzleX, SwizzleY, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(120), <(SwizzleX, SwizzleY, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(124), <(SwizzleX, SwizzleY, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(128), <(SwizzleX, SwizzleZ, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(132), <(SwizzleX, SwizzleZ, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(136), <(SwizzleX, SwizzleZ, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(140), <(SwizzleX, SwizzleZ, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(144), <(SwizzleX, SwizzleZ, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(148), <(SwizzleX, SwizzleZ, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(152), <(SwizzleX, SwizzleZ, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(156), <(SwizzleX, SwizzleZ, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(160), <(SwizzleX, SwizzleZ, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(164), <(SwizzleX, SwizzleZ, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(168), <(SwizzleX, SwizzleZ, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(172), <(SwizzleX, SwizzleZ, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(176), <(SwizzleX, SwizzleZ, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(180), <(SwizzleX, SwizzleZ, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(184), <(SwizzleX, SwizzleZ, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(188), <(SwizzleX, SwizzleZ, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(192), <(SwizzleX, SwizzleW, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(196), <(SwizzleX, SwizzleW, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(200), <(SwizzleX, SwizzleW, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(204), <(SwizzleX, SwizzleW, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(208), <(SwizzleX, SwizzleW, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(212), <(SwizzleX, SwizzleW, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(216), <(SwizzleX, SwizzleW, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(220), <(SwizzleX, SwizzleW, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(224), <(SwizzleX, SwizzleW, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(228), <(SwizzleX, SwizzleW, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(232), <(SwizzleX, SwizzleW, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(236), <(SwizzleX, SwizzleW, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(240), <(SwizzleX, SwizzleW, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(244), <(SwizzleX, SwizzleW, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(248), <(SwizzleX, SwizzleW, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(252), <(SwizzleX, SwizzleW, SwizzleW, SwizzleW)>::XMVectorSwizzle(v)); }
#[no_mangle] pub unsafe extern "C" fn h_trait_swizzle1(i: *const u32, o: *mut u32) { let v = lv(i); sv(o.add(0), <(SwizzleY, SwizzleX, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(4), <(SwizzleY, SwizzleX, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(8), <(SwizzleY, SwizzleX, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(12), <(SwizzleY, SwizzleX, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(16), <(SwizzleY, SwizzleX, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(20), <(SwizzleY, SwizzleX, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(24), <(SwizzleY, SwizzleX, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(28), <(SwizzleY, SwizzleX, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(32), <(SwizzleY, SwizzleX, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(36), <(SwizzleY, SwizzleX, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(40), <(SwizzleY, SwizzleX, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(44), <(SwizzleY, SwizzleX, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(48), <(SwizzleY, SwizzleX, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(52), <(SwizzleY, SwizzleX, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(56), <(SwizzleY, SwizzleX, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(60), <(SwizzleY, SwizzleX, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(64), <(SwizzleY, SwizzleY, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(68), <(SwizzleY, SwizzleY, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(72), <(SwizzleY, SwizzleY, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(76), <(SwizzleY, SwizzleY, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(80), <(SwizzleY, SwizzleY, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(84), <(SwizzleY, SwizzleY, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(88), <(SwizzleY, SwizzleY, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(92), <(SwizzleY, SwizzleY, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(96), <(SwizzleY, SwizzleY, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(100), <(SwizzleY, SwizzleY, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(104), <(SwizzleY, SwizzleY, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(108), <(SwizzleY, SwizzleY, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(112), <(SwizzleY, SwizzleY, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(116), <(SwizzleY, SwizzleY, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(120), <(SwizzleY, SwizzleY, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(124), <(SwizzleY, SwizzleY, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(128), <(SwizzleY, SwizzleZ, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(132), <(SwizzleY, SwizzleZ, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(136), <(SwizzleY, SwizzleZ, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(140), <(SwizzleY, SwizzleZ, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(144), <(SwizzleY, SwizzleZ, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(148), <(SwizzleY, SwizzleZ, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(152), <(SwizzleY, SwizzleZ, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(156), <(SwizzleY, SwizzleZ, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(160), <(SwizzleY, SwizzleZ, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(164), <(SwizzleY, SwizzleZ, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(168), <(SwizzleY, SwizzleZ, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(172), <(SwizzleY, SwizzleZ, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(176), <(SwizzleY, SwizzleZ, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(180), <(SwizzleY, SwizzleZ, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(184), <(SwizzleY, SwizzleZ, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(188), <(SwizzleY, SwizzleZ, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(192), <(SwizzleY, SwizzleW, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(196), <(SwizzleY, SwizzleW, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(200), <(SwizzleY, SwizzleW, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(204), <(SwizzleY, SwizzleW, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(208), <(SwizzleY, SwizzleW, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(212), <(SwizzleY, SwizzleW, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(216), <(SwizzleY, SwizzleW, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(220), <(SwizzleY, SwizzleW, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(224), <(SwizzleY, SwizzleW, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(228), <(SwizzleY, SwizzleW, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(232), <(SwizzleY, SwizzleW, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(236), <(SwizzleY, SwizzleW, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(240), <(SwizzleY, SwizzleW, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(244), <(SwizzleY, SwizzleW, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(248), <(SwizzleY, SwizzleW, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(252), <(SwizzleY, SwizzleW, SwizzleW, SwizzleW)>::XMVectorSwizzle(v)); }
#[no_mangle] pub unsafe extern "C" fn h_trait_swizzle2(i: *const u32, o: *mut u32) { let v = lv(i); sv(o.add(0), <(SwizzleZ, SwizzleX, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(4), <(SwizzleZ, SwizzleX, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(8), <(SwizzleZ, SwizzleX, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(12), <(SwizzleZ, SwizzleX, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(16), <(SwizzleZ, SwizzleX, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(20), <(SwizzleZ, SwizzleX, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(24), <(SwizzleZ, SwizzleX, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(28), <(SwizzleZ, SwizzleX, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(32), <(SwizzleZ, SwizzleX, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(36), <(SwizzleZ, SwizzleX, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(40), <(SwizzleZ, SwizzleX, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(44), <(SwizzleZ, SwizzleX, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(48), <(SwizzleZ, SwizzleX, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(52), <(SwizzleZ, SwizzleX, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(56), <(SwizzleZ, SwizzleX, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(60), <(SwizzleZ, SwizzleX, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(64), <(SwizzleZ, SwizzleY, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(68), <(SwizzleZ, SwizzleY, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(72), <(SwizzleZ, SwizzleY, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(76), <(SwizzleZ, SwizzleY, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(80), <(SwizzleZ, SwizzleY, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(84), <(SwizzleZ, SwizzleY, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(88), <(SwizzleZ, SwizzleY, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(92), <(SwizzleZ, SwizzleY, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(96), <(SwizzleZ, SwizzleY, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(100), <(SwizzleZ, SwizzleY, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(104), <(SwizzleZ, SwizzleY, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(108), <(SwizzleZ, SwizzleY, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(112), <(SwizzleZ, SwizzleY, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(116), <(SwizzleZ, SwizzleY, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(120), <(SwizzleZ, SwizzleY, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(124), <(SwizzleZ, SwizzleY, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(128), <(SwizzleZ, SwizzleZ, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(132), <(SwizzleZ, SwizzleZ, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(136), <(SwizzleZ, SwizzleZ, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(140), <(SwizzleZ, SwizzleZ, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(144), <(SwizzleZ, SwizzleZ, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(148), <(SwizzleZ, SwizzleZ, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(152), <(SwizzleZ, SwizzleZ, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(156), <(SwizzleZ, SwizzleZ, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(160), <(SwizzleZ, SwizzleZ, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(164), <(SwizzleZ, SwizzleZ, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(168), <(SwizzleZ, SwizzleZ, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(172), <(SwizzleZ, SwizzleZ, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(176), <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(180), <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(184), <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(188), <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(192), <(SwizzleZ, SwizzleW, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(196), <(SwizzleZ, SwizzleW, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(200), <(SwizzleZ, SwizzleW, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(204), <(SwizzleZ, SwizzleW, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(208), <(SwizzleZ, SwizzleW, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(212), <(SwizzleZ, SwizzleW, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(216), <(SwizzleZ, SwizzleW, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(220), <(SwizzleZ, SwizzleW, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(224), <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(228), <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(232), <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(236), <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(240), <(SwizzleZ, SwizzleW, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(244), <(SwizzleZ, SwizzleW, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(248), <(SwizzleZ, SwizzleW, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(252), <(SwizzleZ, SwizzleW, SwizzleW, SwizzleW)>::XMVectorSwizzle(v)); }
#[no_mangle] pub unsafe extern "C" fn h_trait_swizzle3(i: *const u32, o: *mut u32) { let v = lv(i); sv(o.add(0), <(SwizzleW, SwizzleX, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(4), <(SwizzleW, SwizzleX, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(8), <(SwizzleW, SwizzleX, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(12), <(SwizzleW, SwizzleX, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(16), <(SwizzleW, SwizzleX, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(20), <(SwizzleW, SwizzleX, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(24), <(SwizzleW, SwizzleX, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(28), <(SwizzleW, SwizzleX, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(32), <(SwizzleW, SwizzleX, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(36), <(SwizzleW, SwizzleX, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(40), <(SwizzleW, SwizzleX, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(44), <(SwizzleW, SwizzleX, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(48), <(SwizzleW, SwizzleX, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(52), <(SwizzleW, SwizzleX, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(56), <(SwizzleW, SwizzleX, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(60), <(SwizzleW, SwizzleX, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(64), <(SwizzleW, SwizzleY, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(68), <(SwizzleW, SwizzleY, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(72), <(SwizzleW, SwizzleY, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(76), <(SwizzleW, SwizzleY, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(80), <(SwizzleW, SwizzleY, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(84), <(SwizzleW, SwizzleY, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(88), <(SwizzleW, SwizzleY, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(92), <(SwizzleW, SwizzleY, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(96), <(SwizzleW, SwizzleY, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(100), <(SwizzleW, SwizzleY, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(104), <(SwizzleW, SwizzleY, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(108), <(SwizzleW, SwizzleY, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(112), <(SwizzleW, SwizzleY, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(116), <(SwizzleW, SwizzleY, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(120), <(SwizzleW, SwizzleY, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(124), <(SwizzleW, SwizzleY, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(128), <(SwizzleW, SwizzleZ, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(132), <(SwizzleW, SwizzleZ, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(136), <(SwizzleW, SwizzleZ, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(140), <(SwizzleW, SwizzleZ, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(144), <(SwizzleW, SwizzleZ, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(148), <(SwizzleW, SwizzleZ, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(152), <(SwizzleW, SwizzleZ, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(156), <(SwizzleW, SwizzleZ, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(160), <(SwizzleW, SwizzleZ, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(164), <(SwizzleW, SwizzleZ, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(168), <(SwizzleW, SwizzleZ, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(172), <(SwizzleW, SwizzleZ, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(176), <(SwizzleW, SwizzleZ, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(180), <(SwizzleW, SwizzleZ, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(184), <(SwizzleW, SwizzleZ, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(188), <(SwizzleW, SwizzleZ, SwizzleW, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(192), <(SwizzleW, SwizzleW, SwizzleX, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(196), <(SwizzleW, SwizzleW, SwizzleX, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(200), <(SwizzleW, SwizzleW, SwizzleX, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(204), <(SwizzleW, SwizzleW, SwizzleX, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(208), <(SwizzleW, SwizzleW, SwizzleY, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(212), <(SwizzleW, SwizzleW, SwizzleY, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(216), <(SwizzleW, SwizzleW, SwizzleY, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(220), <(SwizzleW, SwizzleW, SwizzleY, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(224), <(SwizzleW, SwizzleW, SwizzleZ, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(228), <(SwizzleW, SwizzleW, SwizzleZ, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(232), <(SwizzleW, SwizzleW, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(236), <(SwizzleW, SwizzleW, SwizzleZ, SwizzleW)>::XMVectorSwizzle(v));sv(o.add(240), <(SwizzleW, SwizzleW, SwizzleW, SwizzleX)>::XMVectorSwizzle(v));sv(o.add(244), <(SwizzleW, SwizzleW, SwizzleW, SwizzleY)>::XMVectorSwizzle(v));sv(o.add(248), <(SwizzleW, SwizzleW, SwizzleW, SwizzleZ)>::XMVectorSwizzle(v));sv(o.add(252), <(SwizzleW, SwizzleW, SwizzleW, SwizzleW)>::XMVectorSwizzle(v)); }
#[no_mangle] pub unsafe extern "C" fn h_trait_permute0(i: *const u32, o: *mut u32) { let v = lv(i); let w = lv(i.add(4)); sv(o.add(0), <(Permute0X, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(4), <(Permute0Y, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(8), <(Permute0Z, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(12), <(Permute0W, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(16), <(Permute1X, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(20), <(Permute1Y, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(24), <(Permute1Z, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(28), <(Permute1W, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(32), <(Permute0X, Permute0X, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(36), <(Permute0X, Permute0Z, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(40), <(Permute0X, Permute0W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(44), <(Permute0X, Permute1X, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(48), <(Permute0X, Permute1Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(52), <(Permute0X, Permute1Z, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(56), <(Permute0X, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(60), <(Permute0X, Permute0Y, Permute0X, Permute0W)>::XMVectorPermute(v, w));sv(o.add(64), <(Permute0X, Permute0Y, Permute0Y, Permute0W)>::XMVectorPermute(v, w));sv(o.add(68), <(Permute0X, Permute0Y, Permute0W, Permute0W)>::XMVectorPermute(v, w));sv(o.add(72), <(Permute0X, Permute0Y, Permute1X, Permute0W)>::XMVectorPermute(v, w));sv(o.add(76), <(Permute0X, Permute0Y, Permute1Y, Permute0W)>::XMVectorPermute(v, w));sv(o.add(80), <(Permute0X, Permute0Y, Permute1Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(84), <(Permute0X, Permute0Y, Permute1W, Permute0W)>::XMVectorPermute(v, w));sv(o.add(88), <(Permute0X, Permute0Y, Permute0Z, Permute0X)>::XMVectorPermute(v, w));sv(o.add(92), <(Permute0X, Permute0Y, Permute0Z, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(96), <(Permute0X, Permute0Y, Permute0Z, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(100), <(Permute0X, Permute0Y, Permute0Z, Permute1X)>::XMVectorPermute(v, w));sv(o.add(104), <(Permute0X, Permute0Y, Permute0Z, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(108), <(Permute0X, Permute0Y, Permute0Z, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(112), <(Permute0X, Permute0Y, Permute0Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(116), <(Permute0X, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(120), <(Permute0Y, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(124), <(Permute0Z, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(128), <(Permute0W, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(132), <(Permute1X, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(136), <(Permute1Y, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(140), <(Permute1Z, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(144), <(Permute1W, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(148), <(Permute1X, Permute0X, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(152), <(Permute1X, Permute0Y, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(156), <(Permute1X, Permute0Z, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(160), <(Permute1X, Permute0W, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(164), <(Permute1X, Permute1X, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(168), <(Permute1X, Permute1Z, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(172), <(Permute1X, Permute1W, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(176), <(Permute1X, Permute1Y, Permute0X, Permute1W)>::XMVectorPermute(v, w));sv(o.add(180), <(Permute1X, Permute1Y, Permute0Y, Permute1W)>::XMVectorPermute(v, w));sv(o.add(184), <(Permute1X, Permute1Y, Permute0Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(188), <(Permute1X, Permute1Y, Permute0W, Permute1W)>::XMVectorPermute(v, w));sv(o.add(192), <(Permute1X, Permute1Y, Permute1X, Permute1W)>::XMVectorPermute(v, w));sv(o.add(196), <(Permute1X, Permute1Y, Permute1Y, Permute1W)>::XMVectorPermute(v, w));sv(o.add(200), <(Permute1X, Permute1Y, Permute1W, Permute1W)>::XMVectorPermute(v, w));sv(o.add(204), <(Permute1X, Permute1Y, Permute1Z, Permute0X)>::XMVectorPermute(v, w));sv(o.add(208), <(Permute1X, Permute1Y, Permute1Z, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(212), <(Permute1X, Permute1Y, Permute1Z, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(216), <(Permute1X, Permute1Y, Permute1Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(220), <(Permute1X, Permute1Y, Permute1Z, Permute1X)>::XMVectorPermute(v, w));sv(o.add(224), <(Permute1X, Permute1Y, Permute1Z, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(228), <(Permute1X, Permute1Y, Permute1Z, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(232), <(Permute0X, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(236), <(Permute0Y, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(240), <(Permute0Z, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(244), <(Permute0W, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(248), <(Permute1X, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(252), <(Permute1Y, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w)); }
#[no_mangle] pub unsafe extern "C" fn h_trait_permute1(i: *const u32, o: *mut u32) { let v = lv(i); let w = lv(i.add(4)); sv(o.add(0), <(Permute1Z, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(4), <(Permute1W, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(8), <(Permute0X, Permute0X, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(12), <(Permute0X, Permute0Z, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(16), <(Permute0X, Permute0W, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(20), <(Permute0X, Permute1X, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(24), <(Permute0X, Permute1Y, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(28), <(Permute0X, Permute1Z, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(32), <(Permute0X, Permute1W, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(36), <(Permute0X, Permute0Y, Permute0X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(40), <(Permute0X, Permute0Y, Permute0Y, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(44), <(Permute0X, Permute0Y, Permute0W, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(48), <(Permute0X, Permute0Y, Permute1Y, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(52), <(Permute0X, Permute0Y, Permute1Z, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(56), <(Permute0X, Permute0Y, Permute1W, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(60), <(Permute0X, Permute0Y, Permute1X, Permute0X)>::XMVectorPermute(v, w));sv(o.add(64), <(Permute0X, Permute0Y, Permute1X, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(68), <(Permute0X, Permute0Y, Permute1X, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(72), <(Permute0X, Permute0Y, Permute1X, Permute1X)>::XMVectorPermute(v, w));sv(o.add(76), <(Permute0X, Permute0Y, Permute1X, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(80), <(Permute0X, Permute0Y, Permute1X, Permute1W)>::XMVectorPermute(v, w));sv(o.add(84), <(Permute0Y, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(88), <(Permute0Z, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(92), <(Permute0W, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(96), <(Permute1X, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(100), <(Permute1Y, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(104), <(Permute1Z, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(108), <(Permute1W, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(112), <(Permute1Z, Permute0X, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(116), <(Permute1Z, Permute0Z, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(120), <(Permute1Z, Permute0W, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(124), <(Permute1Z, Permute1X, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(128), <(Permute1Z, Permute1Y, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(132), <(Permute1Z, Permute1Z, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(136), <(Permute1Z, Permute1W, Permute0X, Permute0W)>::XMVectorPermute(v, w));sv(o.add(140), <(Permute1Z, Permute1W, Permute0Y, Permute0W)>::XMVectorPermute(v, w));sv(o.add(144), <(Permute1Z, Permute1W, Permute0W, Permute0W)>::XMVectorPermute(v, w));sv(o.add(148), <(Permute1Z, Permute1W, Permute1X, Permute0W)>::XMVectorPermute(v, w));sv(o.add(152), <(Permute1Z, Permute1W, Permute1Y, Permute0W)>::XMVectorPermute(v, w));sv(o.add(156), <(Permute1Z, Permute1W, Permute1Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(160), <(Permute1Z, Permute1W, Permute1W, Permute0W)>::XMVectorPermute(v, w));sv(o.add(164), <(Permute1Z, Permute1W, Permute0Z, Permute0X)>::XMVectorPermute(v, w));sv(o.add(168), <(Permute1Z, Permute1W, Permute0Z, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(172), <(Permute1Z, Permute1W, Permute0Z, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(176), <(Permute1Z, Permute1W, Permute0Z, Permute1X)>::XMVectorPermute(v, w));sv(o.add(180), <(Permute1Z, Permute1W, Permute0Z, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(184), <(Permute1Z, Permute1W, Permute0Z, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(188), <(Permute1Z, Permute1W, Permute0Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(192), <(Permute0X, Permute0Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(196), <(Permute0Y, Permute0Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(200), <(Permute0Z, Permute0Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(204), <(Permute0W, Permute0Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(208), <(Permute1X, Permute0Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(212), <(Permute1Y, Permute0Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(216), <(Permute1Z, Permute0Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(220), <(Permute1W, Permute0Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(224), <(Permute1W, Permute0X, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(228), <(Permute1W, Permute0Y, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(232), <(Permute1W, Permute0W, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(236), <(Permute1W, Permute1X, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(240), <(Permute1W, Permute1Y, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(244), <(Permute1W, Permute1Z, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(248), <(Permute1W, Permute1W, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(252), <(Permute1W, Permute0Z, Permute0X, Permute0X)>::XMVectorPermute(v, w)); }
#[no_mangle] pub unsafe extern "C" fn h_trait_permute2(i: *const u32, o: *mut u32) { let v = lv(i); let w = lv(i.add(4)); sv(o.add(0), <(Permute1W, Permute0Z, Permute0Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(4), <(Permute1W, Permute0Z, Permute0Z, Permute0X)>::XMVectorPermute(v, w));sv(o.add(8), <(Permute1W, Permute0Z, Permute0W, Permute0X)>::XMVectorPermute(v, w));sv(o.add(12), <(Permute1W, Permute0Z, Permute1X, Permute0X)>::XMVectorPermute(v, w));sv(o.add(16), <(Permute1W, Permute0Z, Permute1Z, Permute0X)>::XMVectorPermute(v, w));sv(o.add(20), <(Permute1W, Permute0Z, Permute1W, Permute0X)>::XMVectorPermute(v, w));sv(o.add(24), <(Permute1W, Permute0Z, Permute1Y, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(28), <(Permute1W, Permute0Z, Permute1Y, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(32), <(Permute1W, Permute0Z, Permute1Y, Permute0W)>::XMVectorPermute(v, w));sv(o.add(36), <(Permute1W, Permute0Z, Permute1Y, Permute1X)>::XMVectorPermute(v, w));sv(o.add(40), <(Permute1W, Permute0Z, Permute1Y, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(44), <(Permute1W, Permute0Z, Permute1Y, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(48), <(Permute1W, Permute0Z, Permute1Y, Permute1W)>::XMVectorPermute(v, w));sv(o.add(52), <(Permute0X, Permute0X, Permute0X, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(56), <(Permute0X, Permute0Y, Permute0Y, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(60), <(Permute0X, Permute0W, Permute0W, Permute0X)>::XMVectorPermute(v, w));sv(o.add(64), <(Permute0X, Permute1Y, Permute1Y, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(68), <(Permute0X, Permute1Z, Permute1Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(72), <(Permute0X, Permute1W, Permute1W, Permute1X)>::XMVectorPermute(v, w));sv(o.add(76), <(Permute0Y, Permute0X, Permute0Y, Permute1X)>::XMVectorPermute(v, w));sv(o.add(80), <(Permute0Y, Permute0Y, Permute0Z, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(84), <(Permute0Y, Permute0Z, Permute0W, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(88), <(Permute0Y, Permute0W, Permute1X, Permute0W)>::XMVectorPermute(v, w));sv(o.add(92), <(Permute0Y, Permute1X, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(96), <(Permute0Y, Permute1Y, Permute1Z, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(100), <(Permute0Y, Permute1Z, Permute1W, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(104), <(Permute0Y, Permute1W, Permute0X, Permute1W)>::XMVectorPermute(v, w));sv(o.add(108), <(Permute0Z, Permute0X, Permute0Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(112), <(Permute0Z, Permute0Y, Permute0W, Permute1X)>::XMVectorPermute(v, w));sv(o.add(116), <(Permute0Z, Permute0Z, Permute1X, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(120), <(Permute0Z, Permute0W, Permute1Y, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(124), <(Permute0Z, Permute1X, Permute1Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(128), <(Permute0Z, Permute1Y, Permute1W, Permute0X)>::XMVectorPermute(v, w));sv(o.add(132), <(Permute0Z, Permute1Z, Permute0X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(136), <(Permute0Z, Permute1W, Permute0Y, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(140), <(Permute0W, Permute0X, Permute0W, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(144), <(Permute0W, Permute0Y, Permute1X, Permute1W)>::XMVectorPermute(v, w));sv(o.add(148), <(Permute0W, Permute0Z, Permute1Y, Permute1X)>::XMVectorPermute(v, w));sv(o.add(152), <(Permute0W, Permute0W, Permute1Z, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(156), <(Permute0W, Permute1X, Permute1W, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(160), <(Permute0W, Permute1Y, Permute0X, Permute0W)>::XMVectorPermute(v, w));sv(o.add(164), <(Permute0W, Permute1Z, Permute0Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(168), <(Permute0W, Permute1W, Permute0Z, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(172), <(Permute1X, Permute0X, Permute1X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(176), <(Permute1X, Permute0Y, Permute1Y, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(180), <(Permute1X, Permute0W, Permute1W, Permute1X)>::XMVectorPermute(v, w));sv(o.add(184), <(Permute1X, Permute1X, Permute0X, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(188), <(Permute1X, Permute1Y, Permute0Y, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(192), <(Permute1X, Permute1Z, Permute0Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(196), <(Permute1X, Permute1W, Permute0W, Permute0X)>::XMVectorPermute(v, w));sv(o.add(200), <(Permute1Y, Permute0X, Permute1Y, Permute0X)>::XMVectorPermute(v, w));sv(o.add(204), <(Permute1Y, Permute0Y, Permute1Z, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(208), <(Permute1Y, Permute0Z, Permute1W, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(212), <(Permute1Y, Permute0W, Permute0X, Permute1W)>::XMVectorPermute(v, w));sv(o.add(216), <(Permute1Y, Permute1X, Permute0Y, Permute1X)>::XMVectorPermute(v, w));sv(o.add(220), <(Permute1Y, Permute1Y, Permute0Z, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(224), <(Permute1Y, Permute1Z, Permute0W, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(228), <(Permute1Y, Permute1W, Permute1X, Permute0W)>::XMVectorPermute(v, w));sv(o.add(232), <(Permute1Z, Permute0X, Permute1Z, Permute0W)>::XMVectorPermute(v, w));sv(o.add(236), <(Permute1Z, Permute0Y, Permute1W, Permute0X)>::XMVectorPermute(v, w));sv(o.add(240), <(Permute1Z, Permute0Z, Permute0X, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(244), <(Permute1Z, Permute0W, Permute0Y, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(248), <(Permute1Z, Permute1X, Permute0Z, Permute1W)>::XMVectorPermute(v, w));sv(o.add(252), <(Permute1Z, Permute1Y, Permute0W, Permute1X)>::XMVectorPermute(v, w)); }
#[no_mangle] pub unsafe extern "C" fn h_trait_permute3(i: *const u32, o: *mut u32) { let v = lv(i); let w = lv(i.add(4)); sv(o.add(0), <(Permute1Z, Permute1Z, Permute1X, Permute0Y)>::XMVectorPermute(v, w));sv(o.add(4), <(Permute1Z, Permute1W, Permute1Y, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(8), <(Permute1W, Permute0X, Permute1W, Permute1Z)>::XMVectorPermute(v, w));sv(o.add(12), <(Permute1W, Permute0Y, Permute0X, Permute0W)>::XMVectorPermute(v, w));sv(o.add(16), <(Permute1W, Permute0W, Permute0Z, Permute1Y)>::XMVectorPermute(v, w));sv(o.add(20), <(Permute1W, Permute1X, Permute0W, Permute0Z)>::XMVectorPermute(v, w));sv(o.add(24), <(Permute1W, Permute1Y, Permute1X, Permute1W)>::XMVectorPermute(v, w));sv(o.add(28), <(Permute1W, Permute1Z, Permute1Y, Permute1X)>::XMVectorPermute(v, w));sv(o.add(32), <(Permute1W, Permute1W, Permute1Z, Permute0Y)>::XMVectorPermute(v, w)); }
