#![allow(dead_code)]
use directx_math::*;
use std::mem::transmute;
/// Reads four words as a vector.
#[inline(always)]
pub unsafe fn lv(p: *const u32) -> XMVECTOR {
    let a = [*p, *p.add(1), *p.add(2), *p.add(3)];
    transmute(a)
}
#[inline(always)]
pub unsafe fn sv(p: *mut u32, v: XMVECTOR) {
    let a: [u32; 4] = transmute(v);
    *p = a[0];
    *p.add(1) = a[1];
    *p.add(2) = a[2];
    *p.add(3) = a[3];
}
#[inline(always)]
pub unsafe fn lm(p: *const u32) -> XMMATRIX {
    XMMATRIX { r: [lv(p), lv(p.add(4)), lv(p.add(8)), lv(p.add(12))] }
}
#[inline(always)]
pub unsafe fn sm(p: *mut u32, m: XMMATRIX) {
    let r = m.r;
    sv(p, r[0]);
    sv(p.add(4), r[1]);
    sv(p.add(8), r[2]);
    sv(p.add(12), r[3]);
}
