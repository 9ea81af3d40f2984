// GENERATED by dxv/gen_harness.py - do not edit.
use crate::util::*;
use directx_math::*;

#[no_mangle] pub unsafe extern "C" fn h_XMConvertVectorIntToFloat(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMConvertVectorIntToFloat(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMConvertVectorFloatToInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMConvertVectorFloatToInt(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMConvertVectorUIntToFloat(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMConvertVectorUIntToFloat(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMConvertVectorFloatToUInt(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMConvertVectorFloatToUInt(lv(i.add(0)), *i.add(4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadInt2(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadInt2(&*(i.add(0) as *const [u32; 2])); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat2(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadFloat2(&*(i.add(0) as *const XMFLOAT2)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadInt3(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadInt3(&*(i.add(0) as *const [u32; 3])); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat3(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadFloat3(&*(i.add(0) as *const XMFLOAT3)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat3A(i: *const u32, o: *mut u32) { let _ = (i, o); let t0 = Align16(*(i.add(0) as *const XMFLOAT3)); let r = XMLoadFloat3A(&t0); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadInt4(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadInt4(&*(i.add(0) as *const [u32; 4])); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat4(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadFloat4(&*(i.add(0) as *const XMFLOAT4)); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat4A(i: *const u32, o: *mut u32) { let _ = (i, o); let t0 = Align16(*(i.add(0) as *const XMFLOAT4)); let r = XMLoadFloat4A(&t0); sv(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat3x3(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadFloat3x3(&*(i.add(0) as *const XMFLOAT3X3)); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat4x3(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadFloat4x3(&*(i.add(0) as *const XMFLOAT4X3)); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat3x4(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadFloat3x4(&*(i.add(0) as *const XMFLOAT3X4)); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat4x4(i: *const u32, o: *mut u32) { let _ = (i, o);  let r = XMLoadFloat4x4(&*(i.add(0) as *const XMFLOAT4X4)); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMLoadFloat4x4A(i: *const u32, o: *mut u32) { let _ = (i, o); let t0 = Align16(*(i.add(0) as *const XMFLOAT4X4)); let r = XMLoadFloat4x4A(&t0); sm(o.add(0), r); }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreFloat(&mut *(o.add(0) as *mut f32), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreInt2(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreInt2(&mut *(o.add(0) as *mut [u32; 2]), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat2(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreFloat2(&mut *(o.add(0) as *mut XMFLOAT2), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreInt3(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreInt3(&mut *(o.add(0) as *mut [u32; 3]), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat3(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreFloat3(&mut *(o.add(0) as *mut XMFLOAT3), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat3A(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = Align16(*(o.add(0) as *const XMFLOAT3)); XMStoreFloat3A(&mut t0, lv(i.add(0))); *(o.add(0) as *mut XMFLOAT3) = t0.0; }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreInt4(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreInt4(&mut *(o.add(0) as *mut [u32; 4]), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat4(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreFloat4(&mut *(o.add(0) as *mut XMFLOAT4), lv(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat4A(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = Align16(*(o.add(0) as *const XMFLOAT4)); XMStoreFloat4A(&mut t0, lv(i.add(0))); *(o.add(0) as *mut XMFLOAT4) = t0.0; }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat3x3(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreFloat3x3(&mut *(o.add(0) as *mut XMFLOAT3X3), lm(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat4x3(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreFloat4x3(&mut *(o.add(0) as *mut XMFLOAT4X3), lm(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat3x4(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreFloat3x4(&mut *(o.add(0) as *mut XMFLOAT3X4), lm(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat4x4(i: *const u32, o: *mut u32) { let _ = (i, o);  XMStoreFloat4x4(&mut *(o.add(0) as *mut XMFLOAT4X4), lm(i.add(0)));  }
#[no_mangle] pub unsafe extern "C" fn h_XMStoreFloat4x4A(i: *const u32, o: *mut u32) { let _ = (i, o); let mut t0 = Align16(*(o.add(0) as *const XMFLOAT4X4)); XMStoreFloat4x4A(&mut t0, lm(i.add(0))); *(o.add(0) as *mut XMFLOAT4X4) = t0.0; }
