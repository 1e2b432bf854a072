// extern "C" entry points over the crate's modules that need the stand-in crates
use crate::rust_wrapper::qrl::{hashing, misc};
use crate::rust_wrapper::xmss_alt::{hash, hash_functions::HashFunction};

unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    std::slice::from_raw_parts(p, n)
}

unsafe fn hf(h: i32) -> HashFunction {
    match h {
        0 => HashFunction::SHA2_256,
        1 => HashFunction::Shake128,
        _ => HashFunction::Shake256,
    }
}

#[no_mangle]
pub unsafe extern "C" fn r_addrbytes(o: *mut u8, a: *const u32) {
    hash::addr_to_byte(std::slice::from_raw_parts_mut(o, 32), &*(a as *const [u32; 8]));
}

#[no_mangle]
pub unsafe extern "C" fn r_prf(h: i32, o: *mut u8, i: *const u8, k: *const u8, n: u32) -> i32 {
    hash::prf(&hf(h), std::slice::from_raw_parts_mut(o, n as usize), sl(i, 32), sl(k, n as usize), n) as i32
}

#[no_mangle]
pub unsafe extern "C" fn r_hmsg(h: i32, o: *mut u8, i: *const u8, il: u64, k: *const u8, kl: u32, n: u32) -> i32 {
    hash::h_msg(&hf(h), std::slice::from_raw_parts_mut(o, n as usize), sl(i, il as usize), il, sl(k, kl as usize), kl, n) as i32
}

#[no_mangle]
pub unsafe extern "C" fn r_hashh(h: i32, o: *mut u8, i: *const u8, ps: *const u8, a: *mut u32, n: u32) -> i32 {
    hash::hash_h(&hf(h), std::slice::from_raw_parts_mut(o, n as usize), sl(i, 2 * n as usize), sl(ps, n as usize), &mut *(a as *mut [u32; 8]), n) as i32
}

#[no_mangle]
pub unsafe extern "C" fn r_hashf(h: i32, o: *mut u8, i: *const u8, ps: *const u8, a: *mut u32, n: u32) -> i32 {
    hash::hash_f(&hf(h), std::slice::from_raw_parts_mut(o, n as usize), sl(i, n as usize), sl(ps, n as usize), &mut *(a as *mut [u32; 8]), n) as i32
}

// where the compiler put the parameter structures' fields
#[no_mangle]
pub unsafe extern "C" fn r_layout(o: *mut u32) {
    use crate::rust_wrapper::xmss_alt::{wots::WOTSParams, xmss_common::XMSSParams};
    use std::mem::{offset_of, size_of};
    let a = [
        offset_of!(WOTSParams, len_1), offset_of!(WOTSParams, len_2), offset_of!(WOTSParams, len), offset_of!(WOTSParams, n), offset_of!(WOTSParams, w),
        offset_of!(WOTSParams, log_w), offset_of!(WOTSParams, keysize), size_of::<WOTSParams>(),
        offset_of!(XMSSParams, wots_par), offset_of!(XMSSParams, n), offset_of!(XMSSParams, h), offset_of!(XMSSParams, k), size_of::<XMSSParams>(),
    ];
    for i in 0..a.len() {
        *o.add(i) = a[i] as u32;
    }
}
