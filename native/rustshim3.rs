// used by C10 only
use crate::rust_wrapper::xmss_alt::hash_functions::HashFunction;
// the fast signer's state as XMSSFast::initialize_tree lays it out, and its three operations
use crate::rust_wrapper::xmss_alt::algsxmss_fast::{xmss_fast_gen_keypair, xmss_fast_sign_msg, xmss_fast_update, BDSState, TreeHashInst};
use crate::rust_wrapper::xmss_alt::xmss_common::XMSSParams;

#[no_mangle]
pub unsafe extern "C" fn r_bds_size() -> u64 {
    std::mem::size_of::<BDSState>() as u64
}

#[no_mangle]
pub unsafe extern "C" fn r_bds_new(s: *mut BDSState, h: u32) {
    let k = 2;
    let n = 32;
    let mut treehash: Vec<TreeHashInst> = Vec::with_capacity((h - k) as usize);
    for _ in 0..h - k {
        let mut t = TreeHashInst::default();
        t.node = vec![0; n as usize];
        treehash.push(t);
    }
    s.write(BDSState {
        stack: vec![0; ((h + 1) * n) as usize],
        stackoffset: 0,
        stacklevels: vec![0; (h + 1) as usize],
        auth: vec![0; (h * n) as usize],
        keep: vec![0; ((h >> 1) * n) as usize],
        treehash,
        retain: vec![0; (((1 << k) - k - 1) * n) as usize],
        next_leaf: 0,
    });
}

#[no_mangle]
pub unsafe extern "C" fn r_fast_gen(f: &HashFunction, p: &XMSSParams, pk: *mut u8, sk: *mut u8, s: *mut BDSState, seed: *mut u8) -> i32 {
    match xmss_fast_gen_keypair(f, p, std::slice::from_raw_parts_mut(pk, 64), std::slice::from_raw_parts_mut(sk, 132), &mut *s, std::slice::from_raw_parts_mut(seed, 48)) {
        Ok(()) => 0,
        Err(e) => { std::mem::forget(e); -1 }
    }
}

#[no_mangle]
pub unsafe extern "C" fn r_fast_update(f: &HashFunction, p: &XMSSParams, sk: *mut u8, s: *mut BDSState, i: u32) -> i32 {
    match xmss_fast_update(f, p, std::slice::from_raw_parts_mut(sk, 132), &mut *s, i) {
        Ok(x) => x,
        Err(e) => { std::mem::forget(e); -2 }
    }
}

#[no_mangle]
pub unsafe extern "C" fn r_fast_sign(f: &HashFunction, p: &XMSSParams, sk: *mut u8, s: *mut BDSState, sig: *mut u8, siglen: u64, m: *const u8, ml: u64) -> i32 {
    xmss_fast_sign_msg(f, p, std::slice::from_raw_parts_mut(sk, 132), &mut *s, std::slice::from_raw_parts_mut(sig, siglen as usize), std::slice::from_raw_parts(m, ml as usize), ml as usize) as i32
}
