// extern "C" entry points over the crate's own modules (included by path, generated lib.rs); used by the native runs only
#![allow(non_camel_case_types)]
use crate::rust_wrapper::errors::QRLError;
use crate::rust_wrapper::qrl::qrl_address_format::AddrFormatType;
use crate::rust_wrapper::qrl::qrl_descriptor::{QRLDescriptor, SignatureType};
use crate::rust_wrapper::qrl::wordlist::WORDLIST;
use crate::rust_wrapper::xmss_alt::fips202;
use crate::rust_wrapper::xmss_alt::hash_address as ha;
use crate::rust_wrapper::xmss_alt::hash_functions::HashFunction;

unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    std::slice::from_raw_parts(p, n)
}

#[no_mangle]
pub unsafe extern "C" fn r_shake(which: i32, o: *mut u8, ol: usize, i: *const u8, il: usize) {
    let out = std::slice::from_raw_parts_mut(o, ol);
    let inp = sl(i, il);
    if which == 128 {
        fips202::shake128(out, ol, inp, il as u64)
    } else {
        fips202::shake256(out, ol, inp, il as u64)
    }
}

#[no_mangle]
pub unsafe extern "C" fn r_setaddr(which: i32, a: *mut u32, v: u64) {
    let x = &mut *(a as *mut [u32; 8]);
    match which {
        0 => ha::set_layer_adrs(x, v as u32),
        1 => ha::set_tree_adrs(x, v),
        2 => ha::set_type(x, v as u32),
        3 => ha::set_key_and_mask(x, v as u32),
        4 => ha::set_ots_adrs(x, v as u32),
        5 => ha::set_chain_adrs(x, v as u32),
        6 => ha::set_hash_adrs(x, v as u32),
        7 => ha::set_ltree_adrs(x, v as u32),
        8 => ha::set_tree_height(x, v as u32),
        _ => ha::set_tree_index(x, v as u32),
    }
}

#[no_mangle]
pub unsafe extern "C" fn r_word(i: usize, o: *mut u8) -> usize {
    if i >= WORDLIST.len() {
        return usize::MAX;
    }
    let w = WORDLIST[i].as_bytes();
    for k in 0..w.len() {
        *o.add(k) = w[k];
    }
    w.len()
}

unsafe fn fill(d: &QRLDescriptor, o: *mut i32, b: *mut u8) -> i32 {
    *o = *d.get_hash_function() as u8 as i32;
    *o.add(1) = *d.get_signature_type() as u8 as i32;
    *o.add(2) = d.get_height() as i32;
    *o.add(3) = *d.get_addr_format_type() as u8 as i32;
    let v = d.get_bytes();
    for k in 0..v.len() {
        *b.add(k) = v[k];
    }
    v.len() as i32
}

// >= 0 length of the re-encoded bytes, -1 InvalidArgument, -2 other error
#[no_mangle]
pub unsafe extern "C" fn r_desc(how: i32, p: *const u8, n: usize, o: *mut i32, b: *mut u8) -> i32 {
    let v = sl(p, n).to_vec();
    let r = if how == 0 {
        QRLDescriptor::from_bytes(&v)
    } else if how == 1 {
        QRLDescriptor::from_extended_seed(&v)
    } else {
        QRLDescriptor::from_extended_pk(&v)
    };
    match r {
        Ok(d) => fill(&d, o, b),
        Err(QRLError::InvalidArgument(_)) => -1,
        Err(_) => -2,
    }
}

#[no_mangle]
pub unsafe extern "C" fn r_descmake(h: i32, height: u8, o: *mut i32, b: *mut u8) -> i32 {
    let hf = match h {
        0 => HashFunction::SHA2_256,
        1 => HashFunction::Shake128,
        _ => HashFunction::Shake256,
    };
    fill(&QRLDescriptor::new(hf, SignatureType::XMSS, height, AddrFormatType::SHA256_2X), o, b)
}

// slices that may be longer than the lengths passed with them
#[no_mangle]
pub unsafe extern "C" fn r_shakes(which: i32, o: *mut u8, os: usize, ol: usize, i: *const u8, is: usize, il: usize) {
    let out = std::slice::from_raw_parts_mut(o, os);
    let inp = std::slice::from_raw_parts(i, is);
    if which == 128 { fips202::shake128(out, ol, inp, il as u64) } else { fips202::shake256(out, ol, inp, il as u64) }
}
