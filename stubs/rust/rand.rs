// Stand-in for the rand crate: OsRng delivers what the external generator gives.
extern "C" {
    fn verif_random(out: *mut u8, n: usize);
}
pub trait RngCore {
    fn fill_bytes(&mut self, dest: &mut [u8]);
}
pub mod rngs {
    pub struct OsRng;
    impl super::RngCore for OsRng {
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            unsafe { super::verif_random(dest.as_mut_ptr(), dest.len()) };
        }
    }
}
