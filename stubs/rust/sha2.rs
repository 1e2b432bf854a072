// Stand-in for the sha2 crate (absent in this sandbox): same interface as used by the repository, hashing by an external function.
extern "C" {
    fn verif_sha256(out: *mut u8, data: *const u8, n: usize);
}
pub trait Digest {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize(self) -> Output;
}
pub struct Output([u8; 32]);
impl Output {
    #[inline(always)]
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
pub struct Sha256 {
    data: Vec<u8>,
}
impl Digest for Sha256 {
    #[inline(always)]
    fn new() -> Self {
        Sha256 { data: Vec::new() }
    }
    #[inline(always)]
    fn update(&mut self, data: impl AsRef<[u8]>) {
        if self.data.is_empty() {
            self.data = data.as_ref().to_vec();
        } else {
            self.data.extend_from_slice(data.as_ref());
        }
    }
    #[inline(always)]
    fn finalize(self) -> Output {
        let mut o = [0u8; 32];
        unsafe { verif_sha256(o.as_mut_ptr(), self.data.as_ptr(), self.data.len()) };
        Output(o)
    }
}
