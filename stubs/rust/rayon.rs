// Stand-in for the rayon crate: install() runs the closure and returns its result, as rayon does (on a pool thread).
pub struct ThreadPool;
pub struct ThreadPoolBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
}
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
}
