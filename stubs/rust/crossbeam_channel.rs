// Stand-in for the crossbeam-channel crate: bounded channel, non-blocking uses only.
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
pub struct Sender<T>(Arc<(usize, Mutex<VecDeque<T>>)>);
pub struct Receiver<T>(Arc<(usize, Mutex<VecDeque<T>>)>);
#[derive(Debug)]
pub struct SendError;
#[derive(Debug)]
pub struct RecvError;
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let a = Arc::new((n, Mutex::new(VecDeque::new())));
    (Sender(a.clone()), Receiver(a))
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError> {
        self.0 .1.lock().unwrap().push_back(t);
        Ok(())
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0 .1.lock().unwrap().pop_front().ok_or(RecvError)
    }
    pub fn is_full(&self) -> bool {
        self.0 .1.lock().unwrap().len() == self.0 .0
    }
}
