//! A stand-in for rayon: what is spawned waits until the harness runs it.
use std::collections::VecDeque;
use std::sync::Mutex;

type Job = Box<dyn FnOnce() + Send + 'static>;
static JOBS: Mutex<VecDeque<Job>> = Mutex::new(VecDeque::new());

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    JOBS.lock().unwrap().push_back(Box::new(f));
}
/// For the harness: how many wait.
pub fn pending() -> usize {
    JOBS.lock().unwrap().len()
}
/// For the harness: takes the one at `i`.
pub fn take(i: usize) -> Option<Job> {
    JOBS.lock().unwrap().remove(i)
}
pub struct Scope<'s>(std::marker::PhantomData<&'s ()>);
pub fn in_place_scope<'s, R>(op: impl FnOnce(&Scope<'s>) -> R) -> R {
    op(&Scope(std::marker::PhantomData))
}
