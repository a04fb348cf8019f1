//! One-thread scheduler for the harness: tasks are futures kept in a list; a
//! second "thread" is a closure that the shimmed locks and queues may run at
//! their yield points.
use std::{future::Future, pin::Pin, sync::Arc, task::{Context, Poll, RawWaker, RawWakerVTable, Waker}};

static VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |_| {}, |_| {}, |_| {});
pub fn waker() -> Waker { unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) } }

type Task = Pin<Box<dyn Future<Output = ()>>>;
pub static mut TASKS: Vec<Option<Task>> = Vec::new();
pub fn push(f: impl Future<Output = ()> + 'static) -> usize {
    unsafe { TASKS.push(Some(Box::pin(f))); TASKS.len() - 1 }
}
/// Polls task `i` once; true when it has ended.
pub fn poll(i: usize) -> bool {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    unsafe {
        let Some(mut t) = TASKS[i].take() else { return true };
        let done = t.as_mut().poll(&mut cx).is_ready();
        if !done { TASKS[i] = Some(t) }
        done
    }
}
/// Drives a future to its end; a future that stays pending is an error of the harness (`None`).
pub fn block_on<T>(f: impl Future<Output = T>) -> Option<T> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..64 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return Some(v) }
    }
    None
}

/// The other thread's operation, run whole at one yield point of the first.
pub static mut OTHER: Option<Box<dyn FnOnce()>> = None;
pub static mut IN_OTHER: bool = false;
pub fn point() {
    unsafe {
        if !IN_OTHER && OTHER.is_some() && symrt::choose("switch", 0, 1) == 1 { run_other() }
    }
}
pub fn run_other() {
    unsafe {
        if let Some(f) = OTHER.take() { IN_OTHER = true; f(); IN_OTHER = false; }
    }
}
/// A lock that is held is asked for: by the other thread, the schedule cannot
/// run it here (cut); by the same thread, that is a deadlock.
pub fn blocked(holder_other: bool) -> ! {
    unsafe {
        if IN_OTHER && !holder_other { symrt::assume(false) }
    }
    panic!("deadlock")
}
pub struct Held { pub writer: bool, pub readers: usize, pub by_other: bool }
impl Held {
    pub const fn new() -> Self { Held { writer: false, readers: 0, by_other: false } }
    pub fn lock(&mut self) { if self.writer || self.readers != 0 { blocked(self.by_other) } self.writer = true; self.by_other = unsafe { IN_OTHER } }
    pub fn read(&mut self) { if self.writer { blocked(self.by_other) } self.readers += 1; self.by_other = unsafe { IN_OTHER } }
}
pub struct ArcTask<T>(pub Arc<std::cell::UnsafeCell<Option<T>>>);
