//! Stand-in: the bounded queue of crossbeam-queue under the harness scheduler.
use std::{cell::UnsafeCell, collections::VecDeque};
pub struct ArrayQueue<T> { q: UnsafeCell<VecDeque<T>>, cap: usize }
unsafe impl<T: Send> Send for ArrayQueue<T> {}
unsafe impl<T: Send> Sync for ArrayQueue<T> {}
impl<T> ArrayQueue<T> {
    pub fn new(cap: usize) -> Self { assert!(cap > 0, "capacity must be non-zero"); ArrayQueue { q: UnsafeCell::new(VecDeque::new()), cap } }
    #[allow(clippy::mut_from_ref)]
    fn q(&self) -> &mut VecDeque<T> { sched::point(); unsafe { &mut *self.q.get() } }
    pub fn push(&self, v: T) -> Result<(), T> { let q = self.q(); if q.len() >= self.cap { return Err(v) } q.push_back(v); Ok(()) }
    pub fn force_push(&self, v: T) -> Option<T> { let q = self.q(); let r = if q.len() >= self.cap { q.pop_front() } else { None }; q.push_back(v); r }
    pub fn pop(&self) -> Option<T> { self.q().pop_front() }
    pub fn len(&self) -> usize { self.q().len() }
    pub fn is_empty(&self) -> bool { self.q().is_empty() }
    pub fn is_full(&self) -> bool { self.q().len() >= self.cap }
    pub fn capacity(&self) -> usize { self.cap }
}
