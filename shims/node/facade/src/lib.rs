//! axon-protocol as the node crates see it, with `tokio`'s tasks and timers
//! replaced by the harness scheduler.
pub use protocol::*;
pub mod tokio {
    pub use protocol::tokio::*;
    pub use super::task::spawn;
    pub mod task { pub use protocol::tokio::task::*; pub use crate::task::{spawn, JoinHandle}; pub fn block_in_place<T>(f: impl FnOnce() -> T) -> T { f() } }
    pub mod time {
        pub use protocol::tokio::time::*;
        /// Pending once, then over: a timer is one poll.
        pub fn sleep(_: std::time::Duration) -> impl std::future::Future<Output = ()> { crate::task::Once(false) }
    }
}
pub mod task {
    use std::{cell::UnsafeCell, future::Future, pin::Pin, sync::Arc, task::{Context, Poll}};
    pub struct Once(pub bool);
    impl Future for Once {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } }
    }
    pub struct Slot<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Send for Slot<T> {}
    unsafe impl<T> Sync for Slot<T> {}
    pub struct JoinHandle<T> { slot: Arc<Slot<T>>, id: usize }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static {
        let slot = Arc::new(Slot(UnsafeCell::new(None)));
        let s = Arc::clone(&slot);
        let id = sched::push(async move { let v = f.await; unsafe { *s.0.get() = Some(v) } });
        JoinHandle { slot, id }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, protocol::tokio::task::JoinError>;
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            sched::poll(self.id);
            match unsafe { (*self.slot.0.get()).take() } { Some(v) => Poll::Ready(Ok(v)), None => Poll::Pending }
        }
    }
}
