//! Stand-in: metrics and tracing record nothing; `Instant` does not read a clock.
#[derive(Clone, Copy, Debug)]
pub struct Instant;
impl Instant { pub fn now() -> Self { Instant } pub fn elapsed(&self) -> std::time::Duration { std::time::Duration::from_secs(0) } }
pub struct M;
impl M { pub fn inc(&self) {} pub fn inc_by<T>(&self, _: T) {} pub fn observe(&self, _: f64) {} pub fn set<T>(&self, _: T) {} }
pub mod metrics {
    pub use crate::metrics_consensus as consensus;
    pub fn duration_to_sec(_: std::time::Duration) -> f64 { 0.0 }
    macro_rules! vecs { ($s:ident, $($n:ident),*) => { #[allow(non_snake_case)] pub struct $s { $(pub $n: crate::M),* } impl $s { pub const fn new() -> Self { $s { $($n: crate::M),* } } } } }
    pub mod mempool {
        vecs!(V, insert_tx_from_p2p, package);
        pub struct R { pub success: crate::M, pub failure: crate::M }
        pub struct RV { pub insert_tx_from_p2p: R }
        pub static MEMPOOL_COUNTER_STATIC: V = V::new();
        pub static MEMPOOL_TIME_STATIC: V = V::new();
        pub static MEMPOOL_PACKAGE_SIZE_VEC_STATIC: V = V::new();
        pub static MEMPOOL_RESULT_COUNTER_STATIC: RV = RV { insert_tx_from_p2p: R { success: crate::M, failure: crate::M } };
    }
}
pub mod metrics_consensus {
    use crate::M;
    pub struct R { pub success: M, pub failure: M }
    pub struct RV { pub get_block_from_remote: R }
    pub struct CV { pub check_block_cost: M, pub get_txs_cost: M, pub write_wal_cost: M }
    pub struct TV { pub commit: M, pub exec: M, pub block: M }
    pub static CONSENSUS_RESULT_COUNTER_VEC_STATIC: RV = RV { get_block_from_remote: R { success: M, failure: M } };
    pub static CONSENSUS_CHECK_BLOCK_HISTOGRAM_VEC_STATIC: CV = CV { check_block_cost: M, get_txs_cost: M, write_wal_cost: M };
    pub static CONSENSUS_TIME_HISTOGRAM_VEC_STATIC: TV = TV { commit: M, exec: M, block: M };
    pub static ENGINE_SYNC_BLOCK_COUNTER: M = M;
    pub static ENGINE_SYNC_BLOCK_HISTOGRAM: M = M;
    pub static ENGINE_ROUND_GAUGE: M = M;
    pub static ENGINE_HEIGHT_GAUGE: M = M;
    pub static ENGINE_COMMITTED_TX_COUNTER: M = M;
    pub static ENGINE_CONSENSUS_COST_TIME: M = M;
    pub static ENGINE_ORDER_TX_GAUGE: M = M;
}
pub mod tracing {
    #[derive(Debug)] pub struct SpanContext;
    #[derive(Clone, Debug)] pub struct Tag;
    impl Tag { pub fn new<A, B>(_: A, _: B) -> Self { Tag } }
    #[derive(Clone, Debug)] pub struct LogField;
    impl LogField { pub fn new<A, B>(_: A, _: B) -> Self { LogField } }
    impl Clone for SpanContext { fn clone(&self) -> Self { SpanContext } }
    pub struct Log;
    impl Log { pub fn field(&mut self, _: LogField) {} pub fn time<T>(&mut self, _: T) {} }
    pub struct Span;
    impl Span {
        pub fn set_tag(&mut self, _: impl FnOnce() -> Tag) {}
        pub fn log(&mut self, _: impl FnOnce(&mut Log)) {}
        pub fn context(&self) -> Option<&SpanContext> { None }
    }
    #[derive(Default)]
    pub struct AxonTracer;
    impl AxonTracer {
        pub fn load(&self) -> &Self { self }
        pub fn span<T>(&self, _: T, _: Vec<Tag>) -> Option<Span> { None }
        pub fn child_of_span<T>(&self, _: T, _: SpanContext, _: Vec<Tag>) -> Option<Span> { None }
    }
    pub static TRACER: AxonTracer = AxonTracer;
}
