//! Property harnesses over axon-tools, next to axon-protocol whose types it mirrors.
#![allow(unused_imports, dead_code, clippy::all)]
#[path = "../../p/src/gen.rs"]
pub mod gen;
#[path = "../../p/src/spec.rs"]
pub mod spec;
macro_rules! props { ($($f:literal $m:ident),* $(,)?) => { $( #[cfg(feature = $f)] pub mod $m; )* } }
props! { "c13" c13, "c14" c14, "c16" c16 }
#[cfg(any(feature = "c14", feature = "c15"))]
pub mod c15;
