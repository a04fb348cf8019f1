//! Property harnesses over the consensus crate.
#![allow(unused_imports, dead_code, static_mut_refs, clippy::all)]
macro_rules! props { ($($f:literal $m:ident),* $(,)?) => { $( #[cfg(feature = $f)] pub mod $m; )* } }
#[cfg(any(feature = "c20", feature = "c21"))]
pub mod env;
props! { "c19" c19, "c20" c20, "c21" c21 }
