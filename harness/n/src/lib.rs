//! Property harnesses over the node crates.
#![allow(unused_imports, dead_code, clippy::all)]
macro_rules! props { ($($f:literal $m:ident),* $(,)?) => { $( #[cfg(feature = $f)] pub mod $m; )* } }
props! { "c17" c17, "c18" c18 }
