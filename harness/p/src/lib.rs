//! Property harnesses over axon-protocol and common-merkle; one feature per property.
#![allow(unused_imports, dead_code, clippy::all)]
pub mod gen;
pub mod spec;
macro_rules! props { ($($f:literal $m:ident),* $(,)?) => { $( #[cfg(feature = $f)] pub mod $m; )* } }
props! { "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12 }
