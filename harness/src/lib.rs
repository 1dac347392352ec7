#![allow(dead_code, unused_imports, unused_variables, unused_mut, clippy::all)]
// `@PROP@` is replaced by the driver: only the definitions of one property are compiled.
/// whether nom-derive is built with its `alloc` feature
pub const ALLOC: bool = @ALLOC@;
#[macro_use]
pub mod sup;
pub mod @PROP@;
pub mod reg;
