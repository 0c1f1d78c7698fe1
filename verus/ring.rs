//! trusted: Vec::{new, with_capacity, reserve, reserve_exact, capacity, set_len, into_boxed_slice} and indexing by ranges have the contracts of verus/prelude.rs; allocation succeeds; memory never holds more than isize::MAX bytes
//@ include prelude.rs
//@ include ring_spec.rs
//@ include ring_functions.rs
fn main() {}
