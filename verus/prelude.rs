#![allow(unused)]
use vstd::prelude::*;
use vstd::slice::*;
use ::core::ops::Range;
verus! {

mod core {
    pub use ::core::*;
    pub mod cmp {
        use vstd::prelude::*;
        pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
        pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
    }
}

pub assume_specification<Idx: Clone>[ <Range<Idx> as Clone>::clone ](r: &Range<Idx>) -> (o: Range<Idx>) ensures o == *r;

mod lemmas {
use vstd::prelude::*;
pub broadcast proof fn lemma_mod_once(a: int, m: int)
    requires 0 <= a, 0 < m
    ensures a < m ==> #[trigger] (a % m) == a, m <= a < 2 * m ==> a % m == a - m
{
    if a < m {
        vstd::arithmetic::div_mod::lemma_small_mod(a as nat, m as nat);
    } else if a < 2 * m {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse_mod(a, m, 1, a - m);
    }
}
    pub broadcast proof fn lemma_moved(a: Seq<u8>, r: Seq<u8>, n: int)
        requires 0 <= n <= r.len()
        ensures #[trigger] (a + r.subrange(0, n)) + r.subrange(n, r.len() as int) == a + r
    {
        assert((a + r.subrange(0, n)) + r.subrange(n, r.len() as int) =~= a + r);
    }
}
broadcast use {lemmas::lemma_mod_once, lemmas::lemma_moved};

/// A panic: must be unreachable.
#[verifier::external_body]
fn panicked() requires false { loop {} }

/// Stands for a boxed slice, under the contracts below (Verus loses what it knows when a slice is borrowed through a Box).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Box<T: ?Sized> { b: std::boxed::Box<T> }

impl<T> View for Box<[T]> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }

impl<T> Box<[T]> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { loop {} }
}

/// Stands for the standard library's Vec, under the contracts below.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { v: std::vec::Vec<T> }

impl<T> View for Vec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }

impl<T> Vec<T> {
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { loop {} }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) requires n <= isize::MAX ensures r@.len() == 0, n <= r.cap() <= isize::MAX { loop {} }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) requires old(self)@.len() + n <= isize::MAX ensures final(self)@ == old(self)@, old(self)@.len() + n <= final(self).cap() <= isize::MAX { loop {} }
    #[verifier::external_body]
    pub fn reserve_exact(&mut self, n: usize) requires old(self)@.len() + n <= isize::MAX ensures final(self)@ == old(self)@, old(self)@.len() + n <= final(self).cap() <= isize::MAX { loop {} }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { loop {} }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { loop {} }
    #[verifier::external_body]
    pub unsafe fn set_len(&mut self, n: usize)
        requires n <= old(self).cap()
        ensures final(self)@.len() == n, final(self).cap() == old(self).cap(),
            forall|i: int| 0 <= i < n && i < old(self)@.len() ==> final(self)@[i] == old(self)@[i],
    { loop {} }
    #[verifier::external_body]
    pub fn into_boxed_slice(self) -> (r: Box<[T]>) ensures r@ == self@, r@.len() <= isize::MAX { loop {} }
}
impl<T> ::core::ops::Index<Range<usize>> for Box<[T]> {
    type Output = [T];
    #[verifier::external_body]
    fn index(&self, r: Range<usize>) -> (o: &[T]) ensures o@ == self@.subrange(r.start as int, r.end as int) { loop {} }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<Range<usize>> for Box<[T]> {
    open spec fn index_req(&self, r: &Range<usize>) -> bool { r.start <= r.end <= self@.len() }
}
impl<T> ::core::ops::IndexMut<Range<usize>> for Box<[T]> {
    #[verifier::external_body]
    fn index_mut(&mut self, r: Range<usize>) -> (o: &mut [T])
        ensures
            o@ == old(self)@.subrange(r.start as int, r.end as int),
            final(o)@.len() == o@.len(),
            final(self)@ == old(self)@.subrange(0, r.start as int) + final(o)@ + old(self)@.subrange(r.end as int, old(self)@.len() as int),
    { loop {} }
}
impl<T> ::core::ops::Index<Range<usize>> for Vec<T> {
    type Output = [T];
    #[verifier::external_body]
    fn index(&self, r: Range<usize>) -> (o: &[T]) ensures o@ == self@.subrange(r.start as int, r.end as int) { loop {} }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<Range<usize>> for Vec<T> {
    open spec fn index_req(&self, r: &Range<usize>) -> bool { r.start <= r.end <= self@.len() }
}
impl<T> ::core::ops::IndexMut<Range<usize>> for Vec<T> {
    #[verifier::external_body]
    fn index_mut(&mut self, r: Range<usize>) -> (o: &mut [T])
        ensures
            o@ == old(self)@.subrange(r.start as int, r.end as int),
            final(o)@.len() == o@.len(),
            final(self)@ == old(self)@.subrange(0, r.start as int) + final(o)@ + old(self)@.subrange(r.end as int, old(self)@.len() as int),
            final(self).cap() == old(self).cap(),
    { loop {} }
}

}
