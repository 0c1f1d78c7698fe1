#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::core::*;
use ::core::mem;
verus! {

mod core {
    pub use ::core::*;
    pub mod u64 { pub const MAX: u64 = 0xffff_ffff_ffff_ffff; }
    pub mod u32 { pub const MAX: u32 = 0xffff_ffff; }
    pub mod u16 { pub const MAX: u16 = 0xffff; }
    pub mod u8 { pub const MAX: u8 = 0xff; }
    pub mod usize { pub const MAX: usize = 0xffff_ffff_ffff_ffff; }
    /// Only sizes are compared.
    pub mod cmp {
        pub use ::core::cmp::*;
        use vstd::prelude::*;
        verus! { pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } } }
    }
}
// The size of a pointer on the targets which are verified.
global size_of usize == 8;

// The shape of the crate's own items which the extracted functions refer to.

#[derive(Copy, Clone)]
pub enum Endianness { LittleEndian, BigEndian }
impl Endianness {
    /// This is for targets which are little-endian.
    pub open spec fn native() -> Endianness { Endianness::LittleEndian }
    /// Proved by C06 and C11.
    #[verifier::external_body]
    pub fn conversion_necessary(self) -> (r: bool) ensures r == (self != Endianness::native()) { loop {} }
}
pub trait IsEof { spec fn end(&self) -> bool; fn is_eof(&self) -> (r: bool) ensures r == self.end(); }
pub trait From<T: IsEof>: Sized + IsEof { fn from(value: T) -> (r: Self) ensures r.end() == value.end(); }
pub struct Error { pub eof: bool }
impl IsEof for Error { open spec fn end(&self) -> bool { self.eof } fn is_eof(&self) -> (r: bool) { self.eof } }
pub trait Context: Sized {
    type Error: From<Error>;
    spec fn order(&self) -> Endianness;
    fn endianness(&self) -> (r: Endianness) ensures r == self.order();
}

// The wire format.

mod seqs {
#![allow(non_snake_case)]
use vstd::prelude::*;
use super::Endianness;
/// The lowest `n` bytes of `v`, the lowest first.
pub open spec fn little(v: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { seq![] } else { seq![(v % 256) as u8] + little(v / 256, (n - 1) as nat) }
}
pub open spec fn backwards(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// An integer of `n` bytes.
pub open spec fn int(v: nat, n: nat, e: Endianness) -> Seq<u8> {
    match e { Endianness::LittleEndian => little(v, n), Endianness::BigEndian => backwards(little(v, n)) }
}

pub broadcast proof fn lemma_little(v: nat, n: nat)
    ensures (#[trigger] little(v, n)).len() == n
    decreases n
{
    if n > 0 { lemma_little(v / 256, (n - 1) as nat); }
}
pub broadcast proof fn lemma_int(v: nat, n: nat, e: Endianness)
    ensures (#[trigger] int(v, n, e)).len() == n
{
    lemma_little(v, n);
}
/// One byte is the same in either byte order.
pub broadcast proof fn lemma_byte(v: nat, e: Endianness)
    requires v < 256
    ensures #[trigger] int(v, 1, e) =~= seq![v as u8]
{
    reveal_with_fuel(little, 2);
    lemma_little(v, 1);
}
pub broadcast proof fn lemma_prefix_shorter(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] (a + b).is_prefix_of(c) ==> a.is_prefix_of(c)
{
    if (a + b).is_prefix_of(c) {
        assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert((a + b)[i] == c.subrange(0, (a + b).len() as int)[i]); }
        assert(a =~= c.subrange(0, a.len() as int));
    }
}
pub broadcast proof fn lemma_prefix_longer(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires a.is_prefix_of(b)
    ensures #[trigger] a.is_prefix_of(b + c)
{
    assert((b + c).subrange(0, a.len() as int) =~= b.subrange(0, a.len() as int));
}
pub broadcast proof fn lemma_prefix_within(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    ensures a.is_prefix_of(b + c) ==> #[trigger] a.is_prefix_of(b + (c + d))
{
    if a.is_prefix_of(b + c) {
        assert((b + (c + d)).subrange(0, a.len() as int) =~= (b + c).subrange(0, a.len() as int));
    }
}
pub broadcast proof fn lemma_prefix_regrouped(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    ensures #[trigger] a.is_prefix_of(b + (c + d)) == a.is_prefix_of((b + c) + d)
{
    assert(b + (c + d) =~= (b + c) + d);
}
pub broadcast proof fn lemma_prefix_itself(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] a.is_prefix_of(a + b)
{
    assert((a + b).subrange(0, a.len() as int) =~= a);
}
/// A part of two parts.
pub broadcast proof fn lemma_cut(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n <= a.len() + b.len()
    ensures #[trigger] (a + b).subrange(0, n) == if n < a.len() { a.subrange(0, n) } else { a + b.subrange(0, n - a.len()) }
{
    if n < a.len() {
        assert((a + b).subrange(0, n) =~= a.subrange(0, n));
    } else {
        assert((a + b).subrange(0, n) =~= a + b.subrange(0, n - a.len()));
    }
}
/// `t` is what remains of `s` after something was taken off its front.
#[verifier::opaque]
pub open spec fn remains(s: Seq<u8>, t: Seq<u8>) -> bool { t.len() <= s.len() && t =~= s.subrange(s.len() - t.len(), s.len() as int) }
pub broadcast proof fn lemma_remains(s: Seq<u8>, t: Seq<u8>, u: Seq<u8>)
    requires #[trigger] remains(s, t), #[trigger] remains(t, u)
    ensures remains(s, u)
{
    reveal(remains);
    assert forall|i: int| 0 <= i < u.len() implies u[i] == s[s.len() - u.len() + i] by { assert(u[i] == t[t.len() - u.len() + i]); }
    assert(u =~= s.subrange(s.len() - u.len(), s.len() as int));
}
pub broadcast proof fn lemma_all_remains(s: Seq<u8>)
    ensures #[trigger] remains(s, s)
{
    reveal(remains);
}
pub broadcast proof fn lemma_less_remains(s: Seq<u8>, t: Seq<u8>)
    requires #[trigger] remains(s, t)
    ensures t.len() <= s.len()
{
    reveal(remains);
}
pub broadcast proof fn lemma_associative(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{
    assert((a + b) + c =~= a + (b + c));
}
pub broadcast proof fn lemma_nothing(a: Seq<u8>, b: Seq<u8>)
    requires b.len() == 0
    ensures #[trigger] (a + b) == a, #[trigger] (b + a) == a
{
    assert(a + b =~= a);
    assert(b + a =~= a);
}
}
pub use seqs::{little, backwards, int, remains};

/// What a value is encoded as. Everything about the format is said here and in the implementations of this trait,
/// which have nothing to do with the code.
pub trait Encoding {
    spec fn enc(&self, e: Endianness) -> Seq<u8>;
    /// Whether the value can be encoded at all (a length may not fit).
    spec fn fits(&self) -> bool;
    spec fn size(&self) -> nat;
    /// No value is encoded as less than this.
    spec fn least() -> nat;
    /// Whether the encoding in the native byte order is the value's representation in memory.
    spec fn primitive() -> bool;
    /// Whether reading may give the one for the other: no difference can be observed.
    spec fn same(&self, other: &Self) -> bool;
    proof fn lemma_size(&self, e: Endianness) ensures self.enc(e).len() == self.size(), self.size() >= Self::least();
    proof fn lemma_primitive(&self) where Self: Sized requires Self::primitive() ensures self.size() == mem::size_of::<Self>(), self.fits();
}

/// The encodings of some values, one after another.
pub open spec fn encs<T: Encoding>(s: Seq<T>, e: Endianness) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { encs::<T>(s.drop_last(), e) + s.last().enc(e) }
}
pub open spec fn sizes<T: Encoding>(s: Seq<T>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { sizes::<T>(s.drop_last()) + s.last().size() }
}
pub open spec fn all_same<T: Encoding>(s: Seq<T>, t: Seq<T>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).same(&t[i]) }
pub open spec fn all_fit<T: Encoding>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].fits() }

pub proof fn lemma_sizes<T: Encoding>(s: Seq<T>, e: Endianness)
    ensures encs::<T>(s, e).len() == sizes::<T>(s), sizes::<T>(s) >= s.len() * T::least()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_sizes::<T>(s.drop_last(), e);
        s.last().lemma_size(e);
        assert(s.len() * T::least() == (s.len() - 1) * T::least() + T::least()) by (nonlinear_arith) requires s.len() > 0;
    }
}
pub proof fn lemma_primitives<T: Encoding>(s: Seq<T>)
    ensures T::primitive() ==> all_fit::<T>(s) && sizes::<T>(s) == s.len() * mem::size_of::<T>()
    decreases s.len()
{
    if T::primitive() {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i].fits() by { s[i].lemma_primitive(); }
        if s.len() > 0 {
            lemma_primitives::<T>(s.drop_last());
            s.last().lemma_primitive();
            assert(s.len() * mem::size_of::<T>() == (s.len() - 1) * mem::size_of::<T>() + mem::size_of::<T>()) by (nonlinear_arith) requires s.len() > 0;
        } else {
            assert(0 * mem::size_of::<T>() == 0);
        }
    }
}
pub proof fn lemma_split<T: Encoding>(s: Seq<T>, i: int, e: Endianness)
    requires 0 <= i <= s.len()
    ensures
        encs::<T>(s, e) == encs::<T>(s.subrange(0, i), e) + encs::<T>(s.subrange(i, s.len() as int), e),
        sizes::<T>(s) == sizes::<T>(s.subrange(0, i)) + sizes::<T>(s.subrange(i, s.len() as int)),
    decreases s.len()
{
    let rest = s.subrange(i, s.len() as int);
    if i == s.len() {
        assert(s.subrange(0, i) =~= s);
        assert(rest.len() == 0);
        assert(encs::<T>(rest, e) =~= seq![]);
        assert(encs::<T>(s, e) =~= encs::<T>(s, e) + encs::<T>(rest, e));
    } else {
        let shorter = s.drop_last();
        lemma_split::<T>(shorter, i, e);
        assert(shorter.subrange(0, i) =~= s.subrange(0, i));
        assert(shorter.subrange(i, shorter.len() as int) =~= rest.drop_last());
        assert(rest.last() == s.last());
        let (a, b, c) = (encs::<T>(s.subrange(0, i), e), encs::<T>(rest.drop_last(), e), s.last().enc(e));
        assert(encs::<T>(s, e) == encs::<T>(shorter, e) + c);
        assert(encs::<T>(rest, e) == b + c);
        assert(encs::<T>(shorter, e) == a + b);
        seqs::lemma_associative(a, b, c);
        assert(encs::<T>(s, e) == a + (b + c));
    }
}
/// One more element, and what remains after it.
pub proof fn lemma_step<T: Encoding>(s: Seq<T>, i: int, e: Endianness)
    requires 0 <= i < s.len()
    ensures
        encs::<T>(s.subrange(0, i + 1), e) == encs::<T>(s.subrange(0, i), e) + s[i].enc(e),
        sizes::<T>(s.subrange(0, i + 1)) == sizes::<T>(s.subrange(0, i)) + s[i].size(),
        encs::<T>(s, e) =~= encs::<T>(s.subrange(0, i + 1), e) + encs::<T>(s.subrange(i + 1, s.len() as int), e),
        sizes::<T>(s) == sizes::<T>(s.subrange(0, i + 1)) + sizes::<T>(s.subrange(i + 1, s.len() as int)),
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    lemma_split::<T>(s, i + 1, e);
}

macro_rules! integers {
    ($($t:ident $n:literal $u:ident;)*) => { verus! { $(
        impl Encoding for $t {
            open spec fn enc(&self, e: Endianness) -> Seq<u8> { int((*self as $u) as nat, $n, e) }
            open spec fn fits(&self) -> bool { true }
            open spec fn size(&self) -> nat { $n }
            open spec fn least() -> nat { $n }
            open spec fn primitive() -> bool { true }
            open spec fn same(&self, other: &Self) -> bool { *self == *other }
            proof fn lemma_size(&self, e: Endianness) {}
            proof fn lemma_primitive(&self) {}
        }
    )* } };
}
integers! { u8 1 u8; u16 2 u16; u32 4 u32; u64 8 u64; u128 16 u128; i8 1 u8; i16 2 u16; i32 4 u32; i64 8 u64; i128 16 u128; }

}
verus! {

/// The number of a character.
pub open spec fn code(c: char) -> u32 { c as u32 }

/// What is encoded as some integer or some bytes.
macro_rules! simple {
    ($($t:ty, $n:literal, |$v:ident, $e:ident| $enc:expr, $fits:expr;)*) => { verus! { $(
        impl Encoding for $t {
            open spec fn enc(&self, $e: Endianness) -> Seq<u8> { let $v = *self; $enc }
            open spec fn fits(&self) -> bool { let $v = *self; $fits }
            open spec fn size(&self) -> nat { $n }
            open spec fn least() -> nat { $n }
            open spec fn primitive() -> bool { false }
            open spec fn same(&self, other: &Self) -> bool { *self == *other }
            proof fn lemma_size(&self, e: Endianness) {}
            proof fn lemma_primitive(&self) {}
        }
    )* } };
}
simple! {
    usize, 8, |v, e| (v as u64).enc(e), true;
    bool, 1, |v, e| (if v { 1u8 } else { 0u8 }).enc(e), true;
    char, 4, |v, e| code(v).enc(e), true;
    (), 0, |v, e| seq![], true;
    Endianness, 1, |v, e| (match v { Endianness::LittleEndian => 0u8, Endianness::BigEndian => 1u8 }).enc(e), true;
}

impl<T: Encoding> Encoding for Option<T> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { match *self { Some(v) => true.enc(e) + v.enc(e), None => false.enc(e) } }
    open spec fn fits(&self) -> bool { match *self { Some(v) => v.fits(), None => true } }
    open spec fn size(&self) -> nat { match *self { Some(v) => 1 + v.size(), None => 1 } }
    open spec fn least() -> nat { 1 }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { match (*self, *other) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } }
    proof fn lemma_size(&self, e: Endianness) { match *self { Some(v) => v.lemma_size(e), None => () } }
    proof fn lemma_primitive(&self) {}
}
impl<T: Encoding, F: Encoding> Encoding for Result<T, F> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { match *self { Ok(v) => true.enc(e) + v.enc(e), Err(v) => false.enc(e) + v.enc(e) } }
    open spec fn fits(&self) -> bool { match *self { Ok(v) => v.fits(), Err(v) => v.fits() } }
    open spec fn size(&self) -> nat { match *self { Ok(v) => 1 + v.size(), Err(v) => 1 + v.size() } }
    open spec fn least() -> nat { 1 + if T::least() <= F::least() { T::least() } else { F::least() } }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { match (*self, *other) { (Ok(a), Ok(b)) => a.same(&b), (Err(a), Err(b)) => a.same(&b), _ => false } }
    proof fn lemma_size(&self, e: Endianness) { match *self { Ok(v) => v.lemma_size(e), Err(v) => v.lemma_size(e) } }
    proof fn lemma_primitive(&self) {}
}
impl<T: Encoding> Encoding for core::ops::RangeInclusive<T> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { self@.start.enc(e) + self@.end.enc(e) }
    open spec fn fits(&self) -> bool { self@.start.fits() && self@.end.fits() }
    open spec fn size(&self) -> nat { self@.start.size() + self@.end.size() }
    open spec fn least() -> nat { T::least() + T::least() }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { self@.start.same(&other@.start) && self@.end.same(&other@.end) }
    proof fn lemma_size(&self, e: Endianness) { self@.start.lemma_size(e); self@.end.lemma_size(e); }
    proof fn lemma_primitive(&self) {}
}
impl<T: Encoding> Encoding for core::ops::Range<T> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { self.start.enc(e) + self.end.enc(e) }
    open spec fn fits(&self) -> bool { self.start.fits() && self.end.fits() }
    open spec fn size(&self) -> nat { self.start.size() + self.end.size() }
    open spec fn least() -> nat { T::least() + T::least() }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { self.start.same(&other.start) && self.end.same(&other.end) }
    proof fn lemma_size(&self, e: Endianness) { self.start.lemma_size(e); self.end.lemma_size(e); }
    proof fn lemma_primitive(&self) {}
}
impl<T: Encoding> Encoding for [T] {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { (self@.len() as u32).enc(e) + encs::<T>(self@, e) }
    open spec fn fits(&self) -> bool { self@.len() <= u32::MAX && all_fit::<T>(self@) }
    open spec fn size(&self) -> nat { 4 + sizes::<T>(self@) }
    open spec fn least() -> nat { 4 }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { all_same::<T>(self@, other@) }
    proof fn lemma_size(&self, e: Endianness) { lemma_sizes::<T>(self@, e); }
    proof fn lemma_primitive(&self) {}
}
impl<T: Encoding, const N: usize> Encoding for [T; N] {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { encs::<T>(self@, e) }
    open spec fn fits(&self) -> bool { all_fit::<T>(self@) }
    open spec fn size(&self) -> nat { sizes::<T>(self@) }
    open spec fn least() -> nat { N as nat * T::least() }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { all_same::<T>(self@, other@) }
    proof fn lemma_size(&self, e: Endianness) { lemma_sizes::<T>(self@, e); }
    proof fn lemma_primitive(&self) {}
}
impl<T: Encoding> Encoding for Vec<T> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { (self@.len() as u32).enc(e) + encs::<T>(self@, e) }
    open spec fn fits(&self) -> bool { self@.len() <= u32::MAX && all_fit::<T>(self@) }
    open spec fn size(&self) -> nat { 4 + sizes::<T>(self@) }
    open spec fn least() -> nat { 4 }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { all_same::<T>(self@, other@) }
    proof fn lemma_size(&self, e: Endianness) { lemma_sizes::<T>(self@, e); }
    proof fn lemma_primitive(&self) {}
}
/// Text is encoded as its bytes are.
macro_rules! texts {
    ($($t:ty, |$v:ident| $bytes:expr;)*) => { verus! { $(
        impl Encoding for $t {
            open spec fn enc(&self, e: Endianness) -> Seq<u8> { let $v = self; ($bytes.len() as u32).enc(e) + encs::<u8>($bytes, e) }
            open spec fn fits(&self) -> bool { let $v = self; $bytes.len() <= u32::MAX }
            open spec fn size(&self) -> nat { let $v = self; 4 + sizes::<u8>($bytes) }
            open spec fn least() -> nat { 4 }
            open spec fn primitive() -> bool { false }
            open spec fn same(&self, other: &Self) -> bool { ({ let $v = self; $bytes }) == ({ let $v = other; $bytes }) }
            proof fn lemma_size(&self, e: Endianness) { let $v = self; lemma_sizes::<u8>($bytes, e); }
            proof fn lemma_primitive(&self) {}
        }
    )* } };
}
texts! {
    str, |v| v.spec_bytes();
    String, |v| v.bytes();
    Box<str>, |v| (**v).spec_bytes();
}
/// Stands for the standard library's.
#[verifier::external_body]
pub struct String { s: ::std::string::String }
impl String {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { loop {} }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes().len() { loop {} }
}
impl<T: Encoding> Encoding for Box<[T]> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { (**self).enc(e) }
    open spec fn fits(&self) -> bool { (**self).fits() }
    open spec fn size(&self) -> nat { (**self).size() }
    open spec fn least() -> nat { 4 }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { (**self).same(&**other) }
    proof fn lemma_size(&self, e: Endianness) { (**self).lemma_size(e) }
    proof fn lemma_primitive(&self) {}
}
macro_rules! transparent {
    ($([$($g:tt)*] $t:ty, $base:ty;)*) => { verus! { $(
        impl<$($g)*> Encoding for $t {
            open spec fn enc(&self, e: Endianness) -> Seq<u8> { (**self).enc(e) }
            open spec fn fits(&self) -> bool { (**self).fits() }
            open spec fn size(&self) -> nat { (**self).size() }
            open spec fn least() -> nat { <$base as Encoding>::least() }
            open spec fn primitive() -> bool { false }
            open spec fn same(&self, other: &Self) -> bool { (**self).same(&**other) }
            proof fn lemma_size(&self, e: Endianness) { (**self).lemma_size(e) }
            proof fn lemma_primitive(&self) {}
        }
    )* } };
}
transparent! {
    ['a, T: Encoding] &'a T, T;
    ['a, T: Encoding] &'a mut T, T;
    [T: Encoding] Box<T>, T;
}
macro_rules! one_after_another {
    ($a:expr) => { verus_proof_expr!($a) };
    ($a:expr, $($b:expr),+) => { verus_proof_expr!($a + one_after_another!($($b),+)) };
}
macro_rules! tuples {
    ($(($($n:ident $v:ident $i:tt),*);)*) => { verus! { $(
        impl<$($n: Encoding),*> Encoding for ($($n,)*) {
            open spec fn enc(&self, e: Endianness) -> Seq<u8> { one_after_another!($(self.$i.enc(e)),*) }
            open spec fn fits(&self) -> bool { true $(&& self.$i.fits())* }
            open spec fn size(&self) -> nat { (0 $(+ self.$i.size())*) as nat }
            open spec fn least() -> nat { (0 $(+ $n::least())*) as nat }
            open spec fn primitive() -> bool { false }
            open spec fn same(&self, other: &Self) -> bool { true $(&& self.$i.same(&other.$i))* }
            proof fn lemma_size(&self, e: Endianness) { $(self.$i.lemma_size(e);)* }
            proof fn lemma_primitive(&self) {}
        }
    )* } };
}
tuples! {
    (A0 a 0);
    (A0 a 0, A1 b 1);
    (A0 a 0, A1 b 1, A2 c 2);
    (A0 a 0, A1 b 1, A2 c 2, A3 d 3);
    (A0 a 0, A1 b 1, A2 c 2, A3 d 3, A4 f 4);
    (A0 a 0, A1 b 1, A2 c 2, A3 d 3, A4 f 4, A5 g 5);
    (A0 a 0, A1 b 1, A2 c 2, A3 d 3, A4 f 4, A5 g 5, A6 h 6);
    (A0 a 0, A1 b 1, A2 c 2, A3 d 3, A4 f 4, A5 g 5, A6 h 6, A7 i 7);
    (A0 a 0, A1 b 1, A2 c 2, A3 d 3, A4 f 4, A5 g 5, A6 h 6, A7 i 7, A8 j 8);
    (A0 a 0, A1 b 1, A2 c 2, A3 d 3, A4 f 4, A5 g 5, A6 h 6, A7 i 7, A8 j 8, A9 k 9);
    (A0 a 0, A1 b 1, A2 c 2, A3 d 3, A4 f 4, A5 g 5, A6 h 6, A7 i 7, A8 j 8, A9 k 9, A10 l 10);
}

}
