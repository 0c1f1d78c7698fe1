//! trusted: <[u8]>::{get, get_mut, copy_from_slice}, Vec::{with_capacity, set_len, as_mut_slice} have the contracts of verus/output.rs (memory which was not written holds some bytes); no slice of bytes has more than isize::MAX of them
//! trusted: std::io::Write::write_all of the caller's stream behaves as documented (verus/output.rs, trait Write): when it fails, a part of the bytes was written at most
//! trusted: the single integers of a BufferCollector and of a WritingCollector are written by the default methods of Writer (proved by the Kani harnesses of C03), whose bodies are not under contract here
//! trusted: a value whose size is more than usize::MAX is out of scope (SizeCalculatorCollector)
//@ include sink.rs
verus! {

/// A panic: must be unreachable.
#[verifier::external_body]
fn panicked() requires false { loop {} }

mod io {
    pub use ::std::io::*;
    pub struct Error {}
}
impl Error {
    #[verifier::external_body]
    pub fn from_io_error(error: io::Error) -> Error { loop {} }
}
#[verifier::external_body]
pub fn error_end_of_output_buffer<E: From<Error>>() -> E { loop {} }
#[verifier::external_body]
pub fn error_output_buffer_is_too_small<E: From<Error>>(actual: usize, expected: usize) -> E { loop {} }

/// The caller's stream.
pub trait Write {
    spec fn written(&self) -> Seq<u8>;
    spec fn takes(&self) -> int;
    fn write_all(&mut self, slice: &[u8]) -> (r: Result<(), io::Error>)
        ensures
            final(self).takes() == old(self).takes(),
            r is Ok ==> final(self).written() == old(self).written() + slice@,
            r is Err ==> old(self).takes() < old(self).written().len() + slice@.len()
                && old(self).written().is_prefix_of(final(self).written()) && final(self).written().is_prefix_of(old(self).written() + slice@);
}

#[verifier::external_body]
fn slice_get<'a>(s: &'a [u8], r: ::core::ops::Range<usize>) -> (x: Option<&'a [u8]>)
    ensures x is Some == (r.start <= r.end <= s@.len()), x is Some ==> x->Some_0@ == s@.subrange(r.start as int, r.end as int)
{ s.get(r) }

mod memory {
use vstd::prelude::*;
pub broadcast axiom fn slice_length(s: &[u8])
    ensures #[trigger] s@.len() <= isize::MAX;
/// The first `n` bytes, which there are.
pub open spec fn taken(b: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| b[i]) }
pub broadcast proof fn lemma_overwritten(b: Seq<u8>, s: Seq<u8>, p: int, n: nat)
    requires 0 <= p, n == p + s.len(), n <= b.len()
    ensures #[trigger] taken(b.subrange(0, p) + s + b.subrange(p + s.len(), b.len() as int), n) == taken(b, p as nat) + s
{
    assert(taken(b.subrange(0, p) + s + b.subrange(p + s.len(), b.len() as int), n) =~= taken(b, p as nat) + s);
}
}

#[verifier::external_body]
fn slice_get_mut<'a>(s: &'a mut [u8], r: ::core::ops::Range<usize>) -> (x: Option<&'a mut [u8]>)
    ensures
        r.start <= r.end <= old(s)@.len() ==> x is Some,
        x is Some ==> r.start <= r.end <= old(s)@.len() && x->Some_0@ == old(s)@.subrange(r.start as int, r.end as int)
           && final(x->Some_0)@.len() == x->Some_0@.len()
           && final(s)@ == old(s)@.subrange(0, r.start as int) + final(x->Some_0)@ + old(s)@.subrange(r.end as int, old(s)@.len() as int),
        x is None ==> final(s)@ == old(s)@
    no_unwind
{ s.get_mut(r) }
//@ item src/writable.rs struct BufferCollector
impl< 'a, C: Context > BufferCollector< 'a, C > {
    #[verifier::type_invariant]
    spec fn within(&self) -> bool { self.position <= self.buffer@.len() }
}
impl< 'a, C: Context > Sink for BufferCollector< 'a, C > {
    closed spec fn out(&self) -> Seq<u8> { memory::taken(self.buffer@, self.position as nat) }
    closed spec fn order(&self) -> Endianness { self.context.order() }
    closed spec fn limit(&self) -> int { self.buffer@.len() as int }
    #[verifier::prophetic]
    closed spec fn eventually(&self) -> Seq<u8> { final(self.buffer)@ }
}
impl< 'a, C: Context > Writer< C > for BufferCollector< 'a, C > {
//@ fn src/writable.rs impl< 'a, C: Context > Writer< C > for BufferCollector< 'a, C > / fn write_bytes
//@   body
        proof { use_type_invariant(&*self); }
        broadcast use {memory::slice_length, memory::lemma_overwritten};
//@ end
//@ fn src/writer.rs trait Writer< C: Context > / fn endianness
//@   sub self.context() => self.context
//@ end
}

impl< 'a, C: Context > BufferCollector< 'a, C > {
//@ fn src/writable.rs impl< 'a, C: Context > Writer< C > for BufferCollector< 'a, C > / fn can_write_at_least
//@   returns r
//@   sub self.buffer.get( ==> slice_get( &*self.buffer,
//@   spec
        requires self.out().len() + size <= usize::MAX
        ensures r == Some( self.out().len() + size <= self.limit() )
//@ end
}

//@ item src/writable.rs struct WritingCollector
impl< C: Context, T: Write > Sink for WritingCollector< C, T > {
    closed spec fn out(&self) -> Seq<u8> { self.writer.written() }
    closed spec fn order(&self) -> Endianness { self.context.order() }
    closed spec fn limit(&self) -> int { self.writer.takes() }
    #[verifier::prophetic]
    closed spec fn eventually(&self) -> Seq<u8> { seq![] }
}
impl< C: Context, T: Write > Writer< C > for WritingCollector< C, T > {
//@ fn src/writable.rs impl< C: Context, T: Write > Writer< C > for WritingCollector< C, T > / fn write_bytes
//@ end
//@ fn src/writer.rs trait Writer< C: Context > / fn endianness
//@   sub self.context() => self.context
//@ end
}

/// With a ghost field: what would have been written.
struct SizeCalculatorCollector { size: usize, bytes: Ghost<spec_fn(int) -> u8> }
spec fn followed(bytes: spec_fn(int) -> u8, size: int, more: Seq<u8>) -> spec_fn(int) -> u8 {
    |i: int| if i < size { bytes(i) } else { more[i - size] }
}
impl Sink for SizeCalculatorCollector {
    closed spec fn out(&self) -> Seq<u8> { Seq::new(self.size as nat, self.bytes@) }
    closed spec fn order(&self) -> Endianness { Endianness::native() }
    closed spec fn limit(&self) -> int { usize::MAX as int }
    #[verifier::prophetic]
    closed spec fn eventually(&self) -> Seq<u8> { seq![] }
}
/// Values of more than usize::MAX bytes are out of scope.
axiom fn sizes_are_in_scope(size: int) ensures size <= usize::MAX;
impl< C: Context > Writer< C > for SizeCalculatorCollector {
//@ fn src/writable.rs impl< C: Context > Writer< C > for SizeCalculatorCollector / fn write_bytes
//@   body
        proof { sizes_are_in_scope(self.size as int + slice@.len()); }
//@   hint before 0 Ok
        proof { self.bytes@ = followed(old(self).bytes@, old(self).size as int, slice@); assert(self.out() =~= old(self).out() + slice@); }
//@ end
//@ fn src/writable.rs impl< C: Context > Writer< C > for SizeCalculatorCollector / fn endianness
//@   sub Endianness::NATIVE => Endianness::LittleEndian
//@ end
//@ fn src/writable.rs impl< C: Context > Writer< C > for SizeCalculatorCollector / fn write_u8
//@   sub _: u8 => value: u8
//@   body
        proof { sizes_are_in_scope(self.size as int + value.size()); value.lemma_size(Endianness::native()); }
//@   hint before 0 Ok
        proof { self.bytes@ = followed(old(self).bytes@, old(self).size as int, value.enc(Endianness::native())); assert(self.out() =~= old(self).out() + value.enc(Endianness::native())); }
//@ end
//@ fn src/writable.rs impl< C: Context > Writer< C > for SizeCalculatorCollector / fn write_u16
//@   sub _: u16 => value: u16
//@   body
        proof { sizes_are_in_scope(self.size as int + value.size()); value.lemma_size(Endianness::native()); }
//@   hint before 0 Ok
        proof { self.bytes@ = followed(old(self).bytes@, old(self).size as int, value.enc(Endianness::native())); assert(self.out() =~= old(self).out() + value.enc(Endianness::native())); }
//@ end
//@ fn src/writable.rs impl< C: Context > Writer< C > for SizeCalculatorCollector / fn write_u32
//@   sub _: u32 => value: u32
//@   body
        proof { sizes_are_in_scope(self.size as int + value.size()); value.lemma_size(Endianness::native()); }
//@   hint before 0 Ok
        proof { self.bytes@ = followed(old(self).bytes@, old(self).size as int, value.enc(Endianness::native())); assert(self.out() =~= old(self).out() + value.enc(Endianness::native())); }
//@ end
//@ fn src/writable.rs impl< C: Context > Writer< C > for SizeCalculatorCollector / fn write_u64
//@   sub _: u64 => value: u64
//@   body
        proof { sizes_are_in_scope(self.size as int + value.size()); value.lemma_size(Endianness::native()); }
//@   hint before 0 Ok
        proof { self.bytes@ = followed(old(self).bytes@, old(self).size as int, value.enc(Endianness::native())); assert(self.out() =~= old(self).out() + value.enc(Endianness::native())); }
//@ end
//@ fn src/writable.rs impl< C: Context > Writer< C > for SizeCalculatorCollector / fn write_u128
//@   sub _: u128 => value: u128
//@   body
        proof { sizes_are_in_scope(self.size as int + value.size()); value.lemma_size(Endianness::native()); }
//@   hint before 0 Ok
        proof { self.bytes@ = followed(old(self).bytes@, old(self).size as int, value.enc(Endianness::native())); assert(self.out() =~= old(self).out() + value.enc(Endianness::native())); }
//@ end
}

mod outputs {
use super::*;
/// Stands for the standard library's Vec, under the contracts below.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { v: std::vec::Vec<T> }
impl<T> View for Vec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Vec<T> {
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) requires n <= isize::MAX ensures r@.len() == 0, n <= r.cap() <= isize::MAX { loop {} }
    #[verifier::external_body]
    pub unsafe fn set_len(&mut self, n: usize)
        requires n <= old(self).cap()
        ensures final(self)@.len() == n, final(self).cap() == old(self).cap(),
            forall|i: int| 0 <= i < n && i < old(self)@.len() ==> final(self)@[i] == old(self)@[i],
    { loop {} }
    #[verifier::external_body]
    pub fn as_mut_slice(&mut self) -> (r: &mut [T])
        ensures r@ == old(self)@, final(r)@.len() == r@.len(), final(self)@ == final(r)@, final(self).cap() == old(self).cap()
    { loop {} }
}
pub trait Outputs< C: Context >: Writable< C > {
//@ fn src/writable.rs trait Writable< C: Context > / fn bytes_needed
//@   as default_bytes_needed
//@   returns r
//@   sub size: 0 => size: 0, bytes: Ghost(|i: int| 0u8)
//@   spec
        requires self.size() <= usize::MAX
        ensures r is Ok ==> r->Ok_0 == self.size(), r is Err ==> !self.fits()
//@   hint after 0 let mut writer
        proof { self.lemma_size(Endianness::native()); }
//@ end
//@ fn src/writable.rs trait Writable< C: Context > / fn write_to_buffer_with_ctx_mut
//@   returns r
//@   spec
        requires self.size() <= usize::MAX
        ensures
            r is Ok ==> self.fits() && self.size() <= old(buffer)@.len()
                && final(buffer)@ =~= self.enc(old(context).order()) + old(buffer)@.subrange(self.size() as int, old(buffer)@.len() as int),
            r is Err ==> !self.fits() || old(buffer)@.len() < self.size() && final(buffer)@ == old(buffer)@
//@   body
        proof { self.lemma_size(old(context).order()); }
//@ end
//@ fn src/writable.rs trait Writable< C: Context > / fn write_to_buffer_with_ctx
//@   returns r
//@   spec
        requires self.size() <= usize::MAX
        ensures
            r is Ok ==> self.fits() && self.size() <= old(buffer)@.len()
                && final(buffer)@ =~= self.enc(context.order()) + old(buffer)@.subrange(self.size() as int, old(buffer)@.len() as int),
            r is Err ==> !self.fits() || old(buffer)@.len() < self.size() && final(buffer)@ == old(buffer)@
//@ end
//@ fn src/writable.rs trait Writable< C: Context > / fn write_to_vec_with_ctx_mut
//@   returns r
//@   spec
        requires self.size() <= isize::MAX
        ensures
            r is Ok ==> self.fits() && r->Ok_0@ =~= self.enc(old(context).order()),
            r is Err ==> !self.fits()
//@   body
        proof { self.lemma_size(old(context).order()); }
//@ end
//@ fn src/writable.rs trait Writable< C: Context > / fn write_to_vec_with_ctx
//@   returns r
//@   spec
        requires self.size() <= isize::MAX
        ensures
            r is Ok ==> self.fits() && r->Ok_0@ =~= self.enc(context.order()),
            r is Err ==> !self.fits()
//@ end
//@ fn src/writable.rs trait Writable< C: Context > / fn write_to_stream_with_ctx
//@   returns r
//@   spec
        ensures
            r is Ok ==> self.fits(),
            r is Err ==> !self.fits() || stream.takes() < stream.written().len() + self.size()
//@   body
        proof { self.lemma_size(context.order()); }
//@ end
}
}
}
fn main() {}
