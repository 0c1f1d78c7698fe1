//! trusted: no slice has isize::MAX elements or more (unsafe_is_length!)
//! trusted: Writer::write_u8 to write_u128 have the contract of verus/sink.rs, trait Writer (their bodies, which look at the memory of an integer, are proved by the Kani harnesses of C02 and C03 for every value); the write_bytes of the sinks are proved in the unit output, those of a user's Writer are assumed to have the contract; no Writer overrides write_value, write_slice or write_collection with something else
//! trusted: speedy_slice_as_bytes of the primitive types gives their representation in memory (proved for each type, with bounded lengths, by the Kani harnesses of C11), which on this little-endian target is their little-endian encoding
//! trusted: values whose encoding does not fit into the address space are out of scope (bytes_needed requires it)
//! trusted: VarInt64::write_to writes its own encoding (proved for all values by the Kani harnesses of C06)
//@ include wire.rs
verus! {

broadcast use {seqs::lemma_little, seqs::lemma_int, seqs::lemma_byte, seqs::lemma_prefix_shorter, seqs::lemma_prefix_longer, seqs::lemma_prefix_within, seqs::lemma_prefix_regrouped, seqs::lemma_prefix_itself, seqs::lemma_associative, vstd::layout::group_layout_axioms};

#[verifier::external_body]
fn physical_length(n: usize) ensures n < isize::MAX { loop {} }
macro_rules! unsafe_is_length { ($e:expr) => { physical_length($e) }; }

#[verifier::external_body]
pub fn error_out_of_range_length<E: From<Error>>() -> E { loop {} }

/// Where the bytes go to.
pub trait Sink {
    spec fn out(&self) -> Seq<u8>;
    spec fn order(&self) -> Endianness;
    /// How many bytes it takes, at the least, before it fails; less than nothing if it may fail at any time.
    spec fn limit(&self) -> int;
    /// What the memory behind it holds in the end (a prophecy, for the buffers which belong to somebody else).
    #[verifier::prophetic]
    spec fn eventually(&self) -> Seq<u8>;
}

/// Everything was written, or, if something failed, nothing but a part of it.
#[verifier::prophetic]
pub open spec fn wrote<W: ?Sized + Sink>(old: &W, new: &W, ok: bool, bytes: Seq<u8>, fits: bool) -> bool {
    &&& new.order() == old.order()
    &&& new.limit() == old.limit()
    &&& new.eventually() == old.eventually()
    &&& ok ==> fits && new.out() == old.out() + bytes
    &&& !ok ==> old.limit() < old.out().len() + bytes.len() || !fits
    &&& !ok ==> old.out().is_prefix_of(new.out()) && new.out().is_prefix_of(old.out() + bytes)
}

pub trait Writer<C: Context>: Sink {
    fn write_bytes(&mut self, slice: &[u8]) -> (r: Result<(), C::Error>)
        ensures wrote::<Self>(old(self), final(self), r is Ok, slice@, true);
    fn endianness(&self) -> (r: Endianness) ensures r == self.order();
    #[verifier::external_body]
    fn write_u8(&mut self, value: u8) -> (r: Result<(), C::Error>)
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
    { loop {} }
    #[verifier::external_body]
    fn write_u16(&mut self, value: u16) -> (r: Result<(), C::Error>)
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
    { loop {} }
    #[verifier::external_body]
    fn write_u32(&mut self, value: u32) -> (r: Result<(), C::Error>)
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
    { loop {} }
    #[verifier::external_body]
    fn write_u64(&mut self, value: u64) -> (r: Result<(), C::Error>)
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
    { loop {} }
    #[verifier::external_body]
    fn write_u128(&mut self, value: u128) -> (r: Result<(), C::Error>)
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
    { loop {} }
//@ fn src/writer.rs trait Writer< C: Context > / fn write_i8
//@   returns r
//@   spec
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
//@ end
//@ fn src/writer.rs trait Writer< C: Context > / fn write_i16
//@   returns r
//@   spec
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
//@ end
//@ fn src/writer.rs trait Writer< C: Context > / fn write_i32
//@   returns r
//@   spec
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
//@ end
//@ fn src/writer.rs trait Writer< C: Context > / fn write_i64
//@   returns r
//@   spec
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
//@ end
//@ fn src/writer.rs trait Writer< C: Context > / fn write_i128
//@   returns r
//@   spec
        ensures wrote::<Self>(old(self), final(self), r is Ok, value.enc(old(self).order()), true)
//@ end
}

pub trait Writable<C: Context>: Encoding {
    fn write_to<W__: ?Sized + Writer<C>>(&self, writer: &mut W__) -> (r: Result<(), C::Error>)
        ensures wrote::<W__>(old(writer), final(writer), r is Ok, self.enc(old(writer).order()), self.fits());
    fn bytes_needed(&self) -> (r: Result<usize, C::Error>)
        requires self.size() <= usize::MAX
        ensures r is Ok ==> r->Ok_0 == self.size(), r is Err ==> !self.fits();
//@ fn src/writable.rs trait Writable< C: Context > / fn speedy_is_primitive
//@   returns r
//@   spec
        ensures r ==> Self::primitive()
//@ end
    #[verifier::external_body]
    unsafe fn speedy_slice_as_bytes(slice: &[Self]) -> (r: &[u8]) where Self: Sized
        requires Self::primitive()
        ensures forall|e: Endianness| e == Endianness::native() || mem::size_of::<Self>() == 1 ==> r@ == #[trigger] encs::<Self>(slice@, e)
    { loop {} }
}

pub trait WriterExt<C: Context>: Writer<C> {
//@ fn src/writer.rs trait Writer< C: Context > / fn write_value
//@   returns r
//@   spec
        ensures wrote::<Self>(old(self), final(self), r is Ok, item.enc(old(self).order()), item.fits())
//@ end
}
impl<C: Context, W: ?Sized + Writer<C>> WriterExt<C> for W {}

//@ fn src/private.rs fn write_length_u64
//@   returns r
//@   spec
    ensures wrote::<W>(old(writer), final(writer), r is Ok, (length as u64).enc(old(writer).order()), true)
//@ end
//@ fn src/private.rs fn write_length_u32
//@   returns r
//@   spec
    ensures wrote::<W>(old(writer), final(writer), r is Ok, (length as u32).enc(old(writer).order()), length <= u32::MAX)
//@ end
//@ fn src/private.rs fn write_length_u16
//@   returns r
//@   spec
    ensures wrote::<W>(old(writer), final(writer), r is Ok, (length as u16).enc(old(writer).order()), length <= u16::MAX)
//@ end
//@ fn src/private.rs fn write_length_u8
//@   returns r
//@   spec
    ensures wrote::<W>(old(writer), final(writer), r is Ok, (length as u8).enc(old(writer).order()), length <= u8::MAX)
//@ end
//@ fn src/private.rs fn write_length_u7
//@   returns r
//@   spec
    ensures wrote::<W>(old(writer), final(writer), r is Ok, (length as u8).enc(old(writer).order()), length <= 127)
//@ end
//@ fn src/private.rs fn write_length
//@   returns r
//@   spec
    ensures wrote::<W>(old(writer), final(writer), r is Ok, (length as u32).enc(old(writer).order()), length <= u32::MAX)
//@ end


}
