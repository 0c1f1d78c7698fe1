//! trusted: the Reader methods for single integers and read_bytes have the contract of verus/read.rs, trait Reader (their bodies are proved by the Kani harnesses of C01, C04 and C08 for each reader); no Reader overrides read_value or the other provided methods with something else
//! trusted: Reader::read_vec and [T; N]::read_from (unsafe code) have the contracts of verus/read.rs (decided with bounded lengths by the Kani harnesses of C01, C04, C05 and C12)
//! trusted: allocation succeeds; a user's conversion of errors keeps whether they are an end of input
//! trusted: core::char::from_u32 gives exactly the chars, as documented; String::from_utf8 accepts exactly UTF-8 and keeps the bytes
//@ include wire.rs
verus! {

broadcast use {seqs::lemma_little, seqs::lemma_int, seqs::lemma_cut, seqs::lemma_remains, seqs::lemma_all_remains, seqs::lemma_less_remains, seqs::lemma_associative, seqs::lemma_nothing, vstd::layout::group_layout_axioms};

#[verifier::external_body]
pub fn error_end_of_input<E: From<Error>>() -> (r: E) ensures r.end() { loop {} }
#[verifier::external_body]
pub fn error_out_of_range_length<E: From<Error>>() -> (r: E) ensures !r.end() { loop {} }
pub mod error {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn error_invalid_enum_variant<E: From<Error>>() -> (r: E) ensures !r.end() { loop {} }
    #[verifier::external_body]
    pub fn error_out_of_range_char<E: From<Error>>() -> (r: E) ensures !r.end() { loop {} }
    #[verifier::external_body]
    pub fn error_too_big_usize_for_this_architecture<E: From<Error>>() -> (r: E) ensures !r.end() { loop {} }
}

pub assume_specification [::core::char::from_u32] (v: u32) -> (r: Option<char>)
    ensures forall|c: char| #[trigger] code(c) == v ==> r == Some(c);

pub mod private {
    use vstd::prelude::*;
    use super::*;
    /// A vector of given elements.
    pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
    pub broadcast axiom fn axiom_vec_of<T>(s: Seq<T>)
        requires s.len() <= u32::MAX
        ensures (#[trigger] vec_of(s))@ == s;
    pub broadcast proof fn lemma_same_bytes(a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] all_same::<u8>(a, b)
        ensures a == b
    {
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(a[i].same(&b[i])); }
        assert(a =~= b);
    }
    /// Whether bytes are text.
    pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
    pub broadcast axiom fn axiom_text(s: String)
        ensures utf8(#[trigger] s.bytes());
    pub broadcast axiom fn axiom_texts(s: &str)
        ensures utf8(#[trigger] s.spec_bytes());
    /// A string of given bytes.
    pub uninterp spec fn text_of(s: Seq<u8>) -> String;
    pub broadcast axiom fn axiom_text_of(s: Seq<u8>)
        requires utf8(s), s.len() <= u32::MAX
        ensures (#[trigger] text_of(s)).bytes() == s;
    #[verifier::external_body]
    pub fn vec_to_string<E: From<Error>>(bytes: Vec<u8>) -> (r: Result<String, E>)
        ensures utf8(bytes@) ==> r is Ok && r->Ok_0.bytes() == bytes@, r is Err ==> !r->Err_0.end()
    { loop {} }
    #[verifier::external_body]
    pub fn into_boxed_slice<T>(data: Vec<T>) -> (r: Box<[T]>) ensures r@ == data@ { loop {} }
    #[verifier::external_body]
    pub fn into_boxed_text(data: String) -> (r: Box<str>) ensures (*r).spec_bytes() == data.bytes() { loop {} }
    pub(crate) use super::read_length;
}
use private::{into_boxed_slice, into_boxed_text};

/// Where the bytes come from.
pub trait Source {
    spec fn rest(&self) -> Seq<u8>;
    spec fn order(&self) -> Endianness;
    /// Whether it ever fails, other than at the end of its input.
    spec fn fails(&self) -> bool;
}

/// What reading a value does: it takes something off the front, it takes at least as much as the shortest encoding,
/// it gives the value whose encoding is in front and takes exactly that, and if only a part of an encoding is there,
/// the error is an end of input.
pub open spec fn read<R: Source, T: Encoding, E: IsEof>(old: &R, new: &R, r: Result<T, E>) -> bool {
    &&& new.order() == old.order()
    &&& new.fails() == old.fails()
    &&& remains(old.rest(), new.rest())
    &&& r is Ok ==> new.rest().len() + T::least() <= old.rest().len()
    &&& !old.fails() ==> forall|v: T, tail: Seq<u8>| v.fits() && old.rest() == #[trigger] (v.enc(old.order()) + tail)
            ==> r is Ok && r->Ok_0.same(&v) && new.rest() == tail
    &&& !old.fails() ==> forall|v: T, n: int| v.fits() && 0 <= n < v.enc(old.order()).len() && old.rest() == #[trigger] v.enc(old.order()).subrange(0, n)
            ==> r is Err && r->Err_0.end()
}

/// What reading a length does, which is encoded as a `T`.
pub open spec fn length_read<R: Source, T: Encoding + Number, E: IsEof>(old: &R, new: &R, r: Result<usize, E>, most: nat) -> bool {
    &&& new.order() == old.order()
    &&& new.fails() == old.fails()
    &&& remains(old.rest(), new.rest())
    &&& r is Ok ==> r->Ok_0 <= most
    &&& r is Ok ==> new.rest().len() + T::least() <= old.rest().len()
    &&& !old.fails() ==> forall|v: T, tail: Seq<u8>| v.number() <= most && old.rest() == #[trigger] (v.enc(old.order()) + tail)
            ==> r is Ok && r->Ok_0 == v.number() && new.rest() == tail
    &&& !old.fails() ==> forall|v: T, n: int| v.fits() && 0 <= n < v.enc(old.order()).len() && old.rest() == #[trigger] v.enc(old.order()).subrange(0, n)
            ==> r is Err && r->Err_0.end()
}
pub trait Number { spec fn number(&self) -> nat; }
impl Number for u8 { open spec fn number(&self) -> nat { *self as nat } }
impl Number for u16 { open spec fn number(&self) -> nat { *self as nat } }
impl Number for u32 { open spec fn number(&self) -> nat { *self as nat } }
impl Number for u64 { open spec fn number(&self) -> nat { *self as nat } }

/// `length` values, one after another.
pub open spec fn values_read<R: Source, T: Encoding, E: IsEof>(old: &R, new: &R, r: Result<Vec<T>, E>, length: nat) -> bool {
    &&& new.order() == old.order()
    &&& new.fails() == old.fails()
    &&& remains(old.rest(), new.rest())
    &&& r is Ok ==> r->Ok_0@.len() == length && new.rest().len() + length * T::least() <= old.rest().len()
    &&& !old.fails() ==> forall|v: Seq<T>, tail: Seq<u8>| v.len() == length && all_fit::<T>(v) && old.rest() == #[trigger] (encs::<T>(v, old.order()) + tail)
            ==> r is Ok && all_same::<T>(r->Ok_0@, v) && new.rest() == tail
    &&& !old.fails() ==> forall|v: Seq<T>, n: int| v.len() == length && all_fit::<T>(v) && 0 <= n < encs::<T>(v, old.order()).len() && old.rest() == #[trigger] encs::<T>(v, old.order()).subrange(0, n)
            ==> r is Err && r->Err_0.end()
}

pub trait Reader<'a, C: Context>: Source + Sized {
    fn endianness(&self) -> (r: Endianness) ensures r == self.order();
    fn read_u8(&mut self) -> (r: Result<u8, C::Error>)
        ensures read::<Self, u8, C::Error>(old(self), final(self), r);
    /// Gives the value without taking it.
    fn peek_u8(&mut self) -> (r: Result<u8, C::Error>)
        ensures
            final(self).order() == old(self).order(), final(self).fails() == old(self).fails(), final(self).rest() == old(self).rest(),
            r is Ok ==> old(self).rest().len() >= 1 && r->Ok_0 == old(self).rest()[0],
            !old(self).fails() ==> (r is Ok) == (old(self).rest().len() >= 1) && (r is Err ==> r->Err_0.end());
    fn read_u16(&mut self) -> (r: Result<u16, C::Error>)
        ensures read::<Self, u16, C::Error>(old(self), final(self), r);
    fn read_u32(&mut self) -> (r: Result<u32, C::Error>)
        ensures read::<Self, u32, C::Error>(old(self), final(self), r);
    fn read_u64(&mut self) -> (r: Result<u64, C::Error>)
        ensures read::<Self, u64, C::Error>(old(self), final(self), r);
    fn read_u128(&mut self) -> (r: Result<u128, C::Error>)
        ensures read::<Self, u128, C::Error>(old(self), final(self), r);
    fn read_i8(&mut self) -> (r: Result<i8, C::Error>)
        ensures read::<Self, i8, C::Error>(old(self), final(self), r);
    fn read_i16(&mut self) -> (r: Result<i16, C::Error>)
        ensures read::<Self, i16, C::Error>(old(self), final(self), r);
    fn read_i32(&mut self) -> (r: Result<i32, C::Error>)
        ensures read::<Self, i32, C::Error>(old(self), final(self), r);
    fn read_i64(&mut self) -> (r: Result<i64, C::Error>)
        ensures read::<Self, i64, C::Error>(old(self), final(self), r);
    fn read_i128(&mut self) -> (r: Result<i128, C::Error>)
        ensures read::<Self, i128, C::Error>(old(self), final(self), r);
}

pub trait Readable<'a, C: Context>: Encoding + Sized {
    fn read_from<R__: Reader<'a, C>>(reader: &mut R__) -> (r: Result<Self, C::Error>)
        ensures read::<R__, Self, C::Error>(old(reader), final(reader), r);
    fn minimum_bytes_needed() -> (r: usize)
        requires Self::least() <= usize::MAX
        ensures r <= Self::least();
}

//@ fn src/private.rs fn read_length_u64
//@   returns r
//@   spec
    ensures length_read::<R, u64, C::Error>(old(reader), final(reader), r, usize::MAX as nat)
//@ end
//@ fn src/private.rs fn read_length_u32
//@   returns r
//@   spec
    ensures length_read::<R, u32, C::Error>(old(reader), final(reader), r, usize::MAX as nat)
//@ end
//@ fn src/private.rs fn read_length_u16
//@   returns r
//@   spec
    ensures length_read::<R, u16, C::Error>(old(reader), final(reader), r, usize::MAX as nat)
//@ end
//@ fn src/private.rs fn read_length_u8
//@   returns r
//@   spec
    ensures length_read::<R, u8, C::Error>(old(reader), final(reader), r, usize::MAX as nat)
//@ end
//@ fn src/private.rs fn read_length_u7
//@   returns r
//@   spec
    ensures length_read::<R, u8, C::Error>(old(reader), final(reader), r, 127)
//@ end
//@ fn src/private.rs fn read_length
//@   returns r
//@   spec
    ensures length_read::<R, u32, C::Error>(old(reader), final(reader), r, usize::MAX as nat)
//@ end

pub trait ReaderExt<'a, C: Context>: Reader<'a, C> {
//@ fn src/reader.rs trait Reader< 'a, C: Context >: Sized / fn read_value
//@   returns r
//@   spec
        ensures read::<Self, T, C::Error>(old(self), final(self), r)
//@ end
    #[verifier::external_body]
    fn read_vec<T: Readable<'a, C>>(&mut self, length: usize) -> (r: Result<Vec<T>, C::Error>)
        ensures values_read::<Self, T, C::Error>(old(self), final(self), r, length as nat)
    { loop {} }
//@ fn src/reader.rs trait Reader< 'a, C: Context >: Sized / fn read_string
//@   returns r
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@   spec
        ensures
            final(self).order() == old(self).order(),
            final(self).fails() == old(self).fails(),
            remains(old(self).rest(), final(self).rest()),
            r is Ok ==> final(self).rest().len() + length <= old(self).rest().len(),
            !old(self).fails() ==> forall|v: String, tail: Seq<u8>| v.bytes().len() == length && old(self).rest() == #[trigger] (encs::<u8>(v.bytes(), old(self).order()) + tail)
                ==> r is Ok && r->Ok_0.bytes() == v.bytes() && final(self).rest() == tail
//@ end
}
impl<'a, C: Context, R: Reader<'a, C>> ReaderExt<'a, C> for R {}

}
