//! trusted: the compiler's expansion of the derive macros (cargo +nightly rustc -Zunpretty=expanded, run on every check) is what it compiles
//! trusted: read_from and minimum_bytes_needed of u8, u16, u32 and pairs have the contracts which the unit `read` proves
//@ include source.rs
//@ include derived.rs
verus! {

/// Proved in the unit `read`.
macro_rules! readables {
    ($([$($g:tt)*] $t:ty;)*) => { verus! { $(
        impl<'a, C: Context $($g)*> Readable<'a, C> for $t {
            #[verifier::external_body]
            fn read_from<R__: Reader<'a, C>>(reader: &mut R__) -> (r: Result<Self, C::Error>) { loop {} }
            #[verifier::external_body]
            fn minimum_bytes_needed() -> (r: usize) { loop {} }
        }
    )* } };
}
readables! { [] u8; [] u16; [] u32; [, T: Readable<'a, C>] (u16, T); }

pub mod speedy {
    pub use super::{Context, IsEof, Readable, Reader};
    pub mod private {
        pub(crate) use super::super::{read_length_u7, read_length_u8, read_length_u16, read_length_u32, read_length_u64};
        pub use super::super::private::vec_to_string;
        pub use super::super::error::error_invalid_enum_variant;
    }
}

impl<'a_, T: Readable<'a_, C_>, U: Readable<'a_, C_>, V: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Named<T, U, V> {
//@ fn @zoo impl<'a_, T, U, V, C_: speedy::Context> speedy::Readable<'a_, C_> for Named<T, U, V> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, U, V, C_: speedy::Context> speedy::Readable<'a_, C_> for Named<T, U, V> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, U: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Unnamed<T, U> {
//@ fn @zoo impl<'a_, T, U, C_: speedy::Context> speedy::Readable<'a_, C_> for Unnamed<T, U> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, U, C_: speedy::Context> speedy::Readable<'a_, C_> for Unnamed<T, U> / fn minimum_bytes_needed
//@ end
}
impl<'a_, C_: Context> Readable<'a_, C_> for Unit {
//@ fn @zoo impl<'a_, C_: speedy::Context> speedy::Readable<'a_, C_> for Unit / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, C_: speedy::Context> speedy::Readable<'a_, C_> for Unit / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Known<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Known<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Known<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for KnownOption<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for KnownOption<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for KnownOption<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for KnownText<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for KnownText<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for KnownText<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Lengths<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Lengths<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Lengths<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Lengths3<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Lengths3<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Lengths3<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Lengths2<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Lengths2<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Lengths2<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, C_: Context> Readable<'a_, C_> for Texts {
//@ fn @zoo impl<'a_, C_: speedy::Context> speedy::Readable<'a_, C_> for Texts / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, C_: speedy::Context> speedy::Readable<'a_, C_> for Texts / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Measured<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Measured<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Measured<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Skips<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Skips<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Skips<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Optional<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Optional<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Optional<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, C_: Context> Readable<'a_, C_> for OptionalText {
//@ fn @zoo impl<'a_, C_: speedy::Context> speedy::Readable<'a_, C_> for OptionalText / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, C_: speedy::Context> speedy::Readable<'a_, C_> for OptionalText / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Tagged<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Tagged7<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged7<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged7<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Tagged8<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged8<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged8<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Tagged16<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged16<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged16<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Tagged64<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged64<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Tagged64<T> / fn minimum_bytes_needed
//@ end
}
impl<'a_, C_: Context> Readable<'a_, C_> for Discriminants {
//@ fn @zoo impl<'a_, C_: speedy::Context> speedy::Readable<'a_, C_> for Discriminants / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, C_: speedy::Context> speedy::Readable<'a_, C_> for Discriminants / fn minimum_bytes_needed
//@ end
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> Readable<'a_, C_> for Peeked<T> {
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Peeked<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Peeked<T> / fn minimum_bytes_needed
//@ end
}


/// What reading does if fields have a default at the end of the input. What follows an encoding is left alone.
pub trait ReadableToTheEnd<'a, C: Context>: Encoding + Sized {
    /// Whether `back` is what is to be read from the first `n` bytes of the encoding of `v`, if anything is.
    spec fn complete(v: &Self, n: int, e: Endianness, back: &Self) -> Option<bool>;
    fn read_from<R__: Reader<'a, C>>(reader: &mut R__) -> (r: Result<Self, C::Error>)
        ensures
            final(reader).order() == old(reader).order(),
            final(reader).fails() == old(reader).fails(),
            remains(old(reader).rest(), final(reader).rest()),
            r is Ok ==> final(reader).rest().len() + Self::least() <= old(reader).rest().len(),
            !old(reader).fails() ==> forall|v: Self, tail: Seq<u8>| v.fits() && old(reader).rest() == #[trigger] (v.enc(old(reader).order()) + tail)
                ==> r is Ok && r->Ok_0.same(&v) && final(reader).rest() == tail,
            !old(reader).fails() ==> forall|v: Self, n: int| v.fits() && 0 <= n < v.enc(old(reader).order()).len() && old(reader).rest() == #[trigger] v.enc(old(reader).order()).subrange(0, n)
                ==> match r { Err(error) => error.end() && Self::complete(&v, n, old(reader).order(), &v) is None, Ok(back) => Self::complete(&v, n, old(reader).order(), &back) == Some(true) };
    fn minimum_bytes_needed() -> (r: usize)
        requires Self::least() <= usize::MAX
        ensures r <= Self::least();
}
impl<'a_, T: Readable<'a_, C_>, C_: Context> ReadableToTheEnd<'a_, C_> for Missing<T> {
    open spec fn complete(v: &Self, n: int, e: Endianness, back: &Self) -> Option<bool> { if n < v.a.enc(e).len() { None } else { Some(back.a.same(&v.a) && back.b == 0) } }
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Missing<T> / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::lemma_same_bytes};
//@ end
//@ fn @zoo impl<'a_, T, C_: speedy::Context> speedy::Readable<'a_, C_> for Missing<T> / fn minimum_bytes_needed
//@ end
}

}
fn main() {}
