//! trusted: the compiler's expansion of the derive macros (cargo +nightly rustc -Zunpretty=expanded, run on every check) is what it compiles
//! trusted: Writer::write_slice, and write_to of u8, u16, u32 and pairs, have the contracts which the units `collections` and `write` prove
//@ include sink.rs
//@ include derived.rs
verus! {

pub trait WriterSlices<C: Context>: Writer<C> {
    /// Proved in the unit `collections`.
    #[verifier::external_body]
    fn write_slice<T: Writable<C>>(&mut self, slice: &[T]) -> (r: Result<(), C::Error>)
        ensures wrote::<Self>(old(self), final(self), r is Ok, encs::<T>(slice@, old(self).order()), all_fit::<T>(slice@))
    { loop {} }
}
impl<C: Context, W: ?Sized + Writer<C>> WriterSlices<C> for W {}

/// Proved in the unit `write`.
macro_rules! writables {
    ($([$($g:tt)*] $t:ty;)*) => { verus! { $(
        impl<C: Context $($g)*> Writable<C> for $t {
            #[verifier::external_body]
            fn write_to<W__: ?Sized + Writer<C>>(&self, writer: &mut W__) -> (r: Result<(), C::Error>) { loop {} }
            #[verifier::external_body]
            fn bytes_needed(&self) -> (r: Result<usize, C::Error>) { loop {} }
        }
    )* } };
}
writables! { [] u8; [] u16; [] u32; [, T: Writable<C>] (u16, T); }

pub mod speedy {
    pub use super::{Context, Writable, Writer};
    pub mod private {
        pub(crate) use super::super::{write_length_u7, write_length_u8, write_length_u16, write_length_u32, write_length_u64, are_lengths_the_same, error_length_is_not_the_same_as_length_attribute};
    }
}
#[verifier::external_body]
pub fn error_length_is_not_the_same_as_length_attribute<E: From<Error>>(field_name: &str) -> (r: E) ensures !r.end() { loop {} }

pub trait IntoLength: Sized { spec fn length(self) -> usize; fn into_length(self) -> (r: usize) ensures r == self.length(); }
impl IntoLength for usize {
    open spec fn length(self) -> usize { self as usize }
//@ fn src/private.rs impl IntoLength for usize / fn into_length
//@ end
}
impl IntoLength for u32 {
    open spec fn length(self) -> usize { self as usize }
//@ fn src/private.rs impl IntoLength for u32 / fn into_length
//@ end
}
impl IntoLength for u16 {
    open spec fn length(self) -> usize { self as usize }
//@ fn src/private.rs impl IntoLength for u16 / fn into_length
//@ end
}
impl IntoLength for u8 {
    open spec fn length(self) -> usize { self as usize }
//@ fn src/private.rs impl IntoLength for u8 / fn into_length
//@ end
}
impl<'a, T: IntoLength + Copy> IntoLength for &'a T {
    open spec fn length(self) -> usize { (*self).length() }
//@ fn src/private.rs impl< 'a, T > IntoLength for &'a T / fn into_length
//@ end
}
//@ fn src/private.rs fn are_lengths_the_same
//@   returns r
//@   sub rhs : impl IntoLength ==> rhs : impl IntoLength
//@   spec
    ensures r == (lhs == rhs.length())
//@ end

impl<T: Writable<C_>, U: Writable<C_>, V: Writable<C_>, C_: Context> Writable<C_> for Named<T, U, V> {
//@ fn @zoo impl<T, U, V, C_: speedy::Context> speedy::Writable<C_> for Named<T, U, V> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, U: Writable<C_>, C_: Context> Writable<C_> for Unnamed<T, U> {
//@ fn @zoo impl<T, U, C_: speedy::Context> speedy::Writable<C_> for Unnamed<T, U> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<C_: Context> Writable<C_> for Unit {
//@ fn @zoo impl<C_: speedy::Context> speedy::Writable<C_> for Unit / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Known<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Known<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for KnownOption<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for KnownOption<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for KnownText<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for KnownText<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Lengths<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Lengths<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Lengths3<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Lengths3<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Lengths2<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Lengths2<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<C_: Context> Writable<C_> for Texts {
//@ fn @zoo impl<C_: speedy::Context> speedy::Writable<C_> for Texts / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Measured<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Measured<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Skips<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Skips<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Optional<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Optional<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<C_: Context> Writable<C_> for OptionalText {
//@ fn @zoo impl<C_: speedy::Context> speedy::Writable<C_> for OptionalText / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Tagged<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Tagged<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Tagged7<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Tagged7<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Tagged8<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Tagged8<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Tagged16<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Tagged16<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Tagged64<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Tagged64<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<C_: Context> Writable<C_> for Discriminants {
//@ fn @zoo impl<C_: speedy::Context> speedy::Writable<C_> for Discriminants / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
impl<T: Writable<C_>, C_: Context> Writable<C_> for Missing<T> {
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Missing<T> / fn write_to
//@   parameter W__
//@ end
    #[verifier::external_body]
    fn bytes_needed(&self) -> (r: Result<usize, C_::Error>) { loop {} }
}
/// The tag is that of the payload, which is not looked at.
pub trait WritablePayload<C: Context>: Encoding {
    spec fn payload_fits(&self) -> bool;
    fn write_to<W__: ?Sized + Writer<C>>(&self, writer: &mut W__) -> (r: Result<(), C::Error>)
        ensures wrote::<W__>(old(writer), final(writer), r is Ok, self.enc(old(writer).order()), self.payload_fits());
}
impl<T: Writable<C_>, C_: Context> WritablePayload<C_> for Peeked<T> {
    open spec fn payload_fits(&self) -> bool { match *self { Peeked::A(x, y) => y.fits(), _ => true } }
//@ fn @zoo impl<T, C_: speedy::Context> speedy::Writable<C_> for Peeked<T> / fn write_to
//@   parameter W__
//@ end
}

}
fn main() {}
