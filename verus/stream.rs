//! trusted: Vec::{new, with_capacity, reserve, reserve_exact, capacity, set_len, into_boxed_slice} and indexing by ranges have the contracts of verus/prelude.rs; allocation succeeds; memory never holds more than isize::MAX bytes
//! trusted: std::io::Read::{read, read_exact} of the caller's stream behave as documented (verus/stream.rs, trait Read): a read which fails takes nothing, reports no more bytes than it was given room for, and returns 0 only at the end; a user's conversion of errors keeps whether they are an end of input
//! trusted: a stream which is interrupted forever is out of scope (termination of read_uninterrupted)
//@ include prelude.rs
//@ include ring_spec.rs
//@ include ring_functions.rs
verus! {

mod std {
    pub use ::std::*;
    pub mod io {
        use vstd::prelude::*;
        pub enum ErrorKind { Interrupted, UnexpectedEof, Other }
        impl PartialEq for ErrorKind {
            fn eq(&self, other: &Self) -> bool {
                match (self, other) {
                    (ErrorKind::Interrupted, ErrorKind::Interrupted) => true,
                    (ErrorKind::UnexpectedEof, ErrorKind::UnexpectedEof) => true,
                    (ErrorKind::Other, ErrorKind::Other) => true,
                    _ => false,
                }
            }
        }
        impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
        }
        impl Copy for ErrorKind {}
        impl Clone for ErrorKind { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
        pub struct Error { pub k: ErrorKind }
        impl Error {
            pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
        }
        pub type Result<T> = ::core::result::Result<T, Error>;
    }
}

/// The caller's stream.
pub trait Read: Sized {
    /// What the stream will still hand out.
    spec fn rest(&self) -> Seq<u8>;
    /// Whether the stream ever fails (other than by being interrupted).
    spec fn fails(&self) -> bool;

    fn read(&mut self, buffer: &mut [u8]) -> (r: std::io::Result<usize>)
        ensures
            final(self).fails() == old(self).fails(),
            final(buffer)@.len() == old(buffer)@.len(),
            r is Err ==> final(self).rest() == old(self).rest() && (old(self).fails() || r->Err_0.k == std::io::ErrorKind::Interrupted),
            r is Ok ==> {
                &&& r->Ok_0 <= old(buffer)@.len()
                &&& r->Ok_0 <= old(self).rest().len()
                &&& final(buffer)@.subrange(0, r->Ok_0 as int) =~= old(self).rest().subrange(0, r->Ok_0 as int)
                &&& final(self).rest() == old(self).rest().subrange(r->Ok_0 as int, old(self).rest().len() as int)
                &&& r->Ok_0 == 0 && old(buffer)@.len() > 0 ==> old(self).rest().len() == 0
            };

    fn read_exact(&mut self, buffer: &mut [u8]) -> (r: std::io::Result<()>)
        ensures
            final(self).fails() == old(self).fails(),
            final(buffer)@.len() == old(buffer)@.len(),
            r is Ok ==> {
                &&& old(buffer)@.len() <= old(self).rest().len()
                &&& final(buffer)@ =~= old(self).rest().subrange(0, old(buffer)@.len() as int)
                &&& final(self).rest() == old(self).rest().subrange(old(buffer)@.len() as int, old(self).rest().len() as int)
            },
            r is Err ==> old(self).fails() || r->Err_0.k == std::io::ErrorKind::UnexpectedEof && old(self).rest().len() < old(buffer)@.len();
}

pub trait IsEof { spec fn end(&self) -> bool; }

pub trait From<T: IsEof>: Sized + IsEof {
    fn from(value: T) -> (r: Self) ensures r.end() == value.end();
}

pub struct Error { pub eof: bool }
impl IsEof for Error { open spec fn end(&self) -> bool { self.eof } }
impl Error {
    /// Proved by C15: an I/O error is an end of input exactly if its kind says so.
    #[verifier::external_body]
    pub fn from_io_error(error: std::io::Error) -> (r: Error) ensures r.end() == (error.k == std::io::ErrorKind::UnexpectedEof) { loop {} }
}
/// Proved by C15.
#[verifier::external_body]
pub fn error_end_of_input<E>() -> (r: E) where E: From<Error> ensures r.end() { loop {} }

pub trait Context { type Error: From<Error>; }

#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@ fn src/readable.rs fn read_uninterrupted
//@   returns r
//@   sub impl Read ==> impl Read
//@   spec
    ensures
        final(reader).fails() == old(reader).fails(),
        final(buffer)@.len() == old(buffer)@.len(),
        r is Err ==> old(reader).fails() && final(reader).rest() == old(reader).rest(),
        r is Ok ==> {
            &&& r->Ok_0 <= old(buffer)@.len()
            &&& r->Ok_0 <= old(reader).rest().len()
            &&& final(buffer)@.subrange(0, r->Ok_0 as int) =~= old(reader).rest().subrange(0, r->Ok_0 as int)
            &&& final(reader).rest() == old(reader).rest().subrange(r->Ok_0 as int, old(reader).rest().len() as int)
            &&& r->Ok_0 == 0 && old(buffer)@.len() > 0 ==> old(reader).rest().len() == 0
        }
//@   loop 0
    invariant
        reader.fails() == old(reader).fails(), reader.rest() == old(reader).rest(), buffer@.len() == old(buffer)@.len(),
//@ end

impl CircularBuffer {

// try_append_with, applied to the one closure with which it is used.
//@ fn src/circular_buffer.rs impl CircularBuffer / fn try_append_with
//@   as try_append_from
//@   returns r
//@   sub < E > ==> < S: Read >
//@   sub callback: impl FnOnce( &mut [u8] ) -> Result< usize, E > ==> reader: &mut S
//@   sub Result< usize, E > ==> std::io::Result< usize >
//@   sub callback( &mut self.buffer[ range ] ) ==> read_uninterrupted( reader, &mut self.buffer[ range ] )
//@   spec
    requires old(self).wf(), old(self)@.len() + size <= isize::MAX
    ensures
        final(self).wf(),
        final(self).cap() >= old(self)@.len() + size,
        old(self).cap() >= old(self)@.len() + size ==> final(self).cap() == old(self).cap(),
        final(reader).fails() == old(reader).fails(),
        r is Err ==> old(reader).fails() && final(self)@ == old(self)@ && final(reader).rest() == old(reader).rest(),
        r is Ok ==> {
            &&& r->Ok_0 <= size
            &&& final(self)@.len() == old(self)@.len() + r->Ok_0
            &&& old(reader).rest().len() == final(reader).rest().len() + r->Ok_0
            &&& final(self)@ =~= old(self)@ + old(reader).rest().subrange(0, r->Ok_0 as int)
            &&& final(reader).rest() =~= old(reader).rest().subrange(r->Ok_0 as int, old(reader).rest().len() as int)
            &&& r->Ok_0 == 0 && size > 0 ==> old(reader).rest().len() == 0
        }
//@ end

}

//@ item src/readable.rs struct StreamReader

impl<C: Context, S: Read> StreamReader<C, S> {
    pub closed spec fn wf(&self) -> bool {
        self.buffer.wf()
    }

    /// What the reader will still hand out.
    pub closed spec fn view(&self) -> Seq<u8> {
        self.buffer@ + self.reader.rest()
    }

    /// What was taken from the stream, but not handed out.
    pub closed spec fn held(&self) -> nat { self.buffer@.len() }

    pub closed spec fn fails(&self) -> bool { self.reader.fails() }
    pub closed spec fn buffering(&self) -> bool { self.is_buffering }
    pub closed spec fn capacity(&self) -> nat { self.buffer.cap() }

    pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }

#[verifier::loop_isolation(false)]
//@ fn src/readable.rs impl<'a, C, S> StreamReader<C, S> / fn read_bytes_slow
//@   returns r
//@   sub .try_append_with( ==> .try_append_from(
//@   sub |chunk| { read_uninterrupted( reader, chunk ) } ==> reader
//@   spec
    requires old(self).wf(), old(self).held() < old(output)@.len() || old(output)@.len() == 0
    ensures
        final(self).wf(),
        final(output)@.len() == old(output)@.len(),
        final(self).buffering() == old(self).buffering(),
        r is Ok ==> {
            &&& old(self)@ =~= final(output)@ + final(self)@
            &&& !old(self).buffering() ==> final(self).held() == Self::max(0, old(self).held() - old(output)@.len())
        },
        r is Err && !old(self).fails() ==> old(self)@.len() < old(output)@.len() && r->Err_0.end()
//@   loop 0
    invariant
        self.buffer.wf(),
        self.buffer.cap() == old(self).buffer.cap(),
        output@.len() == old(output)@.len(),
        output@.len() < self.buffer.cap(),
        self.is_buffering == old(self).is_buffering,
        self.is_buffering,
        reader.fails() == old(self).fails(),
        self.buffer@ + reader.rest() =~= old(self)@,
    decreases self.buffer.cap() - self.buffer@.len()
//@ end

//@ fn src/readable.rs impl<'a, C: Context, S: Read> Reader<'a, C> for StreamReader<C, S> / fn read_bytes
//@   returns r
//@   spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        final(output)@.len() == old(output)@.len(),
        final(self).buffering() == old(self).buffering(),
        r is Ok ==> {
            &&& old(self)@ =~= final(output)@ + final(self)@
            &&& !old(self).buffering() ==> final(self).held() == Self::max(0, old(self).held() - old(output)@.len())
        },
        r is Err && !old(self).fails() ==> old(self)@.len() < old(output)@.len() && r->Err_0.end()
//@ end

#[verifier::loop_isolation(false)]
//@ fn src/readable.rs impl<'a, C: Context, S: Read> Reader<'a, C> for StreamReader<C, S> / fn peek_bytes
//@   returns r
//@   sub .try_append_with( ==> .try_append_from(
//@   sub |chunk| { read_uninterrupted( reader, chunk ) } ==> reader
//@   spec
    requires old(self).wf(), old(output)@.len() <= isize::MAX
    ensures
        final(self).wf(),
        final(output)@.len() == old(output)@.len(),
        final(self).buffering() == old(self).buffering(),
        // Nothing is consumed.
        final(self)@ =~= old(self)@,
        r is Ok ==> {
            &&& old(output)@.len() <= old(self)@.len()
            &&& final(output)@ =~= old(self)@.subrange(0, old(output)@.len() as int)
        },
        !old(self).buffering() ==> final(self).held() <= Self::max(old(self).held() as int, old(output)@.len() as int),
        r is Err && !old(self).fails() ==> old(self)@.len() < old(output)@.len() && r->Err_0.end()
//@   loop 0
    invariant
        self.buffer.wf(),
        output@.len() == old(output)@.len(),
        output@.len() <= isize::MAX,
        self.is_buffering == old(self).is_buffering,
        reader.fails() == old(self).fails(),
        self.buffer@ + reader.rest() =~= old(self)@,
        !self.is_buffering ==> self.buffer@.len() <= output@.len(),
    decreases Self::max(0, output@.len() - self.buffer@.len())
//@ end

}

}
fn main() {}
