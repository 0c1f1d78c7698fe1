//! C15: I/O errors are reported and every sink receives the same bytes.

use crate::ctx::*;
use crate::derived::*;
use crate::io::*;
use crate::nd;
use crate::stubs::io_error;
use crate::util::*;
use speedy::private::{get_error_kind, ErrorKind};
use speedy::{Endianness, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::io;

/// A sink which accepts the bytes in pieces: bit `i` of `splits` ends a piece after byte `i`, bit `i` of `interrupts`
/// interrupts the first write at byte `i`; it fails with `error` (or accepts nothing more) at byte `fail`.
struct Pieced<const N: usize> {
    d: [u8; N],
    n: usize,
    splits: u32,
    interrupts: u32,
    fail: usize,
    error: Option<io::ErrorKind>,
}

impl<const N: usize> Pieced<N> {
    fn new(splits: u32, interrupts: u32, fail: usize, error: Option<io::ErrorKind>) -> Self {
        Pieced { d: [0; N], n: 0, splits, interrupts, fail, error }
    }
}

impl<const N: usize> io::Write for Pieced<N> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if (self.interrupts >> self.n) & 1 == 1 {
            self.interrupts &= !(1 << self.n);
            return Err(io_error(io::ErrorKind::Interrupted));
        }
        let mut n = 0;
        while n < buf.len() && self.n < self.fail {
            self.d[self.n] = buf[n];
            n += 1;
            self.n += 1;
            if (self.splits >> (self.n - 1)) & 1 == 1 {
                return Ok(n);
            }
        }
        if n == 0 && buf.len() > 0 {
            if let Some(kind) = self.error {
                return Err(io_error(kind));
            }
        }
        Ok(n)
    }

    /// As documented by the standard library (whose own implementation is a loop over `write`).
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        let mut i = 0;
        while i < buf.len() {
            if self.n >= self.fail {
                return Err(io_error(self.error.unwrap_or(io::ErrorKind::WriteZero)));
            }
            self.d[self.n] = buf[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const PIECES: &[(u32, u32)] = &[(0, 0), (!0, 0), (0b10010010, 0b101), (0b0100, !0)];

/// Whatever the pieces are, the sink receives the bytes.
#[inline(always)]
fn sink<const N: usize, T: Gen + Writable<Ctx> + Writable<IoCtx>>(shape: usize, e: Endianness) {
    let v = T::gen(shape);
    let mut expected = Dst::<N>::new(e);
    assert!(expected.write_value(&v).is_ok());
    let mut i = 0;
    while i < PIECES.len() {
        let mut sink = Pieced::<N>::new(PIECES[i].0, PIECES[i].1, N, None);
        match v.write_to_stream_with_ctx(IoCtx(e), &mut sink) {
            Ok(()) => {
                assert!(sink.n == expected.n, "C15: a sink receives exactly the bytes");
                assert_same_bytes!(sink.d, expected.d, N, "C15: a sink receives exactly the bytes");
            }
            Err(_) => panic!("C15: writing fails only if the sink does"),
        }
        i += 1;
    }
}

/// The sink fails at every position.
#[inline(always)]
fn failing_sink<const N: usize, T: Gen + Writable<Ctx> + Writable<IoCtx>>(shape: usize, e: Endianness) {
    let v = T::gen(shape);
    let mut expected = Dst::<N>::new(e);
    assert!(expected.write_value(&v).is_ok());
    let kind = if nd::any() { Some(io::ErrorKind::BrokenPipe) } else if nd::any() { Some(io::ErrorKind::UnexpectedEof) } else { None };
    let mut fail = 0;
    while fail < expected.n {
        let mut sink = Pieced::<N>::new(if fail % 2 == 0 { !0 } else { 0 }, 0, fail, kind);
        match v.write_to_stream_with_ctx(IoCtx(e), &mut sink) {
            Ok(()) => panic!("C15: an error of the sink is returned"),
            Err(error) => {
                assert!(error.0.kind == if kind == Some(io::ErrorKind::UnexpectedEof) { Kind::IoEof } else { Kind::Io }, "C15: the error of the sink is returned");
                assert!(sink.n <= fail);
                assert_same_bytes!(sink.d, expected.d, sink.n, "C15: what the sink received is the beginning of the bytes");
            }
        }
        fail += 1;
    }
}

/// A stream which fails after `fail` bytes.
struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    piece: usize,
    kind: io::ErrorKind,
}

impl<'a> io::Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = 0;
        while n < buf.len() && n < self.piece && self.pos < self.data.len() {
            buf[n] = self.data[self.pos];
            n += 1;
            self.pos += 1;
        }
        if n == 0 && buf.len() > 0 {
            return Err(io_error(self.kind));
        }
        Ok(n)
    }

    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let mut i = 0;
        while i < buf.len() {
            if self.pos == self.data.len() {
                return Err(io_error(self.kind));
            }
            buf[i] = self.data[self.pos];
            self.pos += 1;
            i += 1;
        }
        Ok(())
    }
}

fn kind() -> io::ErrorKind {
    match nd::any::<u8>() {
        0 => io::ErrorKind::NotFound,
        1 => io::ErrorKind::PermissionDenied,
        2 => io::ErrorKind::ConnectionReset,
        3 => io::ErrorKind::WouldBlock,
        4 => io::ErrorKind::InvalidData,
        5 => io::ErrorKind::TimedOut,
        6 => io::ErrorKind::BrokenPipe,
        7 => io::ErrorKind::WriteZero,
        8 => io::ErrorKind::OutOfMemory,
        9 => io::ErrorKind::Other,
        _ => io::ErrorKind::UnexpectedEof,
    }
}

#[inline(always)]
fn failed<T>(result: &Result<T, IoE>, kind: io::ErrorKind) {
    match result {
        Ok(_) => panic!("C15: an error of the stream never yields a value"),
        Err(error) => {
            let eof = kind == io::ErrorKind::UnexpectedEof;
            assert!(error.0.kind == if eof { Kind::IoEof } else { Kind::Io }, "C15: the error of the stream is returned");
            assert!(error.is_eof() == eof, "C15: an error is an end of input exactly if it is one");
        }
    }
}

/// The stream fails at every position within the value, which consists of `N` bytes.
#[inline(always)]
fn failing_stream<const BUFFERED: bool, const N: usize, T: Readable<'static, IoCtx>>(prefix: &[u8]) {
    failing_stream_from::<BUFFERED, N, T>(prefix, 0)
}

#[inline(always)]
fn failing_stream_from<const BUFFERED: bool, const N: usize, T: Readable<'static, IoCtx>>(prefix: &[u8], first: usize) {
    let kind = kind();
    let e = Endianness::LittleEndian;
    let mut data: [u8; N] = nd::any();
    let mut i = 0;
    while i < prefix.len() {
        data[i] = prefix[i];
        i += 1;
    }
    let mut fail = first;
    while fail < N {
        let stream = Failing { data: nd::forever(&data[..fail]), pos: 0, piece: if fail % 2 == 0 { 1 } else { N }, kind };
        let result = if BUFFERED { T::read_from_stream_buffered_with_ctx(IoCtx(e), stream) } else { T::read_from_stream_unbuffered_with_ctx(IoCtx(e), stream) };
        failed(&result, kind);
        std::mem::forget(result);
        fail += 1;
    }
}

#[derive(Readable)]
pub struct Late {
    pub a: u8,
    #[speedy(default_on_eof)]
    pub b: u16,
}

type Peeked = (u16, u8);
probe!(io Peek(Peeked) |r| { let p = r.peek_u16()?; (p, r.read_u8()?) });
type Bytes = [u8; 3];
probe!(io ReadBytes(Bytes) |r| { let mut b = [0; 3]; r.read_bytes(&mut b)?; b });
probe!(io Skip(u8) |r| { r.skip_bytes(2)?; r.read_u8()? });
type Rest = Vec<u8>;
probe!(io UntilEof(Rest) |r| r.read_vec_until_eof::<u8>()?);

harnesses! {
    [20] sink_integers { sink::<4, u32>(0, nd::endianness()); sink::<8, u64>(0, nd::endianness()); sink::<1, bool>(0, nd::endianness()) }
    #[bounded]
    [20] sink_pair { sink::<8, (u16, u8)>(0, Endianness::LittleEndian); sink::<8, (u16, u8)>(0, Endianness::BigEndian) }
    #[bounded]
    [20] sink_vec { sink::<8, Vec<u16>>(2, Endianness::LittleEndian); sink::<8, Vec<u16>>(2, Endianness::BigEndian) }
    #[bounded]
    [20] sink_string { sink::<8, String>(3, Endianness::LittleEndian) }
    #[bounded]
    [20] sink_derived { sink::<8, Pair>(0, Endianness::LittleEndian); sink::<8, Plain>(0, Endianness::BigEndian) }
    #[bounded]
    [20] sink_option { sink::<8, Option<u32>>(1, Endianness::BigEndian); sink::<8, Option<u32>>(0, Endianness::BigEndian) }

    #[io]
    [20] failing_sink_integers { failing_sink::<4, u32>(0, nd::endianness()); failing_sink::<1, u8>(0, nd::endianness()) }
    #[io]
    [20] failing_sink_pair { failing_sink::<3, (u16, u8)>(0, Endianness::LittleEndian) }
    #[bounded]
    #[io]
    [20] failing_sink_vec { failing_sink::<6, Vec<u16>>(1, Endianness::LittleEndian) }
    #[bounded]
    #[io]
    [20] failing_sink_vec_swapped { failing_sink::<6, Vec<u16>>(1, Endianness::BigEndian) }
    #[bounded]
    #[io]
    [20] failing_sink_array { failing_sink::<4, [u16; 2]>(0, Endianness::BigEndian) }
    #[bounded]
    #[io]
    [20] failing_sink_string { failing_sink::<6, String>(1, Endianness::BigEndian) }
    #[bounded]
    #[io]
    [20] failing_sink_derived { failing_sink::<8, Pair>(0, Endianness::LittleEndian); failing_sink::<4, Plain>(0, Endianness::BigEndian) }
    #[bounded]
    #[io]
    [20] failing_sink_option { failing_sink::<5, Option<u32>>(1, Endianness::BigEndian) }

    #[io]
    [20] unbuffered_integers { failing_stream::<false, 4, u32>(&[]); failing_stream::<false, 1, u8>(&[]); failing_stream::<false, 8, f64>(&[]) }
    #[io]
    [20] unbuffered_pair { failing_stream::<false, 3, (u16, u8)>(&[]) }
    #[bounded]
    #[io]
    [20] unbuffered_vec { failing_stream::<false, 8, Vec<u16>>(&[2, 0, 0, 0]) }
    #[bounded]
    #[io]
    [20] unbuffered_vec_of_bools { failing_stream_from::<false, 6, Vec<bool>>(&[2, 0, 0, 0], 5) }
    #[bounded]
    #[io]
    [20] unbuffered_option { failing_stream::<false, 3, Option<u16>>(&[1]) }
    #[bounded]
    #[io]
    [20] unbuffered_peek { failing_stream::<false, 2, Peek>(&[]) }
    #[bounded]
    #[io]
    [20] unbuffered_bytes { failing_stream::<false, 3, ReadBytes>(&[]); failing_stream::<false, 3, Skip>(&[]) }

    #[io]
    [20] buffered_integers { failing_stream::<true, 2, u16>(&[]); failing_stream::<true, 1, u8>(&[]) }
    #[io]
    [20] buffered_pair { failing_stream::<true, 3, (u16, u8)>(&[]) }
    #[bounded]
    #[io]
    [20] buffered_option { failing_stream::<true, 3, Option<u16>>(&[1]) }
    #[bounded]
    #[io]
    [20] buffered_peek { failing_stream::<true, 2, Peek>(&[]) }
    #[bounded]
    #[io]
    [20] buffered_bytes { failing_stream::<true, 3, ReadBytes>(&[]) }
    #[bounded]
    #[io]
    [20] buffered_skip { failing_stream::<true, 3, Skip>(&[]) }

    // Only the end of the input is replaced by a default.
    #[bounded]
    #[io]
    [20] defaults {
        let data: [u8; 2] = nd::any();
        let kind = kind();
        for n in [1, 2] {
            let stream = Failing { data: nd::forever(&data[..n]), pos: 0, piece: 1, kind };
            let result = Late::read_from_stream_unbuffered_with_ctx(IoCtx(Endianness::LittleEndian), stream);
            if kind == io::ErrorKind::UnexpectedEof {
                match result {
                    Ok(v) => assert!(v.a == data[0] && v.b == 0, "C15: the end of the input is recognized"),
                    Err(_) => panic!("C15: the end of the input is recognized"),
                }
            } else {
                failed(&result, kind);
            }
        }
    }
    #[bounded]
    #[io]
    [20] until_eof {
        let data: [u8; 2] = nd::any();
        let kind = kind();
        let stream = Failing { data: nd::forever(&data[..]), pos: 0, piece: 1, kind };
        let result = UntilEof::read_from_stream_unbuffered_with_ctx(IoCtx(Endianness::LittleEndian), stream);
        if kind == io::ErrorKind::UnexpectedEof {
            match &result {
                Ok(v) => assert!(v.0.len() == 2 && v.0[0] == data[0] && v.0[1] == data[1], "C15: the end of the input is recognized"),
                Err(_) => panic!("C15: the end of the input is recognized"),
            }
        } else {
            failed(&result, kind);
        }
        std::mem::forget(result);
    }
}

/// Errors as such.
pub mod errors {
    use super::*;

    /// Reports a size which it does not keep to.
    struct Lies;
    impl<C: speedy::Context> Writable<C> for Lies {
        fn write_to<W: ?Sized + Writer<C>>(&self, writer: &mut W) -> Result<(), C::Error> {
            writer.write_u16(1)
        }
        fn bytes_needed(&self) -> Result<usize, C::Error> {
            Ok(1)
        }
    }
    struct Two;
    impl<'a, C: speedy::Context> Readable<'a, C> for Two {
        fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
            reader.read_u16()?;
            Ok(Two)
        }
    }

    fn error<T>(result: Result<T, speedy::Error>) -> speedy::Error {
        match result {
            Ok(_) => panic!("C15: there is an error"),
            Err(error) => error,
        }
    }

    #[inline(always)]
    fn converts(error: speedy::Error, eof: bool) {
        assert!(error.is_eof() == eof, "C15: an error is an end of input exactly if it is one");
        let error: io::Error = error.into();
        assert!((error.kind() == io::ErrorKind::UnexpectedEof) == eof, "C15: an end of input stays one as an I/O error");
        std::mem::forget(error);
    }

    harnesses! {
        #[native]
        [8] ends {
            converts(error(Two::read_from_buffer_with_ctx(LittleEndian {}, &[1])), true);
            converts(error(Lies.write_to_buffer_with_ctx(LittleEndian {}, &mut [0, 0])), true);
        }
        #[native]
        [8] others {
            converts(speedy::private::error_out_of_range_length(), false);
            converts(speedy::private::error_invalid_enum_variant(), false);
            converts(speedy::private::error_unsized(), false);
            converts(speedy::private::error_endianness_mismatch(), false);
            converts(speedy::private::error_unaligned_input(), false);
            converts(speedy::private::error_length_is_not_the_same_as_length_attribute("x"), false);
        }
        #[native]
        [8] values {
            converts(error(char::read_from_buffer_with_ctx(LittleEndian {}, &[0xff; 4])), false);
            converts(error(std::num::NonZeroU8::read_from_buffer_with_ctx(LittleEndian {}, &[0])), false);
            converts(error(std::time::SystemTime::read_from_buffer_with_ctx(LittleEndian {}, &[0xff; 12])), false);
            converts(error(String::read_from_buffer_with_ctx(LittleEndian {}, &[1, 0, 0, 0, 0xff])), false);
        }
        #[native]
        [8] sizes {
            converts(error(u32::read_from_buffer_with_ctx(LittleEndian {}, &[1])), false);
            converts(error(1u32.write_to_buffer_with_ctx(LittleEndian {}, &mut [0, 0])), false);
        }
        #[native]
        [8] streams {
            for kind in [io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionReset, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidData, io::ErrorKind::TimedOut, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero, io::ErrorKind::OutOfMemory, io::ErrorKind::Other, io::ErrorKind::UnexpectedEof] {
            let result = u8::read_from_stream_unbuffered_with_ctx(LittleEndian {}, Failing { data: &[], pos: 0, piece: 1, kind });
            let e = error(result);
            assert!(matches!(get_error_kind(&e), ErrorKind::IoError(_)), "C15: the error of the stream is returned");
            assert!(e.is_eof() == (kind == io::ErrorKind::UnexpectedEof), "C15: an error is an end of input exactly if it is one");
            let e: io::Error = e.into();
            assert!(e.kind() == kind, "C15: an I/O error converts back into itself");
            }
        }
    }
}

/// Real files; executed, not verified: Kani has no model of the file system.
pub mod files {
    use super::*;

    #[cfg(not(kani))]
    fn scratch() -> std::path::PathBuf {
        let path = std::env::temp_dir().join(format!("speedy-verif-{}-{:?}", std::process::id(), std::thread::current().id()));
        std::fs::create_dir_all(&path).unwrap();
        path
    }

    #[cfg(not(kani))]
    fn written<T: Writable<LittleEndian> + for<'a> Readable<'a, LittleEndian>>(folder: &std::path::Path, value: &T) {
        let expected = value.write_to_vec().unwrap();
        let path = folder.join("file");
        std::fs::write(&path, &[0xAA; 100000][..]).unwrap();
        value.write_to_file(&path).unwrap();
        assert!(std::fs::read(&path).unwrap() == expected, "C15: a file receives exactly the bytes");
        let read = T::read_from_file(&path).unwrap();
        assert!(read.write_to_vec().unwrap() == expected, "C15: reading a file gives the value");
        if expected.len() > 0 {
            std::fs::write(&path, &expected[..expected.len() - 1]).unwrap();
            assert!(T::read_from_file(&path).is_err(), "C15: an incomplete file never yields a value");
        }
        let mut sink = Vec::new();
        value.write_to_stream(&mut sink).unwrap();
        assert!(sink == expected, "C15: a stream receives exactly the bytes");
    }

    #[cfg(not(kani))]
    fn full(value: &impl Writable<LittleEndian>) {
        match value.write_to_file("/dev/full") {
            Ok(()) => panic!("C15: an error of a file is returned"),
            Err(error) => {
                let error: io::Error = error.into();
                assert!(error.raw_os_error() == Some(28), "C15: the error of a file is returned");
            }
        }
    }

    harnesses! {
        #[native]
        [1] sizes {
            let folder = scratch();
            for n in [0, 1, 5, 4095, 8187, 8188, 8189, 8192, 8193, 20000, 90000] {
                written(&folder, &vec![n as u8; n]);
                written(&folder, &(7u16, (0..n as u64 / 8).collect::<Vec<_>>(), "x".repeat(n)));
            }
            written(&folder, &());
            written(&folder, &(1u8, 2u32, Some(3i64)));
            std::fs::remove_dir_all(&folder).unwrap();
        }
        #[native]
        [1] failures {
            full(&1u8);
            full(&vec![1u8; 5]);
            full(&vec![1u64; 1024]);
            full(&vec![1u8; 100000]);
            let folder = scratch();
            let missing = folder.join("missing").join("file");
            let error: io::Error = 1u8.write_to_file(&missing).err().expect("C15: an error of a file is returned").into();
            assert!(error.kind() == io::ErrorKind::NotFound, "C15: the error of a file is returned");
            let error: io::Error = u8::read_from_file(&missing).err().expect("C15: an error of a file is returned").into();
            assert!(error.kind() == io::ErrorKind::NotFound, "C15: the error of a file is returned");
            assert!(matches!(u8::read_from_file(&folder), Err(error) if matches!(get_error_kind(&error), ErrorKind::IoError(_))), "C15: the error of a file is returned");
            std::fs::remove_dir_all(&folder).unwrap();
        }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c15);
}

/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept_zoo {
    for_swept_zoo!(c15);
}
