//! C08: decoding from a stream equals decoding from memory, for every chunking.
//!
//! Here: every type, through the contract of `Reader`, whether the reader is an in-memory one or a stream (the model
//! is `Src`). `reader`: `StreamReader` fulfills that contract, for every chunking and interruption, from any state of
//! its buffer (proved without bounds by the Verus unit `stream`). `api`: both together, through the public functions.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::types::*;
use crate::util::*;
use speedy::{Context, Endianness, IsEof, Readable, Reader, Writable};
use std::io;

#[inline(always)]
pub fn decode<const N: usize, T: Same + Readable<'static, Ctx>>(e: Endianness, data: [u8; N], n: usize) {
    let input = nd::forever(&data[..n]);
    let mut memory = Src::<BORROWING>::new(e, input);
    let a = T::read_from(&mut memory);
    let mut stream = Src::<STREAM>::new(e, input);
    let b = T::read_from(&mut stream);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            assert!(a.same(b), "C08: a stream results in the same value as memory");
            assert!(stream.pos == memory.pos, "C08: exactly the bytes of the value are taken from the stream");
        }
        (Err(_), Err(_)) => {}
        _ => panic!("C08: decoding from a stream succeeds exactly if it does from memory"),
    }
    if b.is_err() && n < N {
        // What would be decoded from the whole input.
        let mut whole = Src::<STREAM>::new(e, nd::forever(&data[..]));
        let c = T::read_from(&mut whole);
        if c.is_ok() {
            match &b {
                Err(error) => assert!(error.eof, "C08: a stream which ends too early results in an end-of-input error"),
                Ok(_) => {}
            }
        }
        std::mem::forget(c);
    }
    std::mem::forget((a, b));
}

for_inputs! { |i: usize| [if i % 2 == 0 { Endianness::LittleEndian } else { Endianness::BigEndian }] }

/// How a stream hands its data out: where chunks end, and where it is interrupted.
const CHUNKINGS: &[(u32, u32)] = &[(0, 0), (!0, 0), (0b1001_0010, 0b0000_0101), (0b0110_0100, !0)];

/// The real stream reader, with a small buffer in a given state.
#[cfg(speedy_verification)]
pub mod reader {
    use super::*;
    use speedy::private::{verification_read_from_stream, CircularBuffer};

    /// The operations which the probe runs, until the first one fails.
    #[derive(Copy, Clone, PartialEq)]
    pub enum Op {
        Nothing,
        Read(usize),
        Peek(usize),
        Skip(usize),
        Word,
        PeekWord,
    }
    use Op::*;

    const MOST: usize = 12;
    pub const OPS: usize = 3;
    static mut PROGRAM: ([Op; OPS], u64) = ([Nothing; OPS], 0x5EED_0005);

    type Out = [(Result<(), IoE>, [u8; MOST]); OPS];

    probe!(io Run(Out) |r| {
        let mut out: Out = [(Ok(()), [0xAA; MOST]); OPS];
        let mut i = 0;
        while i < OPS {
            let o = &mut out[i].1;
            out[i].0 = match unsafe { PROGRAM.0[i] } {
                Nothing => Ok(()),
                Read(n) => r.read_bytes(&mut o[..n]),
                Peek(n) => r.peek_bytes(&mut o[..n]),
                Skip(n) => r.skip_bytes(n),
                Word => r.read_u16().map(|w| { o[0] = w as u8; o[1] = (w >> 8) as u8; }),
                PeekWord => r.peek_u16().map(|w| { o[0] = w as u8; o[1] = (w >> 8) as u8; }),
            };
            if out[i].0.is_err() {
                break;
            }
            i += 1;
        }
        out
    });

    /// The first `held` bytes of the data are in the reader's buffer (`capacity`, `position`), the rest is in the stream.
    #[derive(Copy, Clone)]
    pub struct State {
        pub capacity: usize,
        pub position: usize,
        pub held: usize,
        pub total: usize,
        pub buffering: bool,
    }

    #[inline(always)]
    pub fn run(s: State, program: [Op; OPS], (splits, interrupts): (u32, u32)) {
        let data: [u8; MOST] = nd::any();
        let mut storage: [u8; 8] = [0x55; 8];
        let mut i = 0;
        while i < s.held {
            storage[(s.position + i) % s.capacity] = data[i];
            i += 1;
        }
        unsafe {
            PROGRAM.0 = program;
        }
        let buffer = CircularBuffer::verification_new(storage[..s.capacity].into(), s.position, s.held);
        let mut stream = Chunked::new(&data[s.held..s.total], splits, interrupts);
        let (result, buffer) = verification_read_from_stream::<IoCtx, _, Run>(IoCtx(Endianness::LittleEndian), &mut stream, buffer, s.buffering);
        let out = match result {
            Ok(run) => run.0,
            Err(_) => panic!("the probe does not fail"),
        };
        let taken = s.held + stream.pos;
        let left = buffer.len();
        std::mem::forget(buffer);
        let mut at = 0;
        let mut reached = s.held;
        let mut failed = false;
        let mut i = 0;
        while i < OPS {
            let (n, advance, shown) = match program[i] {
                Nothing => (0, 0, 0),
                Read(n) => (n, n, n),
                Peek(n) => (n, 0, n),
                Skip(n) => (n, n, 0),
                Word => (2, 2, 2),
                PeekWord => (2, 0, 2),
            };
            if at + n > reached {
                reached = at + n;
            }
            match out[i].0 {
                Ok(()) => {
                    assert!(at + n <= s.total, "C08: no more is read than the stream has");
                    let mut j = 0;
                    while j < MOST {
                        assert!(out[i].1[j] == if j < shown { data[at + j] } else { 0xAA }, "C08: exactly the bytes which come next are read");
                        j += 1;
                    }
                    at += advance;
                }
                Err(error) => {
                    assert!(at + n > s.total, "C08: reading only fails at the end of the stream");
                    assert!(error.is_eof(), "C08: a stream which ends too early results in an end-of-input error");
                    failed = true;
                    break;
                }
            }
            i += 1;
        }
        if !failed {
            assert!(at + left == taken, "C08: what was taken from the stream was either read or is still there");
            assert!(s.buffering || taken == reached, "C08: unbuffered decoding takes exactly what it needs");
        }
    }

    /// Every chunking, from the beginning (`held` is 0) or later.
    #[inline(always)]
    fn unbuffered(total: usize, program: [Op; OPS]) {
        for c in CHUNKINGS {
            run(State { capacity: 0, position: 0, held: 0, total, buffering: false }, program, *c);
        }
    }

    #[inline(always)]
    fn buffered(capacity: usize, position: usize, held: usize, total: usize, program: [Op; OPS]) {
        for c in [CHUNKINGS[0], CHUNKINGS[2]] {
            run(State { capacity, position, held, total, buffering: true }, program, c);
        }
    }

    harnesses! {
        #[bounded] #[io]
        [13] unbuffered_read { unbuffered(6, [Read(2), Read(3), Read(1)]); unbuffered(6, [Read(0), Read(6), Nothing]) }
        #[bounded] #[io]
        [13] unbuffered_end { unbuffered(2, [Read(1), Read(2), Nothing]); unbuffered(0, [Read(1), Nothing, Nothing]) }
        #[bounded] #[io]
        [13] unbuffered_peek { unbuffered(4, [Peek(2), Peek(3), Read(4)]); }
        #[bounded] #[io]
        [13] unbuffered_peek_partly { unbuffered(5, [Peek(3), Read(2), Word]); }
        #[bounded] #[io]
        [13] unbuffered_peek_end { unbuffered(2, [Peek(3), Nothing, Nothing]); unbuffered(1, [PeekWord, Nothing, Nothing]); }
        #[bounded] #[io]
        [13] unbuffered_skip { unbuffered(5, [Skip(2), Peek(1), Word]); unbuffered(1, [Skip(2), Nothing, Nothing]) }
        #[bounded] #[io]
        [13] buffered_read { buffered(3, 0, 0, 5, [Read(1), Read(2), Word]); }
        #[bounded] #[io]
        [13] buffered_read_wrapped { buffered(3, 2, 2, 6, [Read(1), Read(2), Word]); }
        #[bounded] #[io]
        [13] buffered_read_long { buffered(3, 1, 1, 7, [Read(3), Read(4), Nothing]); }
        #[bounded] #[io]
        [13] buffered_read_full { buffered(3, 2, 3, 5, [Read(2), Read(2), Read(1)]); }
        #[bounded] #[io]
        [13] buffered_end { buffered(3, 2, 1, 2, [Read(3), Nothing, Nothing]); buffered(3, 0, 0, 1, [Read(2), Nothing, Nothing]); }
        #[bounded] #[io]
        [13] buffered_end_long { buffered(2, 1, 1, 3, [Read(4), Nothing, Nothing]); }
        #[bounded] #[io]
        [13] buffered_peek { buffered(3, 2, 2, 4, [Peek(3), Peek(1), Read(3)]); }
        #[bounded] #[io]
        [13] buffered_peek_grow { buffered(2, 1, 2, 5, [Peek(3), Read(3), Read(2)]); }
        #[bounded] #[io]
        [13] buffered_peek_end { buffered(3, 1, 1, 2, [Peek(3), Nothing, Nothing]); }
        #[bounded] #[io]
        [13] buffered_skip { buffered(3, 2, 2, 6, [Skip(3), PeekWord, Word]); }
        #[native]
        [0] everything {
            // Every state of small buffers, short stream and pair of operations, for many chunkings.
            let ops = [Nothing, Read(0), Read(1), Read(2), Read(3), Read(5), Peek(0), Peek(1), Peek(2), Peek(4), Skip(1), Skip(3), Word, PeekWord];
            let chunkings = [(0, 0), (!0, 0), (0b1001_0010, 0b101), (0b0110_0100, !0), (0b101, 0b10)];
            let data: Vec<u8> = (0..MOST).map(|i| 0x31 + 7 * i as u8).collect();
            for (capacity, buffering) in [(0, false), (1, true), (2, true), (3, true), (4, true), (8, false)] {
                for position in 0..std::cmp::max(1, std::cmp::min(capacity, 4)) {
                    for held in 0..=std::cmp::min(capacity, 3) {
                        for total in held..=std::cmp::min(held + 5, 7) {
                            for a in ops {
                                for b in ops {
                                    for c in [Nothing, Read(2), Peek(1)] {
                                        for chunking in chunkings {
                                            nd::replay(&data);
                                            run(State { capacity, position, held, total, buffering }, [a, b, c], chunking);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

#[cfg(not(speedy_verification))]
none_of! { reader }

/// The public functions, on encodings of all lengths.
pub mod api {
    use super::*;

    /// From the buffer and from both kinds of stream.
    #[inline(always)]
    fn both<const N: usize, T: Same + Readable<'static, IoCtx>>(e: Endianness, data: [u8; N], n: usize, chunkings: &[(u32, u32)]) {
        let (expected, length) = T::read_with_length_from_buffer_with_ctx(IoCtx(e), nd::forever(&data[..n]));
        let mut i = 0;
        while i < chunkings.len() {
            let (splits, interrupts) = chunkings[i];
            let mut stream = Chunked::new(&data[..n], splits, interrupts);
            let unbuffered = T::read_from_stream_unbuffered_with_ctx(IoCtx(e), &mut stream);
            check(&expected, &unbuffered);
            if expected.is_ok() {
                assert!(stream.pos == length, "C08: unbuffered decoding takes exactly the bytes of the value");
            }
            let mut stream = Chunked::new(&data[..n], splits, interrupts);
            let buffered = T::read_from_stream_buffered_with_ctx(IoCtx(e), &mut stream);
            check(&expected, &buffered);
            std::mem::forget((unbuffered, buffered));
            i += 1;
        }
        std::mem::forget(expected);
    }

    #[inline(always)]
    fn check<T: Same>(expected: &Result<T, IoE>, got: &Result<T, IoE>) {
        match (expected, got) {
            (Ok(a), Ok(b)) => assert!(a.same(b), "C08: a stream results in the same value as memory"),
            (Err(a), Err(b)) => {
                if a.0.kind == Kind::InputBufferIsTooSmall || a.0.eof {
                    assert!(b.is_eof(), "C08: a stream which ends too early results in an end-of-input error");
                }
            }
            _ => panic!("C08: decoding from a stream succeeds exactly if it does from memory"),
        }
    }

    #[inline(always)]
    fn fixed<const N: usize, T: Same + Readable<'static, IoCtx>>(lengths: &[usize]) {
        let mut i = 0;
        while i < lengths.len() {
            both::<N, T>(nd::endianness(), nd::any(), lengths[i], &[CHUNKINGS[2 + i % 2]]);
            i += 1;
        }
    }

    #[inline(always)]
    fn counted<const N: usize, T: Same + Readable<'static, IoCtx>>(e: Endianness, count: u32, lengths: &[usize]) {
        let mut i = 0;
        while i < lengths.len() {
            let mut data: [u8; N] = nd::any();
            let c = if e == Endianness::LittleEndian { count.to_le_bytes() } else { count.to_be_bytes() };
            data[0] = c[0];
            data[1] = c[1];
            data[2] = c[2];
            data[3] = c[3];
            both::<N, T>(e, data, lengths[i], &[CHUNKINGS[1 + i % 3]]);
            i += 1;
        }
    }

    pub struct Varint(u64);
    impl<'a, C: Context> Readable<'a, C> for Varint {
        fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
            Ok(Varint(reader.read_u64_varint()?))
        }
        fn minimum_bytes_needed() -> usize {
            1
        }
    }
    impl Same for Varint {
        fn same(&self, other: &Self) -> bool {
            self.0 == other.0
        }
    }

    #[inline(always)]
    fn varint(first: u8, n: usize) {
        let mut data: [u8; 10] = nd::any();
        data[0] = first;
        both::<10, Varint>(nd::endianness(), data, n, &[CHUNKINGS[3]]);
    }

    harnesses! {
        #[bounded] #[io]
        [20] small { fixed::<3, u16>(&[1, 3]) }
        #[bounded] #[io]
        [20] long { fixed::<9, u64>(&[7, 8]) }
        #[bounded] #[io]
        [20] option { fixed::<4, Option<u16>>(&[1, 3]) }
        #[bounded] #[io]
        [20] pair { fixed::<4, Pair>(&[2, 4]) }
        #[bounded] #[io]
        [20] varint_2 { varint(0x80, 3) }
        #[bounded] #[io]
        [20] bytes { counted::<7, Vec<u8>>(Endianness::LittleEndian, 2, &[6]) }
        #[native]
        [0] all_kinds {
            // Encodings with all their prefixes, for many chunkings.
            for seed in 0..200u64 {
                let mut s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
                let mut next = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
                let data: [u8; 12] = std::array::from_fn(|_| { let r = next(); if r & 0x300 == 0 { r as u8 } else { (r & 3) as u8 } });
                for e in [Endianness::LittleEndian, Endianness::BigEndian] {
                    for n in 0..=12 {
                        let c = &[CHUNKINGS[0], CHUNKINGS[1], CHUNKINGS[2], CHUNKINGS[3], (next() as u32, next() as u32)];
                        both::<12, bool>(e, data, n, c);
                        both::<12, u32>(e, data, n, c);
                        both::<12, (u8, u16, u32)>(e, data, n, c);
                        both::<12, char>(e, data, n, c);
                        both::<12, Option<Option<u16>>>(e, data, n, c);
                        both::<12, Enum>(e, data, n, c);
                        both::<12, Varint>(e, data, n, c);
                        both::<12, Duration>(e, data, n, c);
                        both::<12, Plain>(e, data, n, c);
                        both::<12, [Padded; 2]>(e, data, n, c);
                        for count in 0..3u8 {
                            let mut data = data;
                            data[..4].copy_from_slice(&if e == Endianness::LittleEndian { [count, 0, 0, 0] } else { [0, 0, 0, count] });
                            both::<12, Vec<u8>>(e, data, n, c);
                            both::<12, Vec<u16>>(e, data, n, c);
                            both::<12, String>(e, data, n, c);
                            both::<12, Cow<'static, [u32]>>(e, data, n, c);
                            both::<12, Box<[bool]>>(e, data, n, c);
                            both::<12, Vec<Pair>>(e, data, n, c);
                        }
                    }
                }
            }
        }
        #[native]
        [0] long_inputs {
            // Longer than the buffer of a buffered stream, and longer than what is skipped at once.
            for length in [0usize, 1, 1000, 8187, 8188, 8189, 8192, 8193, 16384, 20000] {
                let mut data: Vec<u8> = (length as u32).to_le_bytes().to_vec();
                data.extend((0..length).map(|i| (i * 31 + i / 251) as u8));
                data.extend([1, 2, 3]);
                for chunk in [1usize, 7, 1024, 8192, 100000] {
                    let expected = &data[4..4 + length];
                    let mut stream = Pieces { data: &data, pos: 0, chunk, interrupt: true };
                    let v = Vec::<u8>::read_from_stream_unbuffered(&mut stream).unwrap();
                    assert!(v == expected, "C08: a stream results in the same value as memory");
                    assert!(stream.pos == 4 + length, "C08: unbuffered decoding takes exactly the bytes of the value");
                    let v = Vec::<u8>::read_from_stream_buffered(Pieces { data: &data, pos: 0, chunk, interrupt: true }).unwrap();
                    assert!(v == expected, "C08: a stream results in the same value as memory");
                    let v = Vec::<(u8, bool)>::read_from_buffer(&data[..4 + length / 2 * 2]);
                    let w = Vec::<(u8, bool)>::read_from_stream_buffered(Pieces { data: &data[..4 + length / 2 * 2], pos: 0, chunk, interrupt: true });
                    assert!(v.ok() == w.ok(), "C08: a stream results in the same value as memory");
                    for cut in [1usize, 4, 5] {
                        if cut <= length + 4 {
                            let cut = &data[..4 + length - cut];
                            let error = Vec::<u8>::read_from_stream_buffered(Pieces { data: cut, pos: 0, chunk, interrupt: true }).unwrap_err();
                            assert!(error.is_eof(), "C08: a stream which ends too early results in an end-of-input error");
                            let error = Vec::<u8>::read_from_stream_unbuffered(Pieces { data: cut, pos: 0, chunk, interrupt: true }).unwrap_err();
                            assert!(error.is_eof(), "C08: a stream which ends too early results in an end-of-input error");
                        }
                    }
                }
                for skip in [0usize, 1, 1023, 1024, 1025, 2048, 5000] {
                    if skip + 2 <= data.len() {
                        SKIP.with(|s| s.set(skip));
                        let v = Skipping::read_from_stream_buffered(Pieces { data: &data, pos: 0, chunk: 700, interrupt: true }).unwrap();
                        assert!(v.0 == data[skip] && v.1 == data[skip], "C08: exactly what is skipped is not seen");
                        let v = Skipping::read_from_buffer_copying_data(&data).unwrap();
                        assert!(v.0 == data[skip] && v.1 == data[skip], "C08: exactly what is skipped is not seen");
                    }
                }
            }
        }
    }

    #[cfg(not(kani))]
    pub use native::*;
    #[cfg(not(kani))]
    mod native {
        use super::*;

        pub struct Pieces<'a> {
            pub data: &'a [u8],
            pub pos: usize,
            pub chunk: usize,
            pub interrupt: bool,
        }
        impl<'a> io::Read for Pieces<'a> {
            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                self.interrupt = !self.interrupt;
                if self.interrupt {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                let n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }

        thread_local! { pub static SKIP: std::cell::Cell<usize> = std::cell::Cell::new(0); }
        /// What follows the bytes skipped, peeked and read.
        pub struct Skipping(pub u8, pub u8);
        impl<'a, C: Context> Readable<'a, C> for Skipping {
            fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
                reader.skip_bytes(SKIP.with(|s| s.get()))?;
                let peeked = reader.peek_u8()?;
                Ok(Skipping(peeked, reader.read_u8()?))
            }
        }
    }
}

/// Continuing after an end of the input, which only `default_on_eof` does: a stream has consumed what was left of the
/// input, memory has not.
pub mod continued {
    use super::*;
    use speedy::LittleEndian;

    #[derive(Readable, PartialEq, Debug)]
    pub struct Trailing {
        #[speedy(default_on_eof)]
        pub a: u32,
        #[speedy(default_on_eof)]
        pub b: u8,
    }

    harnesses! {
        #[native]
        [0] programs { crate::program::run(100_000..106_000, true, "C08: a stream results in the same as memory, and is left where the value ends"); }
        #[known]
        [0] default_on_eof {
            let data = [1u8, 2];
            let memory = Trailing::read_from_buffer_with_ctx(LittleEndian {}, &data).unwrap();
            let stream = Trailing::read_from_stream_unbuffered_with_ctx(LittleEndian {}, &data[..]).unwrap();
            assert!(memory == stream, "C08: a stream results in the same value as memory");
        }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c08);
}
