//! C09: peeking returns what the next read returns and consumes nothing.
//!
//! Here: every `peek_*` against its `read_*`, through the contract of `Reader` (the model is `Src`). `readers`: the
//! same through the real readers. That the readers fulfill the contract of `peek_bytes` in every state is checked by
//! C04 (memory) and C08 (streams; proved without bounds by the Verus unit `stream`).

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::util::*;
use speedy::{Context, Endianness, IsEof, Readable, Reader};

/// The two ways of looking at a value of some type, and its size.
pub trait Value {
    type T: Same;
    const SIZE: usize;
    fn peek<'a, C: Context, R: Reader<'a, C>>(reader: &mut R) -> Result<Self::T, C::Error>;
    fn read<'a, C: Context, R: Reader<'a, C>>(reader: &mut R) -> Result<Self::T, C::Error>;
}

macro_rules! values {
    ($($name:ident $t:ty, $size:literal $peek:ident $read:ident;)*) => { $(
        pub struct $name;
        impl Value for $name {
            type T = $t;
            const SIZE: usize = $size;
            #[inline(always)]
            fn peek<'a, C: Context, R: Reader<'a, C>>(reader: &mut R) -> Result<$t, C::Error> { reader.$peek() }
            #[inline(always)]
            fn read<'a, C: Context, R: Reader<'a, C>>(reader: &mut R) -> Result<$t, C::Error> { reader.$read() }
        }
    )* };
}
values! {
    U8 u8, 1 peek_u8 read_u8; I8 i8, 1 peek_i8 read_i8;
    U16 u16, 2 peek_u16 read_u16; I16 i16, 2 peek_i16 read_i16;
    U32 u32, 4 peek_u32 read_u32; I32 i32, 4 peek_i32 read_i32;
    U64 u64, 8 peek_u64 read_u64; I64 i64, 8 peek_i64 read_i64;
    U128 u128, 16 peek_u128 read_u128; I128 i128, 16 peek_i128 read_i128;
    F32 f32, 4 peek_f32 read_f32; F64 f64, 8 peek_f64 read_f64;
    Varint u64, 9 peek_u64_varint read_u64_varint;
}

/// A value is peeked twice and read, then the byte which follows.
pub struct Seen<T> {
    first: Result<T, bool>,
    second: Result<T, bool>,
    read: Result<T, bool>,
    next: Option<u8>,
}

pub struct Run<V: Value>(Seen<V::T>);

impl<'a, C: Context, V: Value> Readable<'a, C> for Run<V> {
    #[inline]
    fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
        let first = V::peek(reader).map_err(|e| e.is_eof());
        let second = V::peek(reader).map_err(|e| e.is_eof());
        let read = V::read(reader).map_err(|e| e.is_eof());
        // What is left after a failed read isn't specified.
        let next = if read.is_ok() { reader.read_u8().ok() } else { None };
        Ok(Run(Seen { first, second, read, next }))
    }
}

#[inline(always)]
fn check<T: Same>(seen: &Seen<T>, next: impl FnOnce(&T) -> Option<u8>) {
    match (&seen.first, &seen.second, &seen.read) {
        (Ok(a), Ok(b), Ok(c)) => {
            assert!(a.same(c), "C09: peeking returns what reading does");
            assert!(b.same(c), "C09: peeking again returns what reading does");
            assert!(seen.next == next(c), "C09: what follows is unchanged");
        }
        (Err(a), Err(b), Err(c)) => assert!(*a == *c && *b == *c, "C09: peeking fails like reading does"),
        _ => panic!("C09: peeking fails exactly if reading does"),
    }
}

/// What follows the value at the beginning of `data`.
#[inline(always)]
fn next<V: Value>(data: &[u8]) -> Option<u8> {
    let mut size = V::SIZE;
    if size == 9 {
        size = 1;
        while size < 9 && (data[0] >> (8 - size)) & 1 == 1 {
            size += 1;
        }
    }
    if size < data.len() { Some(data[size]) } else { None }
}

/// Any bytes of any length through one kind of reader.
#[inline(always)]
fn model<const N: usize, const KIND: u8, V: Value>() {
    let data: [u8; N] = nd::any();
    let n = nd::upto(N);
    let e = nd::endianness();
    let mut reader = Src::<KIND>::new(e, nd::forever(&data[..n]));
    match Run::<V>::read_from(&mut reader) {
        Ok(run) => check(&run.0, |_| next::<V>(&data[..n])),
        Err(_) => {}
    }
}

#[inline(always)]
fn every<const N: usize, V: Value>() {
    model::<N, BORROWING, V>();
    model::<N, STREAM, V>();
}

harnesses! {
    [20] bytes { every::<2, U8>(); every::<2, I8>(); }
    [20] words { every::<3, U16>(); every::<3, I16>(); }
    [20] doubles { every::<5, U32>(); every::<5, I32>(); }
    [20] quads { every::<9, U64>(); every::<9, I64>(); }
    [20] wide { every::<17, U128>(); every::<17, I128>(); }
    [20] floats { every::<5, F32>(); every::<9, F64>(); }
    [20] varint_memory { model::<10, BORROWING, Varint>(); }
    [20] varint_stream { model::<10, STREAM, Varint>(); }
}

/// Several different peeks, at any position, do not disturb each other.
pub mod mixed {
    use super::*;

    pub struct Program {
        a: Result<u32, E>,
        b: Result<u8, E>,
        c: Result<u64, E>,
        d: Result<u16, E>,
        bytes: (Result<(), E>, [u8; 3]),
        raw: (Result<(), E>, [u8; 3]),
        read: (Result<(), E>, [u8; 3]),
    }

    #[inline(always)]
    fn run<const KIND: u8>() {
        let data: [u8; 6] = nd::any();
        let n = nd::upto(6);
        let start = nd::upto(2);
        nd::assume(start <= n);
        let e = nd::endianness();
        let mut r = Src::<KIND>::new(e, nd::forever(&data[..n]));
        r.pos = start;
        let mut p = Program {
            a: r.peek_u32(),
            b: r.peek_u8(),
            c: r.peek_u64(),
            d: r.peek_u16(),
            bytes: (Ok(()), [0; 3]),
            raw: (Ok(()), [0; 3]),
            read: (Ok(()), [0; 3]),
        };
        p.bytes.0 = r.peek_bytes(&mut p.bytes.1);
        p.raw.0 = unsafe { r.peek_bytes_into_ptr(p.raw.1.as_mut_ptr(), 3) };
        assert!(r.pos == start, "C09: peeking consumes nothing");
        p.read.0 = r.read_bytes(&mut p.read.1);
        let left = n - start;
        assert!(p.a.is_ok() == (left >= 4) && p.b.is_ok() == (left >= 1) && p.c.is_ok() == (left >= 8) && p.d.is_ok() == (left >= 2), "C09: peeking succeeds if there is enough input");
        assert!(p.bytes.0.is_ok() == (left >= 3) && p.raw.0.is_ok() == (left >= 3) && p.read.0.is_ok() == (left >= 3), "C09: peeking succeeds if there is enough input");
        if left >= 3 {
            let i = nd::idx(3);
            assert!(p.bytes.1[i] == data[start + i] && p.raw.1[i] == data[start + i] && p.read.1[i] == data[start + i], "C09: peeking returns what reading does");
        }
        if let Ok(b) = p.b {
            assert!(b == data[start], "C09: peeking returns what reading does");
        }
        if let Ok(d) = p.d {
            let bytes = [data[start], data[start + 1]];
            assert!(d == if e == Endianness::LittleEndian { u16::from_le_bytes(bytes) } else { u16::from_be_bytes(bytes) }, "C09: peeking returns what reading does");
        }
    }

    harnesses! {
        [8] memory { run::<BORROWING>(); }
        [8] copying { run::<COPYING>(); }
        [8] stream { run::<STREAM>(); }
    }
}

/// The real readers.
pub mod readers {
    use super::*;

    #[inline(always)]
    fn memory<const N: usize, V: Value>() {
        let data: [u8; N] = nd::any();
        let n = nd::upto(N);
        let e = nd::endianness();
        let input = nd::forever(&data[..n]);
        match Run::<V>::read_from_buffer_with_ctx(Ctx(e), input) {
            Ok(run) => check(&run.0, |_| next::<V>(input)),
            Err(_) => {}
        }
        match Run::<V>::read_from_buffer_copying_data_with_ctx(Ctx(e), input) {
            Ok(run) => check(&run.0, |_| next::<V>(input)),
            Err(_) => {}
        }
    }

    #[inline(always)]
    fn stream<const N: usize, V: Value>(data: [u8; N], n: usize, splits: u32, interrupts: u32) {
        let e = nd::endianness();
        let input = nd::forever(&data[..n]);
        let mut source = Chunked::new(input, splits, interrupts);
        match Run::<V>::read_from_stream_unbuffered_with_ctx(IoCtx(e), &mut source) {
            Ok(run) => check(&run.0, |_| next::<V>(input)),
            Err(_) => {}
        }
    }

    /// What was peeked is a part of what is read next.
    probe!(io PeekedThenLonger((Result<u8, bool>, Result<u32, bool>, Option<u8>)) |r| {
        let peeked = r.peek_u8().map_err(|e| e.is_eof());
        let read = r.read_u32().map_err(|e| e.is_eof());
        let next = if read.is_ok() { r.read_u8().ok() } else { None };
        (peeked, read, next)
    });

    #[inline(always)]
    fn peeked_then_longer(n: usize, splits: u32) {
        let data: [u8; 5] = nd::any();
        let input = nd::forever(&data[..n]);
        let seen = match PeekedThenLonger::read_from_stream_unbuffered_with_ctx(IoCtx(Endianness::LittleEndian), Chunked::new(input, splits, 0)) {
            Ok(seen) => seen.0,
            Err(_) => panic!("C09: the probe itself does not fail"),
        };
        assert!(seen.0 == Ok(data[0]), "C09: peeking returns what reading does");
        if n >= 4 {
            assert!(seen.1 == Ok(u32::from_le_bytes([data[0], data[1], data[2], data[3]])), "C09: peeking leaves what is read afterwards unchanged");
            assert!(seen.2 == input.get(4).copied(), "C09: peeking leaves what is read afterwards unchanged");
        } else {
            assert!(seen.1 == Err(true), "C09: peeking leaves what is read afterwards unchanged");
        }
    }

    harnesses! {
        [20] words_memory { memory::<3, U16>(); memory::<3, I16>() }
        [20] doubles_memory { memory::<5, U32>(); memory::<5, F32>() }
        [20] quads_memory { memory::<9, U64>() }
        [20] wide_memory { memory::<17, I128>() }
        [20] varint_memory { memory::<10, Varint>() }
        #[bounded] #[io]
        [20] words_stream { stream::<3, U16>(nd::any(), 3, !0, 0b101) }
        #[bounded] #[io]
        [20] words_stream_end { stream::<3, U16>(nd::any(), 1, 0, 0) }
        #[bounded] #[io]
        [20] quads_stream { stream::<9, I64>(nd::any(), 9, 0b100100, 0) }
        #[bounded] #[io]
        [20] varint_stream { let mut data: [u8; 10] = nd::any(); data[0] = 0xC5; stream::<10, Varint>(data, 4, 0b10, 0b1); }
        #[native]
        [0] programs { crate::program::run(0..6000, true, "C09: peeking returns what the next read returns and consumes nothing"); }
        #[bounded] #[io]
        [8] peeked_then_longer_all { peeked_then_longer(5, 0); }
        #[bounded] #[io]
        [8] peeked_then_longer_pieces { peeked_then_longer(5, 0b10); }
        #[bounded] #[io]
        [8] peeked_then_longer_end { peeked_then_longer(3, 0); }
        #[native]
        [0] everything {
            // Every value of the first byte, every length, through every reader.
            for first in 0..=255u8 {
                for n in 0..=18usize {
                    let data: [u8; 18] = std::array::from_fn(|i| if i == 0 { first } else { (i as u8).wrapping_mul(29) ^ first });
                    all::<U8>(&data[..n]);
                    all::<I8>(&data[..n]);
                    all::<U16>(&data[..n]);
                    all::<I16>(&data[..n]);
                    all::<U32>(&data[..n]);
                    all::<I32>(&data[..n]);
                    all::<U64>(&data[..n]);
                    all::<I64>(&data[..n]);
                    all::<U128>(&data[..n]);
                    all::<I128>(&data[..n]);
                    all::<F32>(&data[..n]);
                    all::<F64>(&data[..n]);
                    all::<Varint>(&data[..n]);
                }
            }
        }
    }

    #[cfg(not(kani))]
    fn all<V: Value>(data: &[u8]) {
        for e in [Endianness::LittleEndian, Endianness::BigEndian] {
            let input = nd::forever(data);
            let seen = Run::<V>::read_from_buffer_with_ctx(Ctx(e), input).ok().unwrap().0;
            check(&seen, |_| next::<V>(input));
            let seen = Run::<V>::read_from_buffer_copying_data_with_ctx(Ctx(e), input).ok().unwrap().0;
            check(&seen, |_| next::<V>(input));
            for (splits, interrupts) in [(0, 0), (!0, 0), (0b1001_0010, 0b101)] {
                let seen = Run::<V>::read_from_stream_unbuffered_with_ctx(IoCtx(e), Chunked::new(data, splits, interrupts)).ok().unwrap().0;
                check(&seen, |_| next::<V>(input));
                let seen = Run::<V>::read_from_stream_buffered_with_ctx(IoCtx(e), Chunked::new(data, splits, interrupts)).ok().unwrap().0;
                check(&seen, |_| next::<V>(input));
            }
        }
    }
}
