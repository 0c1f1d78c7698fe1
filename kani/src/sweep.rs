//! Pseudorandom values of all sizes through the public functions, for each property. These are executed, not verified:
//! they stand in for what the verifiers cannot follow (hash tables, trees with elements, containers of thousands of
//! elements) and never count as proved.

use crate::ctx::*;
use crate::nd;
use crate::program::Random;
use crate::spec::*;
use crate::types::*;
use crate::util::*;
use crate::zoo::Zoo;
use speedy::{Endianness, Readable, Reader, Writable, Writer};
use std::hash::{BuildHasher, Hash};
use std::io::{self, Read};

/// A pseudorandom value; of `n` elements if it is a container.
pub trait Arb: Sized {
    fn arb(r: &mut Random, n: usize) -> Self;
}

/// What everything here needs.
pub trait Swept: Same + Spec + Writable<IoCtx> + Writable<Endianness> + Readable<'static, IoCtx> {}
impl<T: Same + Spec + Writable<IoCtx> + Writable<Endianness> + Readable<'static, IoCtx>> Swept for T {}

fn word(r: &mut Random) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => !0,
        2 => r.below(6) as u64,
        3 => 1u64 << r.below(64),
        4 => u64::from_le_bytes(std::array::from_fn(|_| [0, 1, 0x7f, 0x80, 0xff][r.below(5)])),
        _ => r.next() << 32 ^ r.next(),
    }
}

macro_rules! arb {
    ($($t:ty: |$r:ident, $n:ident| $e:expr;)*) => { $(
        impl Arb for $t {
            #[allow(unused_variables)]
            fn arb($r: &mut Random, $n: usize) -> Self { $e }
        }
    )* };
}
macro_rules! arb_int {
    ($($t:ident)*) => { $( arb! { $t: |r, n| word(r) as $t; } )* };
}
arb_int!(u8 u16 u32 u64 usize i8 i16 i32 i64);
macro_rules! arb_non_zero {
    ($($t:ident $p:ident)*) => { $( arb! { $t: |r, n| $t::new($p::arb(r, 0)).unwrap_or($t::new(77).unwrap()); } )* };
}
arb_non_zero!(NonZeroU8 u8 NonZeroU16 u16 NonZeroU32 u32 NonZeroU64 u64 NonZeroI8 i8 NonZeroI16 i16 NonZeroI32 i32 NonZeroI64 i64);
macro_rules! arb_atomic {
    ($($t:ident $p:ident)*) => { $( arb! { $t: |r, n| $t::new($p::arb(r, 0)); } )* };
}
arb_atomic!(AtomicU8 u8 AtomicU16 u16 AtomicU32 u32 AtomicU64 u64 AtomicI8 i8 AtomicI16 i16 AtomicI32 i32 AtomicI64 i64);
arb! {
    u128: |r, n| (word(r) as u128) << 64 | word(r) as u128;
    i128: |r, n| u128::arb(r, 0) as i128;
    f32: |r, n| f32::from_bits(word(r) as u32);
    f64: |r, n| f64::from_bits(word(r));
    bool: |r, n| r.below(2) == 1;
    (): |r, n| ();
    char: |r, n| {
        let c = match r.below(6) { 0 => r.below(0x80), 1 => r.below(0x800), 2 => r.below(0x10000), 3 => [0xD7FF, 0xE000, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, 0x10FFFF][r.below(7)], _ => r.below(0x110000) };
        char::from_u32(c as u32).unwrap_or('x')
    };
    Endianness: |r, n| order(r);
    Ipv4Addr: |r, n| u32::arb(r, 0).into();
    Ipv6Addr: |r, n| match r.below(4) { 0 => Ipv4Addr::arb(r, 0).to_ipv6_mapped(), 1 => Ipv4Addr::arb(r, 0).to_ipv6_compatible(), _ => u128::arb(r, 0).into() };
    IpAddr: |r, n| if r.below(2) == 0 { IpAddr::V4(Arb::arb(r, 0)) } else { IpAddr::V6(Arb::arb(r, 0)) };
    Duration: |r, n| Duration::new(word(r), [0, 1, 999_999_999, r.below(1_000_000_000) as u32][r.below(4)]);
    SystemTime: |r, n| SystemTime::UNIX_EPOCH + Duration::new(word(r) >> 2, r.below(1_000_000_000) as u32);
    String: |r, n| {
        // `n` bytes.
        let mut s = std::string::String::new();
        while s.len() < n {
            let c = char::arb(r, 0);
            s.push(if s.len() + c.len_utf8() <= n { c } else { 'y' });
        }
        s
    };
    Box<str>: |r, n| String::arb(r, n).into();
    Cow<'static, str>: |r, n| Cow::Owned(Arb::arb(r, n));
    &'static str: |r, n| Box::leak(Box::<str>::arb(r, n));
    &'static [u8]: |r, n| Box::leak(Box::<[u8]>::arb(r, n));
    Plain: |r, n| Plain { a: Arb::arb(r, 0), b: Arb::arb(r, 0) };
    Padded: |r, n| Padded { a: Arb::arb(r, 0), b: Arb::arb(r, 0) };
    Wrapper: |r, n| Wrapper(Arb::arb(r, 0));
    Pair: |r, n| Pair { a: Arb::arb(r, 0), b: Arb::arb(r, 0) };
    Mixed: |r, n| Mixed { a: Arb::arb(r, 0), b: Arb::arb(r, n), c: Arb::arb(r, 0) };
    Enum: |r, n| match r.below(4) { 0 => Enum::Empty, 1 => Enum::Tuple(Arb::arb(r, 0), Arb::arb(r, 0)), 2 => Enum::Struct { a: Arb::arb(r, 0) }, _ => Enum::AfterTagged };
}
/// The number of elements of a container inside another one.
fn inner(r: &mut Random, n: usize) -> usize {
    if n > 300 { r.below(3) } else { r.below(20) }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(r: &mut Random, n: usize) -> Self { (0..n).map(|_| { let m = inner(r, n); T::arb(r, m) }).collect() }
}
impl<T: Arb> Arb for Box<[T]> {
    fn arb(r: &mut Random, n: usize) -> Self { Vec::arb(r, n).into() }
}
impl<T: Arb> Arb for Box<T> {
    fn arb(r: &mut Random, n: usize) -> Self { Box::new(T::arb(r, n)) }
}
impl<T: Arb + Clone> Arb for Cow<'static, [T]> {
    fn arb(r: &mut Random, n: usize) -> Self { Cow::Owned(Vec::arb(r, n)) }
}
impl<K: Arb + Ord, V: Arb> Arb for BTreeMap<K, V> {
    fn arb(r: &mut Random, n: usize) -> Self { (0..n).map(|_| { let (a, b) = (inner(r, n), inner(r, n)); (K::arb(r, a), V::arb(r, b)) }).collect() }
}
impl<T: Arb + Ord> Arb for BTreeSet<T> {
    fn arb(r: &mut Random, n: usize) -> Self { (0..n).map(|_| { let a = inner(r, n); T::arb(r, a) }).collect() }
}
impl<K: Arb + Eq + Hash, V: Arb, S: BuildHasher + Default> Arb for HashMap<K, V, S> {
    fn arb(r: &mut Random, n: usize) -> Self { (0..n).map(|_| { let (a, b) = (inner(r, n), inner(r, n)); (K::arb(r, a), V::arb(r, b)) }).collect() }
}
impl<T: Arb + Eq + Hash, S: BuildHasher + Default> Arb for HashSet<T, S> {
    fn arb(r: &mut Random, n: usize) -> Self { (0..n).map(|_| { let a = inner(r, n); T::arb(r, a) }).collect() }
}
macro_rules! arb_cow {
    ($($t:ident<$($p:ident),*> [$($bounds:tt)*];)*) => { $(
        impl<$($bounds)*> Arb for Cow<'static, $t<$($p),*>> {
            fn arb(r: &mut Random, n: usize) -> Self { Cow::Owned(Arb::arb(r, n)) }
        }
    )* };
}
arb_cow! {
    BTreeMap<K, V> [K: Arb + Ord + Clone, V: Arb + Clone];
    BTreeSet<K> [K: Arb + Ord + Clone];
    HashMap<K, V> [K: Arb + Eq + Hash + Clone, V: Arb + Clone];
    HashSet<K> [K: Arb + Eq + Hash + Clone];
}
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(r: &mut Random, n: usize) -> Self { std::array::from_fn(|_| T::arb(r, n)) }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(r: &mut Random, n: usize) -> Self { if r.below(4) == 0 { None } else { Some(T::arb(r, n)) } }
}
impl<T: Arb, E: Arb> Arb for Result<T, E> {
    fn arb(r: &mut Random, n: usize) -> Self { if r.below(2) == 0 { Err(E::arb(r, n)) } else { Ok(T::arb(r, n)) } }
}
impl<T: Arb> Arb for Range<T> {
    fn arb(r: &mut Random, n: usize) -> Self { T::arb(r, n)..T::arb(r, n) }
}
impl<T: Arb> Arb for RangeInclusive<T> {
    fn arb(r: &mut Random, n: usize) -> Self { T::arb(r, n)..=T::arb(r, n) }
}
macro_rules! arb_tuple {
    ($($n:ident)*) => {
        impl<$($n: Arb),*> Arb for ($($n,)*) {
            fn arb(r: &mut Random, n: usize) -> Self { ($($n::arb(r, n),)*) }
        }
    };
}
arb_tuple!(A);
arb_tuple!(A B);
arb_tuple!(A B C);
arb_tuple!(A B C D);

fn order(r: &mut Random) -> Endianness {
    if r.below(2) == 0 { Endianness::LittleEndian } else { Endianness::BigEndian }
}

impl Sink for Vec<u8> {
    fn put(&mut self, b: u8) { self.push(b) }
}

/// The documented encoding.
pub fn encode<T: Spec>(v: &T, e: Endianness) -> Vec<u8> {
    let mut out = Vec::new();
    v.spec(e, &mut out);
    out
}

pub const SMALL: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257];
pub const LARGE: &[usize] = &[0, 1, 3, 17, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10_001, 16_385, 32_769, 65_535, 65_536, 65_537, 70_003];

/// A stream which hands out at most so many bytes at once.
pub struct Pieces<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub most: usize,
    pub r: &'a mut Random,
}
impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
        if self.r.below(8) == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = buffer.len().min(self.data.len() - self.pos).min(1 + self.r.below(self.most));
        buffer[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Runs the check for each length; `$f::<T>(value, byte order, random)`.
macro_rules! values {
    ($f:ident, $lengths:expr; $($t:ty),* $(,)?) => { $({
        let mut r = Random::new(0x5eed);
        for n in $lengths {
            for e in [Endianness::LittleEndian, Endianness::BigEndian] {
                let v = <$t as Arb>::arb(&mut r, *n);
                crate::sweep::$f::<$t>(&v, e, &mut r);
            }
        }
    })* };
}

/// The types and sizes every property is checked on.
macro_rules! for_swept {
    ($f:ident) => {
        harnesses! {
            #[native] [0] scalars {
                values!($f, &[0; 20]; u8, u16, u32, u64, usize, i8, i16, i32, i64, u128, i128, f32, f64, bool, char, (), Endianness,
                    NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64,
                    AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicI8, AtomicI16, AtomicI32, AtomicI64,
                    Ipv4Addr, Ipv6Addr, IpAddr, Duration, SystemTime,
                    (u8,), (u16, i8), (u8, u64, bool), (u128, u8, char, f32), Range<i64>, RangeInclusive<u128>, Range<char>,
                    Option<u8>, Option<u128>, Option<Option<bool>>, Result<u8, u64>, Result<(), char>, Option<char>, Option<IpAddr>, Result<bool, Duration>,
                    Plain, Padded, Wrapper, Pair, Enum, Option<Enum>, (Enum, u8), Box<u64>, Box<(u8, u16)>, Option<Box<u32>>);
            }
            #[native] [0] arrays {
                values!($f, &[0, 3, 20]; [u8; 0], [u8; 1], [u8; 33], [u8; 5000], [u16; 1], [u16; 17], [u16; 4097], [u32; 3], [u32; 64], [u64; 9], [u64; 1025],
                    [u128; 5], [i8; 7], [i16; 3], [i32; 5], [i64; 3], [i128; 2], [f32; 33], [f64; 17], [bool; 3], [bool; 4096], [char; 9], [(); 5], [Option<u16>; 4], [(u8, u16); 3],
                    [Plain; 5], [Padded; 3], [Wrapper; 9], [Pair; 2], [[u16; 3]; 3], [[bool; 2]; 4], [String; 3], [Vec<u8>; 4], [Box<u16>; 3], [NonZeroU16; 3]);
            }
            #[native] [0] vectors_small {
                values!($f, SMALL; Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<usize>,
                    Vec<bool>, Vec<char>, Vec<()>, Vec<Option<u16>>, Vec<(u8, u16)>, Vec<Plain>, Vec<Padded>, Vec<Wrapper>, Vec<Pair>, Vec<Enum>,
                    Vec<[u8; 3]>, Vec<[u16; 2]>, Vec<[Plain; 2]>, Vec<String>, Vec<Vec<u8>>, Vec<Vec<u16>>, Vec<Box<[u32]>>, Vec<Box<u8>>, Vec<NonZeroU32>, Vec<Mixed>,
                    Vec<Option<Vec<u64>>>, Vec<Result<String, u8>>, Vec<Cow<'static, [u16]>>, Vec<Range<u16>>, Vec<IpAddr>, Vec<Duration>);
            }
            #[native] [0] vectors_large {
                values!($f, LARGE; Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<f64>, Vec<bool>, Vec<()>, Vec<Option<u16>>, Vec<Plain>, Vec<Padded>);
            }
            #[native] [0] slices {
                values!($f, SMALL; Box<[u8]>, Box<[u16]>, Box<[bool]>, Box<[String]>, Cow<'static, [u8]>, Cow<'static, [u16]>, Cow<'static, [u64]>, Cow<'static, [f32]>,
                    Cow<'static, [Plain]>, Cow<'static, [Padded]>, Cow<'static, [bool]>, Cow<'static, [String]>, &'static [u8], &'static str,
                    String, Box<str>, Cow<'static, str>, (Vec<u8>, String, Vec<u16>), Option<Vec<u16>>, Result<Vec<u8>, String>, Box<Vec<u32>>, Mixed, Option<Mixed>);
            }
            #[native] [0] slices_large {
                values!($f, LARGE; Cow<'static, [u8]>, Cow<'static, [u32]>, Box<[u64]>, &'static [u8], String, Cow<'static, str>, Box<str>, &'static str, Mixed);
            }
            #[native] [0] trees {
                values!($f, &[0, 1, 2, 3, 5, 9, 17, 100, 300]; BTreeMap<u8, u8>, BTreeMap<u16, u8>, BTreeMap<u32, String>, BTreeMap<String, u64>, BTreeMap<(), u8>, BTreeMap<u64, ()>,
                    BTreeMap<u16, Vec<u8>>, BTreeMap<Vec<u8>, Option<u32>>, BTreeMap<bool, u16>, BTreeMap<[u8; 20], u8>, BTreeSet<u8>, BTreeSet<u16>, BTreeSet<u64>, BTreeSet<String>, BTreeSet<Vec<u8>>,
                    BTreeSet<(u8, u16)>, BTreeSet<()>, BTreeSet<i32>, Cow<'static, BTreeMap<u16, u32>>, Cow<'static, BTreeSet<u32>>, Vec<BTreeSet<u8>>, BTreeMap<u8, BTreeMap<u16, u8>>);
            }
            #[native] [0] tables {
                values!($f, &[0, 1, 2, 3, 5, 9, 17, 100, 300]; HashMap<u8, u8>, HashMap<u16, u8>, HashMap<u32, String>, HashMap<String, u64>, HashMap<(), u8>, HashMap<u64, ()>,
                    HashMap<u16, Vec<u8>>, HashMap<Vec<u8>, Option<u32>>, HashMap<bool, u16>, HashMap<[u8; 20], u8>, HashSet<u8>, HashSet<u16>, HashSet<u64>, HashSet<String>, HashSet<Vec<u8>>,
                    HashSet<(u8, u16)>, HashSet<()>, HashSet<i32>, Cow<'static, HashMap<u16, u32>>, Cow<'static, HashSet<u32>>, Vec<HashSet<u8>>, HashMap<u8, HashMap<u16, u8>>, HashMap<u8, u16, Bh>, HashSet<u16, Bh>);
            }
            #[native] [0] maps_large {
                values!($f, &[511, 1025, 4097, 9000]; BTreeMap<u32, u16>, BTreeSet<u64>, HashMap<u32, u16>, HashSet<u64>);
            }
        }
    };
}

/// As above, for the derived types of the zoo.
macro_rules! for_swept_zoo {
    ($f:ident) => {
        use crate::zoo::*;
        fn swept<T: crate::sweep::Swept + Zoo>() {
            crate::sweep::generated::<T>(crate::sweep::$f::<T>);
        }
        harnesses! {
            #[native] [0] zoo { zoo_types!(swept); }
        }
    };
}

/// Values of every shape of a type of the zoo.
pub fn generated<T: Zoo>(mut f: impl FnMut(&T, Endianness, &mut Random)) {
    let mut r = Random::new(0x2005eed);
    for nth in 0..4 * std::cmp::max(T::SHAPES, 3) {
        nd::replay(&(0..512).map(|_| r.next() as u8).collect::<Vec<u8>>());
        // Values which are not possible (e.g. of characters) are skipped.
        let v = match std::panic::catch_unwind(|| T::gen(nth % T::SHAPES)) {
            Ok(v) => v,
            Err(e) if e.is::<nd::AssumptionFailed>() => continue,
            Err(e) => std::panic::resume_unwind(e),
        };
        for e in [Endianness::LittleEndian, Endianness::BigEndian] {
            f(&v, e, &mut r);
        }
    }
}

fn leak(data: &[u8]) -> &'static [u8] {
    // Every caller keeps the data.
    nd::forever(data)
}

/// Every way of reading: from memory and from streams, the end of the input known or not.
fn every_reader<T: Swept>(e: Endianness, data: &[u8], r: &mut Random, mut f: impl FnMut(&str, Result<T, IoE>, Option<usize>)) {
    let input = leak(data);
    let (v, n) = T::read_with_length_from_buffer_with_ctx(IoCtx(e), input);
    f("borrowing", v, Some(n));
    f("borrowing", T::read_from_buffer_with_ctx(IoCtx(e), input), None);
    if borrows::<T>() {
        return;
    }
    let (v, n) = T::read_with_length_from_buffer_copying_data_with_ctx(IoCtx(e), input);
    f("copying", v, Some(n));
    f("copying", T::read_from_buffer_copying_data_with_ctx(IoCtx(e), input), None);
    for most in [1, 7, 4096, usize::MAX / 2] {
        if most < 10 && data.len() > 5000 {
            continue;
        }
        let mut stream = Pieces { data, pos: 0, most, r };
        let v = T::read_from_stream_unbuffered_with_ctx(IoCtx(e), &mut stream);
        let pos = stream.pos;
        f("an unbuffered stream", v, Some(pos));
        let mut stream = Pieces { data, pos: 0, most, r };
        let v = T::read_from_stream_buffered_with_ctx(IoCtx(e), &mut stream);
        f("a buffered stream", v, None);
    }
}

/// Can only be read where the input can be borrowed.
fn borrows<T>() -> bool {
    let name = std::any::type_name::<T>();
    name.contains('&') || ["LenRef", "TypedRef", "TypedAll", "LenAll", "TypedOptions"].iter().any(|n| name.contains(n))
}

fn too_short(error: &IoE) -> bool {
    error.0.eof || error.0.kind == Kind::InputBufferIsTooSmall
}

fn written<T: Swept>(v: &T, e: Endianness) -> Vec<u8> {
    match v.write_to_vec_with_ctx(IoCtx(e)) {
        Ok(out) => out,
        Err(error) => panic!("a valid value can be serialized: {:?}", error),
    }
}

pub fn c01<T: Swept>(v: &T, e: Endianness, r: &mut Random) {
    let mut data = written(v, e);
    let n = data.len();
    for rest in [0, 1, 40] {
        data.truncate(n);
        data.extend((0..rest).map(|_| r.next() as u8));
        every_reader::<T>(e, &data, r, |reader, result, length| {
            match result {
                Ok(ref back) => assert!(v.same(back), "C01: the value read back from {} is the value written", reader),
                Err(error) => panic!("C01: reading back from {} succeeds: {:?}", reader, error),
            }
            assert!(length.unwrap_or(n) == n, "C01: exactly the bytes written are consumed from {}", reader);
        });
    }
}

pub fn c02<T: Swept>(v: &T, e: Endianness, _: &mut Random) {
    let expected = encode(v, e);
    assert!(written(v, e) == expected, "C02: the bytes written are the documented ones");
    let mut stream = Vec::new();
    assert!(v.write_to_stream_with_ctx(IoCtx(e), &mut stream).is_ok(), "C02: a valid value is serialized");
    assert!(stream == expected, "C02: the bytes written to a stream are the documented ones");
}

pub fn c03<T: Swept>(v: &T, e: Endianness, r: &mut Random) {
    let data = written(v, e);
    let n = data.len();
    assert!(Writable::<IoCtx>::bytes_needed(v).ok() == Some(n), "C03: the reported size is the number of bytes which are written");
    for rest in [0, 1, 33] {
        let before: Vec<u8> = (0..n + rest).map(|_| r.next() as u8).collect();
        let mut buffer = before.clone();
        assert!(v.write_to_buffer_with_ctx(IoCtx(e), &mut buffer).is_ok(), "C03: a large enough buffer is accepted");
        assert!(buffer[..n] == data[..], "C03: a buffer starts with exactly the bytes of the value");
        assert!(buffer[n..] == before[n..], "C03: nothing is written past the reported size");
    }
    for short in [n.wrapping_sub(1), 0, r.below(n + 1)] {
        if short < n {
            let before: Vec<u8> = (0..short).map(|_| r.next() as u8).collect();
            let mut buffer = before.clone();
            match v.write_to_buffer_with_ctx(IoCtx(e), &mut buffer) {
                Err(error) => assert!(error.0.kind == Kind::OutputBufferIsTooSmall, "C03: a buffer which is too small is reported as such"),
                Ok(()) => panic!("C03: a buffer which is too small is rejected"),
            }
            assert!(buffer == before, "C03: a buffer which is too small is left untouched");
        }
    }
}

/// The lengths inputs are cut off at.
fn cuts(n: usize, r: &mut Random) -> Vec<usize> {
    let mut cuts: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, 3, 4, 5, n / 2, n - 9, n - 8, n - 3, n - 2, n - 1, r.below(n), r.below(n)] };
    cuts.retain(|k| *k < n);
    cuts
}

/// The encoding with something changed.
fn mutated(data: &[u8], r: &mut Random) -> Vec<u8> {
    let mut data = data.to_vec();
    for _ in 0..1 + r.below(3) {
        if !data.is_empty() {
            let at = if r.below(2) == 0 { r.below(std::cmp::min(12, data.len())) } else { r.below(data.len()) };
            data[at] = word(r) as u8;
        }
    }
    if r.below(4) == 0 && data.len() >= 4 {
        let at = if r.below(2) == 0 { 0 } else { r.below(data.len() - 3) };
        let count = [!0u32, 1 << 31, 0x7fff_ffff, 0x1_0000, data.len() as u32][r.below(5)];
        data[at..at + 4].copy_from_slice(&if r.below(2) == 0 { count.to_le_bytes() } else { count.to_be_bytes() });
    }
    if r.below(4) == 0 {
        data.truncate(r.below(data.len() + 1));
    }
    data
}

fn from_memory<T: Swept>(e: Endianness, data: &[u8], mut f: impl FnMut(Result<T, IoE>, Option<usize>)) {
    let input = leak(data);
    let (v, n) = T::read_with_length_from_buffer_with_ctx(IoCtx(e), input);
    f(v, Some(n));
    f(T::read_from_buffer_with_ctx(IoCtx(e), input), None);
    if borrows::<T>() {
        return;
    }
    let (v, n) = T::read_with_length_from_buffer_copying_data_with_ctx(IoCtx(e), input);
    f(v, Some(n));
    f(T::read_from_buffer_copying_data_with_ctx(IoCtx(e), input), None);
}

pub fn c04<T: Swept>(v: &T, e: Endianness, r: &mut Random) {
    let data = encode(v, e);
    for k in cuts(data.len(), r) {
        from_memory::<T>(e, &data[..k], |result, length| {
            assert!(length.unwrap_or(0) <= k, "C04: no more than the input is consumed");
            if let Err(ref error) = result {
                assert!(too_short(error), "C04: input which ends too early is reported as such");
            }
        });
    }
    // A count of billions of elements which take no space is read one by one.
    if ["()", "Plains"].iter().any(|n| std::any::type_name::<T>().contains(n)) {
        return;
    }
    for _ in 0..if data.len() > 2000 { 3 } else { 12 } {
        let data = mutated(&data, r);
        from_memory::<T>(e, &data, |_, length| assert!(length.unwrap_or(0) <= data.len(), "C04: no more than the input is consumed"));
    }
}

/// As above, for types without defaults.
pub fn c04_strict<T: Swept>(v: &T, e: Endianness, r: &mut Random) {
    let data = encode(v, e);
    for k in cuts(data.len(), r) {
        from_memory::<T>(e, &data[..k], |result, _| assert!(result.is_err(), "C04: input which ends too early is an error"));
    }
    c04(v, e, r);
}

pub fn c05<T: Swept>(v: &T, e: Endianness, _: &mut Random) {
    let data = encode(v, e);
    let minimum = <T as Readable<'static, IoCtx>>::minimum_bytes_needed();
    assert!(minimum <= data.len(), "C05: the declared minimum is not more than the size of an encoding");
    if data.len() > 5000 {
        return;
    }
    from_memory::<T>(e, &data, |result, _| assert!(result.is_ok(), "C05: an encoding is not too short"));
    let mut two = encode(&2u32, e);
    two.extend_from_slice(&data);
    two.extend_from_slice(&data);
    from_memory::<Vec<T>>(e, &two, |result, _| assert!(result.is_ok(), "C05: an encoding is not too short as an element of a container"));
    from_memory::<Box<[T]>>(e, &two, |result, _| assert!(result.is_ok(), "C05: an encoding is not too short as an element of a container"));
    from_memory::<[T; 2]>(e, &two[4..], |result, _| assert!(result.is_ok(), "C05: an encoding is not too short as an element of an array"));
    from_memory::<(T, T)>(e, &two[4..], |result, _| assert!(result.is_ok(), "C05: an encoding is not too short as an element of a tuple"));
    let mut one = vec![1];
    one.extend_from_slice(&data);
    from_memory::<Option<T>>(e, &one, |result, _| assert!(result.is_ok(), "C05: an encoding is not too short as an optional"));
    from_memory::<Result<T, u8>>(e, &one, |result, _| assert!(result.is_ok(), "C05: an encoding is not too short as a result"));
    one.push(1);
    from_memory::<(u8, T, u8)>(e, &one, |result, _| assert!(result.is_ok(), "C05: an encoding is not too short before something else"));
}

/// The inputs which result in defaults are not too short either.
pub fn c05_zoo<T: Swept + Zoo>(v: &T, e: Endianness, r: &mut Random) {
    c05(v, e, r);
    let data = encode(v, e);
    let minimum = <T as Readable<'static, IoCtx>>::minimum_bytes_needed();
    for k in 0..data.len() {
        if let Some(expected) = v.truncated(k) {
            assert!(minimum <= k, "C05: the declared minimum is not more than what is accepted");
            from_memory::<T>(e, &data[..k], |result, _| match result {
                Ok(back) => assert!(expected.same(&back), "C05: an encoding of which the end has a default is not too short"),
                Err(_) => panic!("C05: an encoding of which the end has a default is not too short"),
            });
        }
    }
}

/// Memory against streams.
fn compare<T: Swept>(e: Endianness, data: &[u8], r: &mut Random) {
    let (expected, length) = T::read_with_length_from_buffer_with_ctx(IoCtx(e), leak(data));
    let n = data.len();
    every_reader::<T>(e, data, r, |reader, result, consumed| {
        match (&expected, &result) {
            (Ok(a), Ok(b)) => {
                assert!(a.same(b), "C08: {} results in the same value as memory", reader);
                assert!(consumed.unwrap_or(length) == length, "C08: unbuffered decoding takes exactly the bytes of the value");
            }
            (Err(a), Err(b)) => if too_short(a) {
                assert!(too_short(b) || n >= 4, "C08: a stream which ends too early results in an end-of-input error");
            },
            _ => panic!("C08: decoding from {} succeeds exactly if it does from memory", reader),
        }
    });
}

pub fn c08<T: Swept>(v: &T, e: Endianness, r: &mut Random) {
    let data = encode(v, e);
    compare::<T>(e, &data, r);
    if data.len() < 5000 {
        for k in cuts(data.len(), r) {
            compare::<T>(e, &data[..k], r);
        }
    }
}

pub fn c11<T: Swept>(v: &T, e: Endianness, _: &mut Random) {
    let data = encode(v, e);
    assert!(written(v, e) == data, "C11: every value is written in the requested byte order");
    // At every alignment.
    let mut buffer = vec![0; data.len() + 16];
    for offset in 0..if data.len() > 5000 { 3 } else { 9 } {
        buffer[offset..offset + data.len()].copy_from_slice(&data);
        from_memory::<T>(e, &buffer[offset..offset + data.len()], |result, _| match result {
            Ok(ref back) => assert!(v.same(back), "C11: every value is read in the requested byte order"),
            Err(error) => panic!("C11: a valid value is accepted: {:?}", error),
        });
    }
}

/// Fails once, at the given position; nothing may be requested afterwards.
struct Failing<'a> {
    ctx: IoCtx,
    data: &'a [u8],
    pos: usize,
    left: usize,
    failed: bool,
    out: Vec<u8>,
}
const FAILED: IoE = IoE(E { kind: Kind::Other, eof: false });
impl<'a> Failing<'a> {
    fn new(e: Endianness, data: &'a [u8], left: usize) -> Self {
        Failing { ctx: IoCtx(e), data, pos: 0, left, failed: false, out: Vec::new() }
    }
    fn request(&mut self, n: usize) -> Result<(), IoE> {
        assert!(!self.failed, "C12: nothing is requested after an error");
        if n > self.left {
            self.failed = true;
            return Err(FAILED);
        }
        self.left -= n;
        Ok(())
    }
}
impl<'a> Reader<'a, IoCtx> for Failing<'a> {
    fn read_bytes(&mut self, output: &mut [u8]) -> Result<(), IoE> {
        self.request(output.len())?;
        output.copy_from_slice(&self.data[self.pos..self.pos + output.len()]);
        self.pos += output.len();
        Ok(())
    }
    fn peek_bytes(&mut self, output: &mut [u8]) -> Result<(), IoE> {
        self.request(output.len())?;
        self.left += output.len();
        output.copy_from_slice(&self.data[self.pos..self.pos + output.len()]);
        Ok(())
    }
    fn context(&self) -> &IoCtx { &self.ctx }
    fn context_mut(&mut self) -> &mut IoCtx { &mut self.ctx }
}
impl<'a> Writer<IoCtx> for Failing<'a> {
    fn write_bytes(&mut self, slice: &[u8]) -> Result<(), IoE> {
        self.request(slice.len())?;
        self.out.extend_from_slice(slice);
        Ok(())
    }
    fn context(&self) -> &IoCtx { &self.ctx }
    fn context_mut(&mut self) -> &mut IoCtx { &mut self.ctx }
}

pub fn c12<T: Swept>(v: &T, e: Endianness, r: &mut Random) {
    let data = encode(v, e);
    for k in cuts(data.len(), r) {
        let mut writer = Failing::new(e, &[], k);
        match v.write_to(&mut writer) {
            Ok(()) => panic!("C12: an error while writing is returned"),
            Err(error) => assert!(error == FAILED, "C12: the error which stopped the write is returned"),
        }
        assert!(data.starts_with(&writer.out), "C12: what was written before the error is the beginning of the encoding");
        if borrows::<T>() {
            continue;
        }
        let mut reader = Failing::new(e, leak(&data), k);
        match T::read_from(&mut reader) {
            Ok(_) => panic!("C12: an error while reading is returned"),
            Err(error) => assert!(error == FAILED, "C12: the error which stopped the read is returned"),
        }
    }
}

pub fn c13<T: Swept + Zoo>(v: &T, e: Endianness, r: &mut Random) {
    let data = encode(v, e);
    assert!(written(v, e) == data, "C13: the documented layout is written");
    assert!(Writable::<IoCtx>::bytes_needed(v).ok() == Some(data.len()), "C13: exactly the documented bytes are written");
    let n = data.len();
    let mut more = data.clone();
    more.extend((0..9).map(|_| r.next() as u8));
    from_memory::<T>(e, &more, |result, length| {
        match result {
            Ok(ref back) => assert!(v.same(back), "C13: the documented layout is read as the value it encodes"),
            Err(error) => panic!("C13: the documented layout is accepted: {:?}", error),
        }
        assert!(length.unwrap_or(n) == n, "C13: exactly the documented layout is consumed");
    });
    // Where a field is cut off in the middle, what it consumes depends on the kind of reader.
    let partly = ["EofAll", "Combined", "Arrays"].iter().any(|n| std::any::type_name::<T>().contains(n));
    for k in if n > 400 { cuts(n, r) } else { (0..n).collect() } {
        from_memory::<T>(e, &data[..k], |result, _| match (v.truncated(k), result) {
            (Some(expected), Ok(back)) => assert!(expected.same(&back), "C13: a field cut off by the end of the input has its default, everything before it the value encoded"),
            (Some(_), Err(_)) => panic!("C13: the end of the input is ignored for fields marked as such"),
            (None, Ok(_)) if partly => {}
            (None, Ok(_)) => panic!("C13: only fields marked as such have a default at the end of the input"),
            (None, Err(error)) => assert!(too_short(&error), "C13: input which ends too early is reported as such"),
        });
    }
}

/// Takes a few bytes at a time and fails at some point.
struct Slow<'a> {
    out: Vec<u8>,
    most: usize,
    left: usize,
    kind: Option<io::ErrorKind>,
    r: &'a mut Random,
}
impl<'a> io::Write for Slow<'a> {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        if self.r.below(8) == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = data.len().min(1 + self.r.below(self.most)).min(self.left);
        if n == 0 && !data.is_empty() {
            return match self.kind {
                Some(kind) => Err(kind.into()),
                None => Ok(0),
            };
        }
        self.left -= n;
        self.out.extend_from_slice(&data[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub fn c15<T: Swept>(v: &T, e: Endianness, r: &mut Random) {
    let expected = encode(v, e);
    for most in [3, 1000, usize::MAX / 2] {
        if most < 10 && expected.len() > 5000 {
            continue;
        }
        let mut stream = Slow { out: Vec::new(), most, left: usize::MAX, kind: None, r };
        assert!(v.write_to_stream_with_ctx(e, &mut stream).is_ok(), "C15: a stream which takes everything is written to");
        assert!(stream.out == expected, "C15: the stream received exactly the bytes of the value");
        for k in cuts(expected.len(), r).into_iter().rev().take(4) {
            for kind in [Some(io::ErrorKind::BrokenPipe), Some(io::ErrorKind::Other), None] {
                let mut stream = Slow { out: Vec::new(), most, left: k, kind, r };
                match v.write_to_stream_with_ctx(e, &mut stream) {
                    Ok(()) => panic!("C15: an error of the stream is returned"),
                    Err(error) => {
                        let error: io::Error = error.into();
                        assert!(error.kind() == kind.unwrap_or(io::ErrorKind::WriteZero), "C15: the error of the stream is returned");
                    }
                }
                assert!(expected[..k] == stream.out[..], "C15: the stream received the beginning of the value");
            }
        }
    }
}
