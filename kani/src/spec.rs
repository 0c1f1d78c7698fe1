//! The documented wire format (README.md), written independently of the code under test.

use speedy::Endianness;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// A fixed-capacity byte sink, cheap for the verifier.
pub struct Out<const N: usize> {
    pub d: [u8; N],
    pub n: usize,
}

pub trait Sink {
    fn put(&mut self, b: u8);
}

impl<const N: usize> Sink for Out<N> {
    #[inline(always)]
    fn put(&mut self, b: u8) {
        self.d[self.n] = b;
        self.n += 1;
    }
}

/// Writes the encoding of `self` in byte order `e`.
pub trait Spec {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S);
}

macro_rules! spec_int {
    ($($t:ty, $n:literal);*) => { $(
        impl Spec for $t {
            fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
                let v = *self;
                let mut i: u32 = 0;
                while i < $n {
                    let shift = if e == Endianness::LittleEndian { i * 8 } else { ($n - 1 - i) * 8 };
                    out.put((v >> shift) as u8);
                    i += 1;
                }
            }
        }
    )* }
}

spec_int!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; i8, 1; i16, 2; i32, 4; i64, 8; i128, 16);

pub fn put_len<S: Sink>(n: usize, e: Endianness, out: &mut S) {
    (n as u32).spec(e, out)
}

impl Spec for usize {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        (*self as u64).spec(e, out)
    }
}

impl Spec for f32 {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.to_bits().spec(e, out)
    }
}

impl Spec for f64 {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.to_bits().spec(e, out)
    }
}

impl Spec for bool {
    fn spec<S: Sink>(&self, _: Endianness, out: &mut S) {
        out.put(*self as u8)
    }
}

impl Spec for char {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        (*self as u32).spec(e, out)
    }
}

impl Spec for () {
    fn spec<S: Sink>(&self, _: Endianness, _: &mut S) {}
}

impl Spec for Endianness {
    fn spec<S: Sink>(&self, _: Endianness, out: &mut S) {
        out.put(match *self {
            Endianness::LittleEndian => 0,
            Endianness::BigEndian => 1,
        })
    }
}

impl<T: Spec> Spec for [T] {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        put_len(self.len(), e, out);
        for v in self {
            v.spec(e, out);
        }
    }
}

impl Spec for str {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.as_bytes().spec(e, out)
    }
}

impl Spec for String {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.as_bytes().spec(e, out)
    }
}

impl<T: Spec> Spec for Vec<T> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.as_slice().spec(e, out)
    }
}

impl<T: Spec + ?Sized> Spec for Box<T> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        (**self).spec(e, out)
    }
}

impl<'a, T: Spec + ?Sized> Spec for &'a T {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        (**self).spec(e, out)
    }
}

impl<'a, T: Spec + ToOwned + ?Sized> Spec for Cow<'a, T> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        (**self).spec(e, out)
    }
}

impl<T: Spec, const N: usize> Spec for [T; N] {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        for v in self {
            v.spec(e, out);
        }
    }
}

impl<T: Spec> Spec for Option<T> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        match self {
            Some(v) => {
                out.put(1);
                v.spec(e, out);
            }
            None => out.put(0),
        }
    }
}

impl<T: Spec, E: Spec> Spec for Result<T, E> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        match self {
            Ok(v) => {
                out.put(1);
                v.spec(e, out);
            }
            Err(v) => {
                out.put(0);
                v.spec(e, out);
            }
        }
    }
}

impl<T: Spec> Spec for std::ops::Range<T> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.start.spec(e, out);
        self.end.spec(e, out);
    }
}

impl<T: Spec> Spec for std::ops::RangeInclusive<T> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.start().spec(e, out);
        self.end().spec(e, out);
    }
}

impl<K: Spec, V: Spec> Spec for BTreeMap<K, V> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        put_len(self.len(), e, out);
        for (k, v) in self {
            k.spec(e, out);
            v.spec(e, out);
        }
    }
}

impl<T: Spec> Spec for BTreeSet<T> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        put_len(self.len(), e, out);
        for v in self {
            v.spec(e, out);
        }
    }
}

impl<K: Spec, V: Spec, H> Spec for HashMap<K, V, H> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        put_len(self.len(), e, out);
        for (k, v) in self {
            k.spec(e, out);
            v.spec(e, out);
        }
    }
}

impl<T: Spec, H> Spec for HashSet<T, H> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        put_len(self.len(), e, out);
        for v in self {
            v.spec(e, out);
        }
    }
}

macro_rules! spec_tuple {
    ($($n:ident),+) => {
        #[allow(non_snake_case)]
        impl<$($n: Spec),+> Spec for ($($n,)+) {
            fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
                let ($($n,)+) = self;
                $( $n.spec(e, out); )+
            }
        }
    }
}

spec_tuple!(A);
spec_tuple!(A, B);
spec_tuple!(A, B, C);
spec_tuple!(A, B, C, D);
spec_tuple!(A, B, C, D, F);
spec_tuple!(A, B, C, D, F, G);
spec_tuple!(A, B, C, D, F, G, H);
spec_tuple!(A, B, C, D, F, G, H, I);
spec_tuple!(A, B, C, D, F, G, H, I, J);
spec_tuple!(A, B, C, D, F, G, H, I, J, K);
spec_tuple!(A, B, C, D, F, G, H, I, J, K, L);

macro_rules! spec_nonzero {
    ($($t:ident),*) => { $(
        impl Spec for std::num::$t {
            fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
                self.get().spec(e, out)
            }
        }
    )* }
}
spec_nonzero!(NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64);

macro_rules! spec_atomic {
    ($($t:ident),*) => { $(
        impl Spec for std::sync::atomic::$t {
            fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
                self.load(std::sync::atomic::Ordering::SeqCst).spec(e, out)
            }
        }
    )* }
}
spec_atomic!(AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicI8, AtomicI16, AtomicI32, AtomicI64);

impl Spec for std::net::Ipv4Addr {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        let o = self.octets();
        ((o[0] as u32) << 24 | (o[1] as u32) << 16 | (o[2] as u32) << 8 | o[3] as u32).spec(e, out)
    }
}

impl Spec for std::net::Ipv6Addr {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        // A `u128` whose most significant byte is the first octet.
        let o = self.octets();
        let mut i = 0;
        while i < 16 {
            out.put(if e == Endianness::BigEndian { o[i] } else { o[15 - i] });
            i += 1;
        }
    }
}

impl Spec for std::net::IpAddr {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        match self {
            std::net::IpAddr::V4(a) => {
                out.put(0);
                a.spec(e, out);
            }
            std::net::IpAddr::V6(a) => {
                out.put(1);
                a.spec(e, out);
            }
        }
    }
}

impl Spec for std::time::Duration {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.as_secs().spec(e, out);
        self.subsec_nanos().spec(e, out);
    }
}

impl Spec for std::time::SystemTime {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        self.duration_since(std::time::UNIX_EPOCH).unwrap().spec(e, out)
    }
}

/// The varint layout documented in `src/varint.rs`.
pub fn put_varint<S: Sink>(v: u64, out: &mut S) {
    // The smallest number of extra bytes `x` such that the value fits in 7 * (x + 1) bits (64 bits for x = 8).
    let mut x: u32 = 0;
    while x < 8 && (v >> (7 * (x + 1))) != 0 {
        x += 1;
    }
    if x == 8 {
        out.put(0xff);
    } else {
        let ones = !(0xffu32 >> x) as u8;
        out.put(ones | (v >> (8 * x)) as u8);
    }
    let mut i = 0;
    while i < x {
        out.put((v >> (8 * i)) as u8);
        i += 1;
    }
}
