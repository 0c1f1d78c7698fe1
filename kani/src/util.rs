//! Generators of arbitrary values (`Gen`) and structural equality (`Same`, floats by bit pattern).

use crate::nd;
use speedy::Endianness;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

/// Arbitrary values, split into `SHAPES` concrete shapes (container lengths, enum variants) so that the verifier only
/// ever sees concrete lengths; scalars stay symbolic. Every harness goes through every shape.
pub trait Gen: Sized {
    const SHAPES: usize;
    fn gen(shape: usize) -> Self;
}

pub trait Same {
    fn same(&self, other: &Self) -> bool;
}

/// A value of a type which only has a single shape.
#[inline(always)]
pub fn gen<T: Gen>() -> T {
    T::gen(0)
}

macro_rules! gen_any {
    ($($t:ty),*) => { $(
        impl Gen for $t {
            const SHAPES: usize = 1;
            #[inline(always)]
            fn gen(_: usize) -> Self { nd::any() }
        }
    )* }
}
gen_any!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, f32, f64, bool);

macro_rules! same_eq {
    ($($t:ty),*) => { $(
        impl Same for $t {
            #[inline(always)]
            fn same(&self, other: &Self) -> bool { *self == *other }
        }
    )* }
}
same_eq!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, bool, char, (), Endianness);

impl<T: Same + ?Sized> Same for &T {
    fn same(&self, other: &Self) -> bool { (**self).same(&**other) }
}

impl Same for f32 {
    fn same(&self, other: &Self) -> bool { self.to_bits() == other.to_bits() }
}

impl Same for f64 {
    fn same(&self, other: &Self) -> bool { self.to_bits() == other.to_bits() }
}

impl Gen for () {
    const SHAPES: usize = 1;
    fn gen(_: usize) {}
}

impl Gen for char {
    const SHAPES: usize = 1;
    fn gen(_: usize) -> Self {
        let v: u32 = nd::any();
        nd::assume(v < 0xD800 || (v > 0xDFFF && v < 0x110000));
        char::from_u32(v).unwrap()
    }
}

impl Gen for Endianness {
    const SHAPES: usize = 1;
    fn gen(_: usize) -> Self { nd::endianness() }
}

impl<T: Gen> Gen for Vec<T> {
    // Lengths 0 to 2.
    const SHAPES: usize = 1 + T::SHAPES + T::SHAPES * T::SHAPES;
    fn gen(shape: usize) -> Self {
        if shape == 0 {
            Vec::new()
        } else if shape <= T::SHAPES {
            vec![T::gen(shape - 1)]
        } else {
            let shape = shape - 1 - T::SHAPES;
            vec![T::gen(shape % T::SHAPES), T::gen(shape / T::SHAPES)]
        }
    }
}

impl<T: Same> Same for [T] {
    fn same(&self, other: &Self) -> bool {
        if self.len() != other.len() {
            return false;
        }
        let mut i = 0;
        while i < self.len() {
            if !self[i].same(&other[i]) {
                return false;
            }
            i += 1;
        }
        true
    }
}

impl<T: Same> Same for Vec<T> {
    fn same(&self, other: &Self) -> bool { self.as_slice().same(other.as_slice()) }
}

impl<T: Gen> Gen for Box<T> {
    const SHAPES: usize = T::SHAPES;
    fn gen(shape: usize) -> Self { Box::new(T::gen(shape)) }
}

impl<T: Gen> Gen for Box<[T]> {
    const SHAPES: usize = <Vec<T> as Gen>::SHAPES;
    fn gen(shape: usize) -> Self { Vec::gen(shape).into_boxed_slice() }
}

impl<T: Same + ?Sized> Same for Box<T> {
    fn same(&self, other: &Self) -> bool { (**self).same(&**other) }
}

fn ascii() -> u8 {
    let c: u8 = nd::any();
    nd::assume(c < 0x80);
    c
}

fn cont(c: u32) -> u8 {
    0x80 | (c & 0x3f) as u8
}

impl Gen for String {
    // Empty, and a single character of each UTF-8 length; and two ASCII characters.
    const SHAPES: usize = 6;
    fn gen(shape: usize) -> Self {
        let bytes: Vec<u8> = match shape {
            0 => vec![],
            1 => vec![ascii()],
            2 => {
                let c: u32 = nd::any();
                nd::assume(c >= 0x80 && c < 0x800);
                vec![0xC0 | (c >> 6) as u8, cont(c)]
            }
            3 => {
                let c: u32 = nd::any();
                nd::assume(c >= 0x800 && c < 0x10000 && !(c >= 0xD800 && c <= 0xDFFF));
                vec![0xE0 | (c >> 12) as u8, cont(c >> 6), cont(c)]
            }
            4 => {
                let c: u32 = nd::any();
                nd::assume(c >= 0x10000 && c < 0x110000);
                vec![0xF0 | (c >> 18) as u8, cont(c >> 12), cont(c >> 6), cont(c)]
            }
            _ => vec![ascii(), ascii()],
        };
        // The bytes above are valid UTF-8 by construction.
        unsafe { String::from_utf8_unchecked(bytes) }
    }
}

impl Gen for Box<str> {
    const SHAPES: usize = String::SHAPES;
    fn gen(shape: usize) -> Self { String::gen(shape).into_boxed_str() }
}

impl Same for str {
    fn same(&self, other: &Self) -> bool { self.as_bytes().same(other.as_bytes()) }
}

impl Same for String {
    fn same(&self, other: &Self) -> bool { self.as_bytes().same(other.as_bytes()) }
}

impl<T: ToOwned + ?Sized> Gen for Cow<'static, T> where T::Owned: Gen {
    const SHAPES: usize = T::Owned::SHAPES;
    fn gen(shape: usize) -> Self { Cow::Owned(T::Owned::gen(shape)) }
}

impl<'a, T: ToOwned + Same + ?Sized> Same for Cow<'a, T> {
    fn same(&self, other: &Self) -> bool { (**self).same(&**other) }
}

impl<T: Gen, const N: usize> Gen for [T; N] {
    const SHAPES: usize = T::SHAPES.pow(N as u32);
    fn gen(mut shape: usize) -> Self {
        std::array::from_fn(|_| {
            let s = shape % T::SHAPES;
            shape /= T::SHAPES;
            T::gen(s)
        })
    }
}

impl<T: Same, const N: usize> Same for [T; N] {
    fn same(&self, other: &Self) -> bool { self[..].same(&other[..]) }
}

impl<T: Gen> Gen for Option<T> {
    const SHAPES: usize = 1 + T::SHAPES;
    fn gen(shape: usize) -> Self { if shape == 0 { None } else { Some(T::gen(shape - 1)) } }
}

impl<T: Same> Same for Option<T> {
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}

impl<T: Gen, E: Gen> Gen for Result<T, E> {
    const SHAPES: usize = T::SHAPES + E::SHAPES;
    fn gen(shape: usize) -> Self { if shape < T::SHAPES { Ok(T::gen(shape)) } else { Err(E::gen(shape - T::SHAPES)) } }
}

impl<T: Same, E: Same> Same for Result<T, E> {
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
}

impl<T: Gen> Gen for std::ops::Range<T> {
    const SHAPES: usize = T::SHAPES * T::SHAPES;
    fn gen(shape: usize) -> Self { T::gen(shape % T::SHAPES)..T::gen(shape / T::SHAPES) }
}

impl<T: Same> Same for std::ops::Range<T> {
    fn same(&self, other: &Self) -> bool { self.start.same(&other.start) && self.end.same(&other.end) }
}

impl<T: Gen> Gen for std::ops::RangeInclusive<T> {
    const SHAPES: usize = T::SHAPES * T::SHAPES;
    fn gen(shape: usize) -> Self { T::gen(shape % T::SHAPES)..=T::gen(shape / T::SHAPES) }
}

impl<T: Same> Same for std::ops::RangeInclusive<T> {
    fn same(&self, other: &Self) -> bool { self.start().same(other.start()) && self.end().same(other.end()) }
}

macro_rules! tuple {
    ($($n:ident $i:tt),+) => {
        impl<$($n: Gen),+> Gen for ($($n,)+) {
            const SHAPES: usize = 1 $( * $n::SHAPES )+;
            #[allow(unused_assignments)]
            fn gen(mut shape: usize) -> Self {
                ($({
                    let s = shape % $n::SHAPES;
                    shape /= $n::SHAPES;
                    $n::gen(s)
                },)+)
            }
        }

        impl<$($n: Same),+> Same for ($($n,)+) {
            fn same(&self, other: &Self) -> bool {
                true $( && self.$i.same(&other.$i) )+
            }
        }
    }
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, F 4);
tuple!(A 0, B 1, C 2, D 3, F 4, G 5);
tuple!(A 0, B 1, C 2, D 3, F 4, G 5, H 6);
tuple!(A 0, B 1, C 2, D 3, F 4, G 5, H 6, I 7);
tuple!(A 0, B 1, C 2, D 3, F 4, G 5, H 6, I 7, J 8);
tuple!(A 0, B 1, C 2, D 3, F 4, G 5, H 6, I 7, J 8, K 9);
tuple!(A 0, B 1, C 2, D 3, F 4, G 5, H 6, I 7, J 8, K 9, L 10);

macro_rules! nonzero {
    ($($t:ident $p:ty),*) => { $(
        impl Gen for std::num::$t {
            const SHAPES: usize = 1;
            fn gen(_: usize) -> Self {
                let v: $p = nd::any();
                nd::assume(v != 0);
                std::num::$t::new(v).unwrap()
            }
        }
        same_eq!(std::num::$t);
    )* }
}
nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64);

macro_rules! atomic {
    ($($t:ident $p:ty),*) => { $(
        impl Gen for std::sync::atomic::$t {
            const SHAPES: usize = 1;
            fn gen(_: usize) -> Self { std::sync::atomic::$t::new(nd::any()) }
        }
        impl Same for std::sync::atomic::$t {
            fn same(&self, other: &Self) -> bool {
                use std::sync::atomic::Ordering::SeqCst;
                self.load(SeqCst) == other.load(SeqCst)
            }
        }
    )* }
}
atomic!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);

impl Gen for std::net::Ipv4Addr {
    const SHAPES: usize = 1;
    fn gen(_: usize) -> Self { nd::any::<[u8; 4]>().into() }
}
impl Same for std::net::Ipv4Addr {
    fn same(&self, other: &Self) -> bool { self.octets().same(&other.octets()) }
}
impl Gen for std::net::Ipv6Addr {
    const SHAPES: usize = 1;
    fn gen(_: usize) -> Self { nd::any::<[u8; 16]>().into() }
}
impl Same for std::net::Ipv6Addr {
    fn same(&self, other: &Self) -> bool { self.octets().same(&other.octets()) }
}
impl Gen for std::net::IpAddr {
    const SHAPES: usize = 2;
    fn gen(shape: usize) -> Self {
        if shape == 0 { std::net::IpAddr::V4(gen()) } else { std::net::IpAddr::V6(gen()) }
    }
}
impl Same for std::net::IpAddr {
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (std::net::IpAddr::V4(a), std::net::IpAddr::V4(b)) => a.same(b),
            (std::net::IpAddr::V6(a), std::net::IpAddr::V6(b)) => a.same(b),
            _ => false,
        }
    }
}
impl Gen for std::time::Duration {
    const SHAPES: usize = 1;
    fn gen(_: usize) -> Self {
        let n: u32 = nd::any();
        nd::assume(n < 1_000_000_000);
        std::time::Duration::new(nd::any(), n)
    }
}
same_eq!(std::time::Duration);
impl Gen for std::time::SystemTime {
    const SHAPES: usize = 1;
    fn gen(_: usize) -> Self {
        let s: u64 = nd::any();
        nd::assume(s < i64::MAX as u64);
        let n: u32 = nd::any();
        nd::assume(n < 1_000_000_000);
        std::time::UNIX_EPOCH + std::time::Duration::new(s, n)
    }
}
same_eq!(std::time::SystemTime);

impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    const SHAPES: usize = 3;
    fn gen(n: usize) -> Self {
        let mut m = BTreeMap::new();
        if n > 0 {
            m.insert(gen(), gen());
        }
        if n > 1 {
            m.insert(gen(), gen());
        }
        m
    }
}
impl<K: Same, V: Same> Same for BTreeMap<K, V> {
    fn same(&self, other: &Self) -> bool {
        let mut a = self.iter();
        let mut b = other.iter();
        loop {
            match (a.next(), b.next()) {
                (None, None) => return true,
                (Some(a), Some(b)) => {
                    if !a.0.same(b.0) || !a.1.same(b.1) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    const SHAPES: usize = 3;
    fn gen(n: usize) -> Self {
        let mut m = BTreeSet::new();
        if n > 0 {
            m.insert(gen());
        }
        if n > 1 {
            m.insert(gen());
        }
        m
    }
}
impl<T: Same> Same for BTreeSet<T> {
    fn same(&self, other: &Self) -> bool {
        let mut a = self.iter();
        let mut b = other.iter();
        loop {
            match (a.next(), b.next()) {
                (None, None) => return true,
                (Some(a), Some(b)) => {
                    if !a.same(b) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
    }
}

/// A trivial hasher; keeps hash tables tractable for the verifier.
#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*b as u64);
        }
    }
    fn write_u8(&mut self, v: u8) { self.0 = v as u64 }
    fn write_u16(&mut self, v: u16) { self.0 = v as u64 }
    fn write_u32(&mut self, v: u32) { self.0 = v as u64 }
}
pub type Bh = BuildHasherDefault<IdHasher>;

macro_rules! table {
    ($t:ty, $m:ident $insert:expr) => {
        impl Gen for $t {
            const SHAPES: usize = 3;
            fn gen(n: usize) -> Self {
                let mut $m = <$t>::default();
                if n > 0 {
                    $insert;
                }
                if n > 1 {
                    $insert;
                }
                $m
            }
        }
    };
}
table!(HashMap<u8, u16, Bh>, m m.insert(gen(), gen()));
table!(HashSet<u16, Bh>, m m.insert(gen()));

impl<K: Hash + Eq, V: Same, S: BuildHasher> Same for HashMap<K, V, S> {
    fn same(&self, other: &Self) -> bool { self.len() == other.len() && self.iter().all(|(k, v)| other.get(k).map(|w| v.same(w)).unwrap_or(false)) }
}
impl<T: Hash + Eq, S: BuildHasher> Same for HashSet<T, S> {
    fn same(&self, other: &Self) -> bool { self.len() == other.len() && self.iter().all(|k| other.contains(k)) }
}

/// Compares `a[..]` and `b[..]` at an arbitrary index, i.e. at every index.
macro_rules! assert_same_bytes {
    ($a:expr, $b:expr, $n:expr, $msg:literal) => {
        if $n > 0 {
            let i = crate::nd::idx($n);
            assert!($a[i] == $b[i], $msg);
        }
    };
}
