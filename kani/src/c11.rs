//! C11: bulk fast paths equal element-by-element processing.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::spec::*;
use crate::types::*;
use crate::util::*;
use crate::zoo::*;
use speedy::{Endianness, Readable, Reader, Writable, Writer};

/// Plain-data types, which are copied as a whole where possible.
#[derive(Copy, Clone, Readable, Writable)]
#[repr(packed)]
pub struct Packed {
    pub a: u8,
    pub b: u32,
    pub c: u16,
}
impl Gen for Packed {
    const SHAPES: usize = 1;
    fn gen(_: usize) -> Self { Packed { a: nd::any(), b: nd::any(), c: nd::any() } }
}
impl Same for Packed {
    fn same(&self, o: &Self) -> bool {
        let (a, b, c) = (self.a, self.b, self.c);
        let (d, e, f) = (o.a, o.b, o.c);
        a == d && b == e && c == f
    }
}
impl Spec for Packed {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        let (a, b, c) = (self.a, self.b, self.c);
        a.spec(e, out);
        b.spec(e, out);
        c.spec(e, out);
    }
}

macro_rules! plain_data {
    ($(#[$m:meta])* $t:ident { $($f:tt : $ft:ty),* }) => {
        #[derive(Copy, Clone, Readable, Writable)]
        $(#[$m])*
        pub struct $t { $(pub $f: $ft),* }
        impl Gen for $t {
            const SHAPES: usize = 1;
            fn gen(_: usize) -> Self { $t { $($f: gen()),* } }
        }
        impl Same for $t {
            fn same(&self, o: &Self) -> bool { true $(&& self.$f.same(&o.$f))* }
        }
        impl Spec for $t {
            fn spec<S: Sink>(&self, e: Endianness, out: &mut S) { $(self.$f.spec(e, out);)* }
        }
    };
}
// The compiler is free to reorder these fields.
plain_data!(Reordered { a: u8, b: u32, c: u16, d: u8 });
plain_data!(Ordered { a: u32, b: u16, c: u16 });
plain_data!(Opposite { a: u16, b: u16, c: u32 });
plain_data!(#[repr(C)] C { a: u8, b: u8, c: u16 });
plain_data!(#[repr(C)] Nested { a: Plain, b: C });
plain_data!(#[repr(C)] PaddedInside { a: Padded, b: u16 });
plain_data!(#[repr(C)] PaddedEnd { a: u32, b: u8 });
plain_data!(#[repr(C)] WithArray { a: [u8; 2], b: u16 });
plain_data!(#[repr(C)] WithFloat { a: f32, b: f32 });
plain_data!(#[repr(C)] WithBool { a: bool, b: u8 });
plain_data!(#[repr(C)] WithChar { a: char });
plain_data!(Many { a: u8, b: u8, c: u8, d: u8, e: u8 });
plain_data!(#[repr(C, align(8))] Aligned { a: u32, b: u16 });
plain_data!(#[repr(transparent)] TransparentBool { a: bool });
plain_data!(#[repr(transparent)] TransparentNested { a: Plain });
plain_data!(#[repr(C)] Big { a: u64, b: u64 });

#[inline(always)]
fn write<const N: usize, const L: usize, T: Gen + Spec + Writable<Ctx>>(e: Endianness) {
    let v: [T; L] = std::array::from_fn(|_| gen());
    let mut each = Dst::<N>::new(e);
    let mut i = 0;
    while i < L {
        assert!(each.write_value(&v[i]).is_ok());
        i += 1;
    }
    let mut out = Out::<N> { d: [0; N], n: 0 };
    elements(&v, e, &mut out);
    assert!(out.n == each.n, "C11: an element has its documented size");
    assert_same_bytes!(out.d, each.d, N, "C11: an element is written as documented");

    let mut bulk = Dst::<N>::new(e);
    assert!(bulk.write_slice(&v).is_ok());
    assert!(bulk.n == each.n, "C11: a slice has the size of its elements");
    assert_same_bytes!(bulk.d, each.d, N, "C11: a slice is written like each of its elements");

    let mut collection = Dst::<N>::new(e);
    assert!(collection.write_collection(v.iter()).is_ok());
    assert!(collection.n == each.n, "C11: a collection has the size of its elements");
    assert_same_bytes!(collection.d, each.d, N, "C11: a collection is written like each of its elements");

    let mut array = Dst::<N>::new(e);
    assert!(v.write_to(&mut array).is_ok());
    assert!(array.n == each.n, "C11: an array has the size of its elements");
    assert_same_bytes!(array.d, each.d, N, "C11: an array is written like each of its elements");
    match v.bytes_needed() {
        Ok(n) => assert!(n == each.n, "C11: the size of an array is the size of its elements"),
        Err(_) => panic!("C11: the size of an array is the size of its elements"),
    }
}

/// The first `L` elements of the input, one by one; the position of the failure if there are not enough.
#[inline(always)]
fn each<const L: usize, T: Readable<'static, Ctx>>(e: Endianness, input: &'static [u8]) -> (Result<[Option<T>; L], E>, usize) {
    let mut reader = Src::<STREAM>::new(e, input);
    let mut v: [Option<T>; L] = std::array::from_fn(|_| None);
    let mut i = 0;
    while i < L {
        match reader.read_value::<T>() {
            Ok(x) => v[i] = Some(x),
            Err(error) => return (Err(error), reader.pos),
        }
        i += 1;
    }
    (Ok(v), reader.pos)
}

#[inline(always)]
fn compare<const L: usize, T: Same>(actual: Result<&[T], E>, expected: &Result<[Option<T>; L], E>) {
    match (actual, expected) {
        (Ok(a), Ok(b)) => {
            assert!(a.len() == L, "C11: as many elements are read as were asked for");
            let mut i = 0;
            while i < L {
                match &b[i] {
                    Some(b) => assert!(a[i].same(b), "C11: an element read with others equals the element read alone"),
                    None => unreachable!(),
                }
                i += 1;
            }
        }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(_)) => panic!("C11: reading many elements fails if reading each of them does"),
        (Err(_), Ok(_)) => panic!("C11: reading many elements succeeds if reading each of them does"),
    }
}

#[repr(align(16))]
struct Align<const N: usize>([u8; N]);

/// Reads `L` elements from the `n` bytes at an offset (i.e. with an arbitrary alignment).
#[inline(always)]
fn read<const KIND: u8, const N: usize, const L: usize, T: Same + Clone + Readable<'static, Ctx> + 'static>(e: Endianness, offset: usize, n: usize) {
    let data: Align<N> = Align(nd::any());
    let input = nd::forever(&data.0[offset..offset + n]);
    let (expected, pos) = each::<L, T>(e, input);

    let mut reader = Src::<KIND>::new(e, input);
    let v = reader.read_vec::<T>(L);
    compare(v.as_deref().map_err(|e| *e), &expected);
    assert!(v.is_err() || reader.pos == pos, "C11: reading a vector consumes the elements");
    std::mem::forget(v);

    let mut reader = Src::<KIND>::new(e, input);
    let v = reader.read_cow::<T>(L);
    match &v {
        Ok(v) => compare(Ok(&v[..]), &expected),
        Err(error) => compare(Err(*error), &expected),
    }
    assert!(v.is_err() || reader.pos == pos, "C11: reading a slice consumes the elements");
    std::mem::forget(v);

    let mut reader = Src::<KIND>::new(e, input);
    let v = <[T; L] as Readable<'static, Ctx>>::read_from(&mut reader);
    match &v {
        Ok(v) => compare(Ok(&v[..]), &expected),
        Err(error) => compare(Err(*error), &expected),
    }
    assert!(v.is_err() || reader.pos == pos, "C11: reading an array consumes the elements");
    std::mem::forget((v, expected));
}

#[inline(always)]
fn collection<const KIND: u8, const N: usize, const L: usize, T: Same + Readable<'static, Ctx>>(e: Endianness, offset: usize, n: usize) {
    let data: Align<N> = Align(nd::any());
    let input = nd::forever(&data.0[offset..offset + n]);
    let (expected, pos) = each::<L, T>(e, input);
    let mut reader = Src::<KIND>::new(e, input);
    let v = reader.read_collection::<T, Vec<T>>(L);
    compare(v.as_deref().map_err(|e| *e), &expected);
    assert!(v.is_err() || reader.pos == pos, "C11: reading a collection consumes the elements");
    std::mem::forget((v, expected));
}

#[inline(always)]
fn map<const KIND: u8, const N: usize, const L: usize, K: Same + Readable<'static, Ctx>, V: Same + Readable<'static, Ctx>>(e: Endianness, offset: usize, n: usize) {
    let data: Align<N> = Align(nd::any());
    let input = nd::forever(&data.0[offset..offset + n]);
    let (expected, pos) = each::<L, (K, V)>(e, input);
    let mut reader = Src::<KIND>::new(e, input);
    let v = reader.read_key_value_collection::<K, V, Vec<(K, V)>>(L);
    compare(v.as_deref().map_err(|e| *e), &expected);
    assert!(v.is_err() || reader.pos == pos, "C11: reading a map consumes the elements");
    std::mem::forget((v, expected));
}

/// Two elements of `S` bytes each: exactly enough input, more, and one byte less; aligned and not.
macro_rules! native {
    ($f:ident, $s:literal, $($t:ty),+) => { {
        const N: usize = 2 * $s + 3;
        $f::<BORROWING, N, 2, $($t),+>(Endianness::LittleEndian, 1, 2 * $s + 1);
        $f::<STREAM, N, 2, $($t),+>(Endianness::LittleEndian, 0, 2 * $s + 1);
        if cfg!(feature = "thorough") {
            $f::<BORROWING, N, 2, $($t),+>(Endianness::LittleEndian, 0, 2 * $s);
            $f::<BORROWING, N, 2, $($t),+>(Endianness::LittleEndian, 2, 2 * $s);
            $f::<BORROWING, N, 2, $($t),+>(Endianness::LittleEndian, 0, 2 * $s - 1);
            $f::<COPYING, N, 2, $($t),+>(Endianness::LittleEndian, 1, 2 * $s);
            $f::<STREAM, N, 2, $($t),+>(Endianness::LittleEndian, 0, 2 * $s - 1);
        }
    } };
}

macro_rules! swapped {
    ($f:ident, $s:literal, $($t:ty),+) => { {
        const N: usize = 2 * $s + 3;
        $f::<BORROWING, N, 2, $($t),+>(Endianness::BigEndian, 0, 2 * $s);
        $f::<STREAM, N, 2, $($t),+>(Endianness::BigEndian, 0, 2 * $s - 1);
        if cfg!(feature = "thorough") {
            $f::<BORROWING, N, 2, $($t),+>(Endianness::BigEndian, 1, 2 * $s + 1);
            $f::<BORROWING, N, 2, $($t),+>(Endianness::BigEndian, 0, 2 * $s - 1);
            $f::<COPYING, N, 2, $($t),+>(Endianness::BigEndian, 1, 2 * $s);
            $f::<STREAM, N, 2, $($t),+>(Endianness::BigEndian, 0, 2 * $s + 1);
            $f::<BORROWING, N, 0, $($t),+>(Endianness::BigEndian, 1, 1);
            $f::<STREAM, N, 0, $($t),+>(Endianness::BigEndian, 0, 0);
        }
    } };
}

macro_rules! reads {
    ($native:ident $swapped:ident: $($name:ident $s:literal $t:ty),*) => {
        pub mod $native {
            use super::*;
            harnesses! { $( #[bounded] [40] $name { native!(read, $s, $t) } )* }
        }
        pub mod $swapped {
            use super::*;
            harnesses! { $( #[bounded] [40] $name { swapped!(read, $s, $t) } )* }
        }
    };
}

reads! {
    read_native read_swapped:
    of_u8 1 u8, of_u16 2 u16, of_i16 2 i16, of_u32 4 u32, of_f32 4 f32, of_u64 8 u64, of_f64 8 f64, of_i128 16 i128, of_bool 1 bool,
    of_usize 8 usize, plain 4 Plain, packed 7 Packed, reordered 8 Reordered, nested 8 Nested, padded_inside 5 PaddedInside,
    with_array 4 WithArray, with_bool 2 WithBool, transparent 4 TransparentNested
}

/// The rest take their turn in the thorough tier.
#[cfg(feature = "thorough")]
reads! {
    read_native_more read_swapped_more:
    of_i8 1 i8, of_i32 4 i32, of_i64 8 i64, of_u128 16 u128, wrapper 4 Wrapper, padded 3 Padded, ordered 8 Ordered, opposite 8 Opposite,
    padded_end 5 PaddedEnd, aligned 6 Aligned, transparent_bool 1 TransparentBool
}
#[cfg(not(feature = "thorough"))]
none_of! { read_native_more read_swapped_more write_native_more write_swapped_more }

/// Nothing to read, whatever there is.
macro_rules! none {
    ($($t:ty),*) => { {
        $( read::<BORROWING, 2, 0, $t>(Endianness::BigEndian, 1, 1); read::<STREAM, 2, 0, $t>(Endianness::LittleEndian, 0, 0); )*
    } };
}

harnesses! {
    [20] read_none { none!(u32) }
    [20] read_none_plain { none!(Plain) }
    [20] write_none { write::<1, 0, u32>(Endianness::LittleEndian); }
    [20] write_none_plain { write::<1, 0, Plain>(Endianness::BigEndian); }
    [20] write_unit { write::<1, 2, ()>(Endianness::BigEndian); }

    #[bounded]
    [40] collection_u8 { native!(collection, 1, u8); swapped!(collection, 1, u8) }
    #[bounded]
    [40] collection_u16 { native!(collection, 2, u16); swapped!(collection, 2, u16) }
    #[bounded]
    [40] collection_u64 { native!(collection, 8, u64); swapped!(collection, 8, u64) }
    #[bounded]
    [40] collection_plain { native!(collection, 4, Plain); swapped!(collection, 4, Plain) }
    #[bounded]
    [40] collection_packed { native!(collection, 7, Packed); swapped!(collection, 7, Packed) }
    #[bounded]
    [40] collection_padded { native!(collection, 3, Padded); swapped!(collection, 3, Padded) }

    #[bounded]
    [40] map_small { native!(map, 2, u8, u8); swapped!(map, 2, u8, u8) }
    #[bounded]
    [40] map_mixed { native!(map, 3, u8, u16); swapped!(map, 3, u8, u16) }
    #[bounded]
    [40] map_signed { native!(map, 6, u32, i16); swapped!(map, 6, u32, i16) }
    #[bounded]
    [40] map_large_native { native!(map, 12, u64, f32) }
    #[bounded]
    [40] map_large_swapped { swapped!(map, 12, u64, f32) }
    #[bounded]
    [40] map_plain { native!(map, 5, Plain, u8); swapped!(map, 5, Plain, u8) }
    #[bounded]
    [40] map_padded { native!(map, 5, Padded, u16); swapped!(map, 5, Padded, u16) }
    #[bounded]
    [40] map_one { native!(map, 1, u8, ()); swapped!(map, 1, u8, ()) }
}

#[cfg(feature = "thorough")]
const WRITTEN: usize = 3;
#[cfg(not(feature = "thorough"))]
const WRITTEN: usize = 2;

macro_rules! writes {
    ($native:ident $swapped:ident: $($name:ident $s:literal $t:ty),*) => {
        pub mod $native {
            use super::*;
            harnesses! { $( #[bounded] [50] $name { write::<{ $s * WRITTEN }, WRITTEN, $t>(Endianness::LittleEndian) } )* }
        }
        pub mod $swapped {
            use super::*;
            harnesses! { $( #[bounded] [50] $name { write::<{ $s * WRITTEN }, WRITTEN, $t>(Endianness::BigEndian) } )* }
        }
    };
}

writes! {
    write_native write_swapped:
    of_u8 1 u8, of_i8 1 i8, of_u16 2 u16, of_i32 4 i32, of_f32 4 f32, of_u64 8 u64, of_f64 8 f64, of_u128 16 u128, of_bool 1 bool,
    of_usize 8 usize, of_char 4 char, plain 4 Plain, packed 7 Packed, reordered 8 Reordered, opposite 8 Opposite, nested 8 Nested,
    padded_inside 5 PaddedInside, padded_end 5 PaddedEnd, with_array 4 WithArray, with_bool 2 WithBool, many 5 Many, aligned 6 Aligned,
    transparent 4 TransparentNested
}

#[cfg(feature = "thorough")]
writes! {
    write_native_more write_swapped_more:
    of_i16 2 i16, of_u32 4 u32, of_i64 8 i64, of_i128 16 i128, of_endianness 1 Endianness, wrapper 4 Wrapper, padded 3 Padded,
    ordered 8 Ordered, c 4 C, with_float 8 WithFloat, with_char 4 WithChar, transparent_bool 1 TransparentBool, big 16 Big
}

/// Whole slices converted between byte orders.
pub mod swaps {
    use super::*;

    macro_rules! swap {
        ($($t:ident $slice:ident $one:ident),*) => { { $( {
            let e = nd::endianness();
            let v: [$t; 3] = [nd::any(), nd::any(), nd::any()];
            let mut n = 0;
            while n <= 3 {
                let mut w = v;
                e.$slice(&mut w[..n]);
                let mut i = 0;
                while i < 3 {
                    let mut x = v[i];
                    if i < n {
                        e.$one(&mut x);
                    }
                    assert!(x.to_ne_bytes() == w[i].to_ne_bytes(), "C11: converting a slice converts each element");
                    // The conversion itself.
                    let expected = if e == Endianness::BigEndian && i < n { v[i].to_be_bytes() } else { v[i].to_le_bytes() };
                    assert!(x.to_le_bytes() == expected, "C11: an element is converted between the byte order selected and the host's");
                    i += 1;
                }
                n += 1;
            }
        } )* } };
    }

    harnesses! {
        #[bounded]
        [20] unsigned { swap!(u16 swap_slice_u16 swap_u16, u32 swap_slice_u32 swap_u32) }
        #[bounded]
        [20] unsigned_large { swap!(u64 swap_slice_u64 swap_u64, u128 swap_slice_u128 swap_u128) }
        #[bounded]
        [20] signed { swap!(i16 swap_slice_i16 swap_i16, i32 swap_slice_i32 swap_i32) }
        #[bounded]
        [20] signed_large { swap!(i64 swap_slice_i64 swap_i64, i128 swap_slice_i128 swap_i128) }
        #[bounded]
        [20] floats { swap!(f32 swap_slice_f32 swap_f32, f64 swap_slice_f64 swap_f64) }
        [20] reads {
            let d: [u8; 16] = nd::any();
            assert!(Endianness::LittleEndian.read_u16(&d[..2]) == u16::from_le_bytes([d[0], d[1]]) && Endianness::BigEndian.read_u16(&d[..2]) == u16::from_be_bytes([d[0], d[1]]));
            assert!(Endianness::LittleEndian.read_i16(&d[..2]) == i16::from_le_bytes([d[0], d[1]]) && Endianness::BigEndian.read_i16(&d[..2]) == i16::from_be_bytes([d[0], d[1]]));
            assert!(Endianness::LittleEndian.read_u32(&d[..4]) == u32::from_le_bytes([d[0], d[1], d[2], d[3]]) && Endianness::BigEndian.read_u32(&d[..4]) == u32::from_be_bytes([d[0], d[1], d[2], d[3]]));
            assert!(Endianness::LittleEndian.read_i32(&d[..4]) == i32::from_le_bytes([d[0], d[1], d[2], d[3]]) && Endianness::BigEndian.read_i32(&d[..4]) == i32::from_be_bytes([d[0], d[1], d[2], d[3]]));
            assert!(Endianness::LittleEndian.read_f32(&d[..4]).to_bits() == u32::from_le_bytes([d[0], d[1], d[2], d[3]]) && Endianness::BigEndian.read_f32(&d[..4]).to_bits() == u32::from_be_bytes([d[0], d[1], d[2], d[3]]));
            let h = [d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]];
            assert!(Endianness::LittleEndian.read_u64(&d[..8]) == u64::from_le_bytes(h) && Endianness::BigEndian.read_u64(&d[..8]) == u64::from_be_bytes(h));
            assert!(Endianness::LittleEndian.read_i64(&d[..8]) == i64::from_le_bytes(h) && Endianness::BigEndian.read_i64(&d[..8]) == i64::from_be_bytes(h));
            assert!(Endianness::LittleEndian.read_f64(&d[..8]).to_bits() == u64::from_le_bytes(h) && Endianness::BigEndian.read_f64(&d[..8]).to_bits() == u64::from_be_bytes(h));
            assert!(Endianness::LittleEndian.read_u128(&d[..16]) == u128::from_le_bytes(d) && Endianness::BigEndian.read_u128(&d[..16]) == u128::from_be_bytes(d));
            assert!(Endianness::LittleEndian.read_i128(&d[..16]) == i128::from_le_bytes(d) && Endianness::BigEndian.read_i128(&d[..16]) == i128::from_be_bytes(d));
        }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c11);
}
