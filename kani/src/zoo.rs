//! Derived types which use every attribute, each with its documented layout.

use crate::derived::*;
use crate::nd;
use crate::spec::*;
use crate::util::*;
use speedy::{Endianness, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// What a derived type is checked against.
pub trait Zoo: Gen + Same + Spec {
    /// What reading the first `k` bytes of the encoding results in; `None` is an end-of-input error. `k` is always
    /// less than the length of the encoding. `same` is called with this value on the left.
    fn truncated(&self, _k: usize) -> Option<Self> {
        None
    }
}

/// The elements of a container without its length.
pub fn elements<T: Spec, S: Sink>(v: &[T], e: Endianness, out: &mut S) {
    for x in v {
        x.spec(e, out);
    }
}

/// The documented layout of variable-length integers, see C06.
pub fn varint<S: Sink>(v: u64, out: &mut S) {
    let mut extra: u32 = 0;
    while extra < 8 && v >= 1u64 << (7 * (extra + 1)) {
        extra += 1;
    }
    if extra == 8 {
        out.put(0xff);
    } else {
        let ones = !(0xffu32 >> extra) & 0xff;
        out.put((ones | (v >> (8 * extra)) as u32) as u8);
    }
    let mut i = 0;
    while i < extra {
        out.put((v >> (8 * i)) as u8);
        i += 1;
    }
}

/// Declares the generator, the equality and the layout of a type.
macro_rules! zoo {
    ($t:ty, $shapes:expr, |$s:ident| $gen:expr, |$a:ident, $b:ident| $same:expr, |$v:ident, $e:ident, $out:ident| $spec:block) => {
        zoo!($t, $shapes, |$s| $gen, |$a, $b| $same, |$v, $e, $out| $spec, |_v, _k| None);
    };
    ($t:ty, $shapes:expr, |$s:ident| $gen:expr, |$a:ident, $b:ident| $same:expr, |$v:ident, $e:ident, $out:ident| $spec:block, |$tv:ident, $tk:ident| $trunc:expr) => {
        impl Gen for $t {
            const SHAPES: usize = $shapes;
            #[allow(unused_variables)]
            fn gen($s: usize) -> Self { $gen }
        }
        impl Same for $t {
            #[allow(unused_variables)]
            fn same(&self, other: &Self) -> bool { let ($a, $b) = (self, other); $same }
        }
        impl Spec for $t {
            #[allow(unused_variables)]
            fn spec<S_: Sink>(&self, $e: Endianness, $out: &mut S_) { let $v = self; $spec }
        }
        impl Zoo for $t {
            #[allow(unused_variables)]
            fn truncated(&self, $tk: usize) -> Option<Self> { let $tv = self; $trunc }
        }
    };
}

// ---- lengths ----

#[derive(Readable, Writable)]
pub struct LenField {
    pub n: u8,
    #[speedy(length = n)]
    pub v: Vec<u16>,
    pub tail: u8,
}
zoo!(LenField, 3, |s| LenField { n: s as u8, v: vec_of(s), tail: nd::any() },
    |a, b| a.n == b.n && a.v.same(&b.v) && a.tail == b.tail,
    |v, e, out| { v.n.spec(e, out); elements(&v.v, e, out); v.tail.spec(e, out); });

#[derive(Readable, Writable)]
pub struct LenExpr {
    pub n: u16,
    pub m: u16,
    #[speedy(length = n / 4)]
    pub v: Vec<u8>,
    #[speedy(length = (m | n) / 3)]
    pub w: Vec<u8>,
    pub tail: u8,
}
zoo!(LenExpr, 3, |s| LenExpr { n: 4 * s as u16, m: 3, v: vec_of(s), w: vec_of((3 + 4 * s) / 3), tail: nd::any() },
    |a, b| a.n == b.n && a.m == b.m && a.v.same(&b.v) && a.w.same(&b.w) && a.tail == b.tail,
    |v, e, out| { v.n.spec(e, out); v.m.spec(e, out); elements(&v.v, e, out); elements(&v.w, e, out); v.tail.spec(e, out); });

#[derive(Readable, Writable)]
pub struct LenTuple(pub u8, #[speedy(length = t0)] pub Vec<bool>, pub u16);
zoo!(LenTuple, 3, |s| LenTuple(s as u8, vec_of(s), nd::any()),
    |a, b| a.0 == b.0 && a.1.same(&b.1) && a.2 == b.2,
    |v, e, out| { v.0.spec(e, out); elements(&v.1, e, out); v.2.spec(e, out); });

#[derive(Readable, Writable)]
pub struct LenCow<'a> {
    pub n: u8,
    #[speedy(length = n)]
    pub v: Cow<'a, [u16]>,
    pub tail: u8,
}
zoo!(LenCow<'static>, 3, |s| LenCow { n: s as u8, v: Cow::Owned(vec_of(s)), tail: nd::any() },
    |a, b| a.n == b.n && a.v.same(&b.v) && a.tail == b.tail,
    |v, e, out| { v.n.spec(e, out); elements(&v.v, e, out); v.tail.spec(e, out); });

#[derive(Readable, Writable)]
pub struct LenStr<'a> {
    pub n: u8,
    #[speedy(length = n)]
    pub s: String,
    #[speedy(length = n)]
    pub t: Cow<'a, str>,
    pub tail: u8,
}
zoo!(LenStr<'static>, 2, |s| LenStr { n: 2 * s as u8, s: string_of(s), t: Cow::Owned(string_of(s)), tail: nd::any() },
    |a, b| a.n == b.n && a.s.same(&b.s) && a.t.same(&b.t) && a.tail == b.tail,
    |v, e, out| { v.n.spec(e, out); elements(v.s.as_bytes(), e, out); elements(v.t.as_bytes(), e, out); v.tail.spec(e, out); });

#[derive(Readable, Writable)]
pub struct LenRef<'a> {
    pub n: u8,
    #[speedy(length = n)]
    pub s: &'a [u8],
    pub tail: u8,
}
zoo!(LenRef<'static>, 3, |s| LenRef { n: s as u8, s: Box::leak(vec_of::<u8>(s).into_boxed_slice()), tail: nd::any() },
    |a, b| a.n == b.n && a.s.same(b.s) && a.tail == b.tail,
    |v, e, out| { v.n.spec(e, out); elements(v.s, e, out); v.tail.spec(e, out); });

#[derive(Readable, Writable)]
pub struct UntilEof {
    pub head: u8,
    #[speedy(length = ..)]
    pub v: Vec<u8>,
}

#[derive(Readable, Writable)]
pub struct UntilEofCow<'a> {
    pub head: u8,
    #[speedy(length = ..)]
    pub v: Cow<'a, [u16]>,
}

// ---- length types ----

macro_rules! length_type {
    ($name:ident, $t:tt, |$n:ident, $e:ident, $out:ident| $len:expr) => {
        #[derive(Readable, Writable)]
        pub struct $name {
            #[speedy(length_type = $t)]
            pub v: Vec<u16>,
            pub tail: u8,
        }
        zoo!($name, 3, |s| $name { v: vec_of(s), tail: nd::any() },
            |a, b| a.v.same(&b.v) && a.tail == b.tail,
            |v, e, out| { { let ($n, $e, $out) = (v.v.len(), e, &mut *out); $len }; elements(&v.v, e, out); v.tail.spec(e, out); });
    };
}
length_type!(Len7, u7, |n, e, out| (n as u8).spec(e, out));
length_type!(Len8, u8, |n, e, out| (n as u8).spec(e, out));
length_type!(Len16, u16, |n, e, out| (n as u16).spec(e, out));
length_type!(Len32, u32, |n, e, out| (n as u32).spec(e, out));
length_type!(LenVarint, u64_varint, |n, e, out| { let _ = e; varint(n as u64, out) });

#[derive(Readable, Writable)]
pub struct TypedStr<'a> {
    #[speedy(length_type = u8)]
    pub s: String,
    #[speedy(length_type = u16)]
    pub t: Cow<'a, str>,
    pub tail: u8,
}
zoo!(TypedStr<'static>, 2, |s| TypedStr { s: string_of(s), t: Cow::Owned(string_of(s)), tail: nd::any() },
    |a, b| a.s.same(&b.s) && a.t.same(&b.t) && a.tail == b.tail,
    |v, e, out| {
        (v.s.len() as u8).spec(e, out);
        elements(v.s.as_bytes(), e, out);
        (v.t.len() as u16).spec(e, out);
        elements(v.t.as_bytes(), e, out);
        v.tail.spec(e, out);
    });

#[derive(Readable, Writable)]
pub struct TypedRef<'a> {
    #[speedy(length_type = u16)]
    pub s: &'a [u8],
    #[speedy(length_type = u8)]
    pub t: Cow<'a, [u16]>,
    pub tail: u8,
}
zoo!(TypedRef<'static>, 3, |s| TypedRef { s: Box::leak(vec_of::<u8>(s).into_boxed_slice()), t: Cow::Owned(vec_of(s)), tail: nd::any() },
    |a, b| a.s.same(b.s) && a.t.same(&b.t) && a.tail == b.tail,
    |v, e, out| {
        (v.s.len() as u16).spec(e, out);
        elements(v.s, e, out);
        (v.t.len() as u8).spec(e, out);
        elements(&v.t, e, out);
        v.tail.spec(e, out);
    });

#[derive(Readable, Writable)]
pub struct TypedOption {
    #[speedy(length_type = u16)]
    pub v: Option<Vec<u8>>,
    pub tail: u8,
}
zoo!(TypedOption, 4, |s| TypedOption { v: if s == 3 { None } else { Some(vec_of(s)) }, tail: nd::any() },
    |a, b| a.v.same(&b.v) && a.tail == b.tail,
    |v, e, out| {
        match &v.v {
            None => out.put(0),
            Some(v) => { out.put(1); (v.len() as u16).spec(e, out); elements(v, e, out) }
        }
        v.tail.spec(e, out);
    });

#[derive(Readable, Writable)]
pub struct TypedMaps {
    #[speedy(length_type = u8)]
    pub a: BTreeMap<u8, u16>,
    #[speedy(length_type = u16)]
    pub b: BTreeSet<u16>,
    pub tail: u8,
}
zoo!(TypedMaps, 1, |s| TypedMaps { a: BTreeMap::new(), b: BTreeSet::new(), tail: nd::any() },
    |a, b| a.a.is_empty() && b.a.is_empty() && a.b.is_empty() && b.b.is_empty() && a.tail == b.tail,
    |v, e, out| { 0u8.spec(e, out); 0u16.spec(e, out); v.tail.spec(e, out); });

// ---- varint ----

#[derive(Readable, Writable)]
pub struct Varint {
    pub head: u8,
    #[speedy(varint)]
    pub v: u64,
    pub tail: u8,
}
// One value per length; C06 covers all of them.
fn varint_of(s: usize) -> u64 {
    [0x45, 0x1234, 0x123456, 0x0fedcba9, 0x0123456789, 0x0123456789ab, 0x0123456789abcd, 0x80123456789abc, 0xfedcba9876543210][s]
}
zoo!(Varint, 9, |s| Varint { head: nd::any(), v: varint_of(s), tail: nd::any() },
    |a, b| a.head == b.head && a.v == b.v && a.tail == b.tail,
    |v, e, out| { v.head.spec(e, out); varint(v.v, out); v.tail.spec(e, out); });

#[derive(Readable, Writable)]
pub struct VarintTuple(pub u8, #[speedy(varint)] pub u64, pub u8);
zoo!(VarintTuple, 9, |s| VarintTuple(nd::any(), varint_of(s), nd::any()),
    |a, b| a.0 == b.0 && a.1 == b.1 && a.2 == b.2,
    |v, e, out| { v.0.spec(e, out); varint(v.1, out); v.2.spec(e, out); });

// ---- skip: the left-hand side of `same` is the value written, the right-hand side the value read ----

#[derive(Readable, Writable)]
pub struct Skip {
    pub a: u8,
    #[speedy(skip)]
    pub s: u32,
    pub b: u16,
}
zoo!(Skip, 1, |s| Skip { a: nd::any(), s: nd::any(), b: nd::any() },
    |a, b| a.a == b.a && a.b == b.b && b.s == 0,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); });

#[derive(Copy, Clone)]
pub struct NotSerializable(pub u8);
impl Default for NotSerializable {
    fn default() -> Self { NotSerializable(7) }
}

#[derive(Readable, Writable)]
pub struct SkipTuple(#[speedy(skip)] pub NotSerializable, pub u8, #[speedy(skip)] pub bool);
zoo!(SkipTuple, 1, |s| SkipTuple(NotSerializable(nd::any()), nd::any(), nd::any()),
    |a, b| b.0.0 == 7 && a.1 == b.1 && !b.2,
    |v, e, out| { v.1.spec(e, out); });

/// Would be plain data without the attribute.
#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct SkipC {
    pub a: u16,
    #[speedy(skip)]
    pub b: u16,
}
zoo!(SkipC, 1, |s| SkipC { a: nd::any(), b: nd::any() },
    |a, b| a.a == b.a && b.b == 0,
    |v, e, out| { v.a.spec(e, out); });

#[derive(Readable, Writable)]
pub struct VecOfSkipC {
    pub v: Vec<SkipC>,
    pub tail: u8,
}
zoo!(VecOfSkipC, 2, |s| VecOfSkipC { v: vec_of(2 * s), tail: nd::any() },
    |a, b| a.v.same(&b.v) && a.tail == b.tail,
    |v, e, out| { v.v.spec(e, out); v.tail.spec(e, out); });

/// Plain data, except for the variable-length integer.
#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct VarintC {
    #[speedy(varint)]
    pub a: u64,
}
zoo!(VarintC, 9, |s| VarintC { a: varint_of(s) },
    |a, b| a.a == b.a,
    |v, e, out| { varint(v.a, out); });

#[derive(Readable, Writable)]
pub struct VecOfVarintC(pub Vec<VarintC>);
zoo!(VecOfVarintC, 2, |s| VecOfVarintC(if s == 0 { vec![] } else { vec![VarintC::gen(0), VarintC::gen(1)] }),
    |a, b| a.0.same(&b.0),
    |v, e, out| { v.0.spec(e, out); });

// ---- constant prefixes ----

#[derive(Readable, Writable)]
pub struct Constant {
    #[speedy(constant_prefix = b"AB")]
    pub a: u16,
    #[speedy(constant_prefix = 'C')]
    pub v: Vec<u8>,
    #[speedy(constant_prefix = 4u8)]
    #[speedy(length_type = u8)]
    pub w: Vec<u8>,
    #[speedy(constant_prefix = "EF")]
    pub u: (),
    pub tail: u8,
}
zoo!(Constant, 3, |s| Constant { a: nd::any(), v: vec_of(s), w: vec_of(2 - s), u: (), tail: nd::any() },
    |a, b| a.a == b.a && a.v.same(&b.v) && a.w.same(&b.w) && a.tail == b.tail,
    |v, e, out| {
        out.put(b'A');
        out.put(b'B');
        v.a.spec(e, out);
        out.put(b'C');
        v.v.spec(e, out);
        out.put(4);
        (v.w.len() as u8).spec(e, out);
        elements(&v.w, e, out);
        out.put(b'E');
        out.put(b'F');
        v.tail.spec(e, out);
    });

/// Would be plain data without the attribute.
#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct ConstantC {
    #[speedy(constant_prefix = b"Z")]
    pub a: u8,
    pub b: u8,
}
zoo!(ConstantC, 1, |s| ConstantC { a: nd::any(), b: nd::any() },
    |a, b| a.a == b.a && a.b == b.b,
    |v, e, out| { out.put(b'Z'); v.a.spec(e, out); v.b.spec(e, out); });

#[derive(Readable, Writable)]
pub struct VecOfConstantC {
    pub v: Vec<ConstantC>,
    pub tail: u8,
}
zoo!(VecOfConstantC, 2, |s| VecOfConstantC { v: vec_of(2 * s), tail: nd::any() },
    |a, b| a.v.same(&b.v) && a.tail == b.tail,
    |v, e, out| { v.v.spec(e, out); v.tail.spec(e, out); });

#[derive(Readable, Writable)]
pub struct ConstantOption {
    #[speedy(constant_prefix = b"X")]
    pub a: Option<u16>,
    #[speedy(constant_prefix = b"Y")]
    pub n: u8,
    #[speedy(constant_prefix = true)]
    #[speedy(length = n)]
    pub v: Vec<u8>,
    pub tail: u8,
}
zoo!(ConstantOption, 2, |s| ConstantOption { n: s as u8, a: if s == 0 { None } else { Some(nd::any()) }, v: vec_of(s), tail: nd::any() },
    |a, b| a.a.same(&b.a) && a.n == b.n && a.v.same(&b.v) && a.tail == b.tail,
    |v, e, out| { out.put(b'X'); v.a.spec(e, out); out.put(b'Y'); v.n.spec(e, out); out.put(1); elements(&v.v, e, out); v.tail.spec(e, out); });

// ---- default on end of input ----

#[derive(Readable, Writable)]
pub struct Eof {
    pub a: u8,
    #[speedy(default_on_eof)]
    pub b: u16,
}
zoo!(Eof, 1, |s| Eof { a: nd::any(), b: nd::any() },
    |a, b| a.a == b.a && a.b == b.b,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); },
    |v, k| if k >= 1 { Some(Eof { a: v.a, b: 0 }) } else { None });

#[derive(Readable, Writable)]
pub struct EofTwo {
    #[speedy(default_on_eof)]
    pub a: u8,
    #[speedy(default_on_eof)]
    pub b: u8,
}
zoo!(EofTwo, 1, |s| EofTwo { a: nd::any(), b: nd::any() },
    |a, b| a.a == b.a && a.b == b.b,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); },
    |v, k| Some(EofTwo { a: if k >= 1 { v.a } else { 0 }, b: 0 }));

#[derive(Readable, Writable)]
pub struct EofTuple(pub u8, #[speedy(default_on_eof)] pub Option<u16>);
zoo!(EofTuple, 2, |s| EofTuple(nd::any(), if s == 0 { None } else { Some(nd::any()) }),
    |a, b| a.0 == b.0 && a.1.same(&b.1),
    |v, e, out| { v.0.spec(e, out); v.1.spec(e, out); },
    |v, k| if k >= 1 { Some(EofTuple(v.0, None)) } else { None });

#[derive(Readable, Writable)]
pub struct EofVec {
    pub a: u8,
    #[speedy(default_on_eof)]
    pub v: Vec<u16>,
}
zoo!(EofVec, 3, |s| EofVec { a: nd::any(), v: vec_of(s) },
    |a, b| a.a == b.a && a.v.same(&b.v),
    |v, e, out| { v.a.spec(e, out); v.v.spec(e, out); },
    |v, k| if k >= 1 { Some(EofVec { a: v.a, v: vec![] }) } else { None });

#[derive(Readable, Writable)]
pub struct EofLen<'a> {
    pub n: u8,
    #[speedy(default_on_eof)]
    #[speedy(length = n)]
    pub v: Vec<u8>,
    #[speedy(default_on_eof)]
    #[speedy(length_type = u8)]
    pub w: Cow<'a, [u8]>,
}
zoo!(EofLen<'static>, 3, |s| EofLen { n: s as u8, v: vec_of(s), w: Cow::Owned(vec_of(1)) },
    |a, b| a.n == b.n && a.v.same(&b.v) && a.w.same(&b.w),
    |v, e, out| { v.n.spec(e, out); elements(&v.v, e, out); 1u8.spec(e, out); elements(&v.w, e, out); },
    // Only where the input ends at or after the end of the first vector: what a partly read field consumes depends
    // on the kind of reader.
    |v, k| if k == 0 { None } else { Some(EofLen { n: v.n, v: if k > v.v.len() { v.v.clone() } else { vec![] }, w: Cow::Owned(vec![]) }) });

#[derive(Readable, Writable)]
pub struct EofChar {
    pub a: u8,
    #[speedy(default_on_eof)]
    pub c: char,
}
zoo!(EofChar, 1, |s| EofChar { a: nd::any(), c: gen() },
    |a, b| a.a == b.a && a.c == b.c,
    |v, e, out| { v.a.spec(e, out); v.c.spec(e, out); },
    |v, k| if k >= 1 { Some(EofChar { a: v.a, c: '\0' }) } else { None });

#[derive(Readable, Writable)]
pub struct EofConstant {
    pub a: u8,
    #[speedy(default_on_eof)]
    #[speedy(constant_prefix = b"PQ")]
    pub b: u16,
}
zoo!(EofConstant, 1, |s| EofConstant { a: nd::any(), b: nd::any() },
    |a, b| a.a == b.a && a.b == b.b,
    |v, e, out| { v.a.spec(e, out); out.put(b'P'); out.put(b'Q'); v.b.spec(e, out); },
    |v, k| if k >= 1 { Some(EofConstant { a: v.a, b: 0 }) } else { None });

#[derive(Readable, Writable)]
pub struct EofVarint {
    pub a: u8,
    #[speedy(default_on_eof)]
    #[speedy(varint)]
    pub b: u64,
}
zoo!(EofVarint, 9, |s| EofVarint { a: nd::any(), b: varint_of(s) },
    |a, b| a.a == b.a && a.b == b.b,
    |v, e, out| { v.a.spec(e, out); varint(v.b, out); },
    |v, k| if k >= 1 { Some(EofVarint { a: v.a, b: 0 }) } else { None });

#[derive(Readable, Writable)]
pub struct EofArray {
    pub a: u8,
    #[speedy(default_on_eof)]
    pub b: [u8; 3],
    #[speedy(default_on_eof)]
    pub c: Pair2,
}
/// A nested type with its own default.
#[derive(Readable, Writable)]
pub struct Pair2(pub u8, pub u16);
impl Default for Pair2 {
    fn default() -> Self { Pair2(9, 10) }
}
zoo!(EofArray, 1, |s| EofArray { a: nd::any(), b: nd::any(), c: Pair2(nd::any(), nd::any()) },
    |a, b| a.a == b.a && a.b.same(&b.b) && a.c.0 == b.c.0 && a.c.1 == b.c.1,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); v.c.0.spec(e, out); v.c.1.spec(e, out); },
    // A partly read array may have consumed some of the input.
    |v, k| if k == 0 { None } else if k >= 4 { Some(EofArray { a: v.a, b: v.b, c: Pair2(9, 10) }) } else { Some(EofArray { a: v.a, b: [0; 3], c: Pair2(9, 10) }) });

// ---- enums ----

macro_rules! tagged {
    ($name:ident, $t:tt, |$n:ident, $e:ident, $out:ident| $tag:expr) => {
        #[derive(Readable, Writable)]
        #[speedy(tag_type = $t)]
        pub enum $name {
            A,
            #[speedy(tag = 100)]
            B(u8),
            C { a: u16, b: u8 },
            #[speedy(tag = 7)]
            D(),
            E,
        }
        zoo!($name, 5, |s| match s {
                0 => $name::A,
                1 => $name::B(nd::any()),
                2 => $name::C { a: nd::any(), b: nd::any() },
                3 => $name::D(),
                _ => $name::E,
            },
            |a, b| match (a, b) {
                ($name::A, $name::A) => true,
                ($name::B(a), $name::B(b)) => a == b,
                ($name::C { a, b }, $name::C { a: c, b: d }) => a == c && b == d,
                ($name::D(), $name::D()) => true,
                ($name::E, $name::E) => true,
                _ => false,
            },
            |v, e, out| {
                let tag: u8 = match v { $name::A => 0, $name::B(_) => 100, $name::C { .. } => 101, $name::D() => 7, $name::E => 8 };
                { let ($n, $e, $out) = (tag, e, &mut *out); $tag };
                match v {
                    $name::B(a) => a.spec(e, out),
                    $name::C { a, b } => { a.spec(e, out); b.spec(e, out) }
                    _ => {}
                }
            });
    };
}
tagged!(Tag7, u7, |n, e, out| n.spec(e, out));
tagged!(Tag8, u8, |n, e, out| n.spec(e, out));
tagged!(Tag16, u16, |n, e, out| (n as u16).spec(e, out));
tagged!(Tag32, u32, |n, e, out| (n as u32).spec(e, out));
tagged!(Tag64, u64, |n, e, out| (n as u64).spec(e, out));
tagged!(TagVarint, u64_varint, |n, e, out| { let _ = e; varint(n as u64, out) });

/// Tags which need all of their type; discriminants.
#[derive(Readable, Writable)]
#[speedy(tag_type = u64)]
pub enum BigTag {
    #[speedy(tag = 0x0102030405060708)]
    A(u8),
    #[speedy(tag = 0xffffffffffffffff)]
    B,
    #[speedy(tag = 0x100000000)]
    C,
    D,
}
zoo!(BigTag, 4, |s| match s { 0 => BigTag::A(nd::any()), 1 => BigTag::B, 2 => BigTag::C, _ => BigTag::D },
    |a, b| match (a, b) {
        (BigTag::A(a), BigTag::A(b)) => a == b,
        (BigTag::B, BigTag::B) | (BigTag::C, BigTag::C) | (BigTag::D, BigTag::D) => true,
        _ => false,
    },
    |v, e, out| {
        let tag: u64 = match v { BigTag::A(_) => 0x0102030405060708, BigTag::B => !0, BigTag::C => 1 << 32, BigTag::D => (1 << 32) + 1 };
        tag.spec(e, out);
        if let BigTag::A(a) = v {
            a.spec(e, out);
        }
    });

#[derive(Readable, Writable)]
#[speedy(tag_type = u64_varint)]
pub enum BigVarint {
    #[speedy(tag = 128)]
    A(u8),
    #[speedy(tag = 0xffffffffffffffff)]
    B,
    #[speedy(tag = 16384)]
    C,
    D,
}
zoo!(BigVarint, 4, |s| match s { 0 => BigVarint::A(nd::any()), 1 => BigVarint::B, 2 => BigVarint::C, _ => BigVarint::D },
    |a, b| match (a, b) {
        (BigVarint::A(a), BigVarint::A(b)) => a == b,
        (BigVarint::B, BigVarint::B) | (BigVarint::C, BigVarint::C) | (BigVarint::D, BigVarint::D) => true,
        _ => false,
    },
    |v, e, out| {
        let tag: u64 = match v { BigVarint::A(_) => 128, BigVarint::B => !0, BigVarint::C => 16384, BigVarint::D => 16385 };
        varint(tag, out);
        if let BigVarint::A(a) = v {
            a.spec(e, out);
        }
    });

#[derive(Readable, Writable)]
pub enum Discriminant {
    A = 5,
    B,
    C = 3,
    D,
}
zoo!(Discriminant, 4, |s| match s { 0 => Discriminant::A, 1 => Discriminant::B, 2 => Discriminant::C, _ => Discriminant::D },
    |a, b| match (a, b) {
        (Discriminant::A, Discriminant::A) | (Discriminant::B, Discriminant::B) => true,
        (Discriminant::C, Discriminant::C) | (Discriminant::D, Discriminant::D) => true,
        _ => false,
    },
    |v, e, out| { (match v { Discriminant::A => 5u32, Discriminant::B => 6, Discriminant::C => 3, Discriminant::D => 4 }).spec(e, out); });

/// The tag is part of the fields.
#[derive(Readable, Writable)]
#[speedy(tag_type = u16, peek_tag)]
pub enum Peek {
    #[speedy(tag = 0x0102)]
    A(u16, u8),
    #[speedy(tag = 0x0304)]
    B { t: u16, #[speedy(length_type = u8)] v: Vec<u8> },
    #[speedy(tag = 0)]
    C(u32),
}
zoo!(Peek, 3, |s| match s { 0 => Peek::A(0x0102, nd::any()), 1 => Peek::B { t: 0x0304, v: vec_of(1) }, _ => Peek::C(0) },
    |a, b| match (a, b) {
        (Peek::A(a, b), Peek::A(c, d)) => a == c && b == d,
        (Peek::B { t, v }, Peek::B { t: u, v: w }) => t == u && v.same(w),
        (Peek::C(a), Peek::C(b)) => a == b,
        _ => false,
    },
    |v, e, out| {
        match v {
            Peek::A(a, b) => { a.spec(e, out); b.spec(e, out) }
            Peek::B { t, v } => { t.spec(e, out); 1u8.spec(e, out); elements(v, e, out) }
            Peek::C(a) => a.spec(e, out),
        }
    });

#[derive(Readable, Writable)]
#[speedy(tag_type = u8, peek_tag)]
pub enum Peek8 {
    #[speedy(tag = 1)]
    A(u8),
    #[speedy(tag = 2)]
    B(Pair),
}
zoo!(Peek8, 2, |s| if s == 0 { Peek8::A(1) } else { Peek8::B(Pair { a: 2, b: nd::any() }) },
    |a, b| match (a, b) {
        (Peek8::A(a), Peek8::A(b)) => a == b,
        (Peek8::B(a), Peek8::B(b)) => a.same(b),
        _ => false,
    },
    |v, e, out| { match v { Peek8::A(a) => a.spec(e, out), Peek8::B(p) => p.spec(e, out) } });

#[derive(Readable, Writable)]
#[speedy(tag_type = u64_varint, peek_tag)]
pub enum PeekVarint {
    #[speedy(tag = 3)]
    A(#[speedy(varint)] u64, u8),
    #[speedy(tag = 300)]
    B { #[speedy(varint)] t: u64 },
}
zoo!(PeekVarint, 2, |s| if s == 0 { PeekVarint::A(3, nd::any()) } else { PeekVarint::B { t: 300 } },
    |a, b| match (a, b) {
        (PeekVarint::A(a, b), PeekVarint::A(c, d)) => a == c && b == d,
        (PeekVarint::B { t }, PeekVarint::B { t: u }) => t == u,
        _ => false,
    },
    |v, e, out| { match v { PeekVarint::A(a, b) => { varint(*a, out); b.spec(e, out) } PeekVarint::B { t } => varint(*t, out) } });

/// Attributes on the fields of variants.
#[derive(Readable, Writable)]
#[speedy(tag_type = u8)]
pub enum Attributes {
    A(#[speedy(constant_prefix = b"K")] u8, #[speedy(varint)] u64),
    B { n: u8, #[speedy(length = n)] v: Vec<u8>, t: u8 },
    C(u8, #[speedy(default_on_eof)] u16),
    D {},
    E(Option<u16>),
}
zoo!(Attributes, 5, |s| match s {
        0 => Attributes::A(nd::any(), varint_of(1)),
        1 => Attributes::B { n: 2, v: vec_of(2), t: nd::any() },
        2 => Attributes::C(nd::any(), nd::any()),
        3 => Attributes::D {},
        _ => Attributes::E(Some(nd::any())),
    },
    |a, b| match (a, b) {
        (Attributes::A(a, b), Attributes::A(c, d)) => a == c && b == d,
        (Attributes::B { n, v, t }, Attributes::B { n: n2, v: v2, t: t2 }) => n == n2 && v.same(v2) && t == t2,
        (Attributes::C(a, b), Attributes::C(c, d)) => a == c && b == d,
        (Attributes::D {}, Attributes::D {}) => true,
        (Attributes::E(a), Attributes::E(b)) => a.same(b),
        _ => false,
    },
    |v, e, out| {
        match v {
            Attributes::A(a, b) => { out.put(0); out.put(b'K'); a.spec(e, out); varint(*b, out) }
            Attributes::B { n, v, t } => { out.put(1); n.spec(e, out); elements(v, e, out); t.spec(e, out) }
            Attributes::C(a, b) => { out.put(2); a.spec(e, out); b.spec(e, out) }
            Attributes::D {} => out.put(3),
            Attributes::E(a) => { out.put(4); a.spec(e, out) }
        }
    },
    |v, k| match v {
        Attributes::C(a, _) if k >= 2 => Some(Attributes::C(*a, 0)),
        _ => None,
    });

pub fn vec_of<T: Gen>(n: usize) -> Vec<T> {
    match n {
        0 => Vec::new(),
        1 => vec![gen()],
        2 => vec![gen(), gen()],
        _ => vec![gen(), gen(), gen()],
    }
}

/// A string of two bytes if `s` is not zero.
pub fn string_of(s: usize) -> String {
    String::gen(if s == 0 { 0 } else { 2 })
}

/// Instantiates `$check::<N, T>(shapes)` for every type above; `N` is more than the size of the encodings.
macro_rules! for_zoo {
    ($check:ident) => {
        harnesses! {
            #[bounded]
            [20] len_field { $check::<7, LenField>(&[0, 1, 2]) }
            #[bounded]
            [20] len_expr { $check::<11, LenExpr>(&[0, 1]) }
            #[bounded]
            [20] len_tuple { $check::<6, LenTuple>(&[0, 2]) }
            #[bounded]
            [20] len_cow { $check::<7, LenCow<'static>>(&[0, 2]) }
            #[bounded]
            #[utf8]
            [20] len_str { $check::<7, LenStr<'static>>(&[0, 1]) }
            #[bounded]
            [20] len_ref { $check::<5, LenRef<'static>>(&[0, 2]) }
            #[bounded]
            [20] len_7 { $check::<7, Len7>(&[0, 2]) }
            #[bounded]
            [20] len_8 { $check::<7, Len8>(&[0, 2]) }
            #[bounded]
            [20] len_16 { $check::<8, Len16>(&[0, 2]) }
            #[bounded]
            [20] len_32 { $check::<10, Len32>(&[0, 2]) }
            #[bounded]
            [20] len_varint { $check::<7, LenVarint>(&[0, 2]) }
            #[bounded]
            #[utf8]
            [20] typed_str { $check::<9, TypedStr<'static>>(&[0, 1]) }
            #[bounded]
            [20] typed_ref { $check::<11, TypedRef<'static>>(&[0, 2]) }
            #[bounded]
            [20] typed_option { $check::<7, TypedOption>(&[0, 2, 3]) }
            #[bounded]
            [20] typed_maps { $check::<5, TypedMaps>(&[0]) }
            #[bounded]
            [20] varint { $check::<12, Varint>(&[0, 1, 2]) }
            #[bounded]
            [20] varint_4 { $check::<12, Varint>(&[3, 4, 7]) }
            #[bounded]
            [20] varint_9 { $check::<12, Varint>(&[8]) }
            #[bounded]
            [20] varint_tuple { $check::<12, VarintTuple>(&[0, 4]) }
            [20] skip { $check::<4, Skip>(&[0]); $check::<2, SkipTuple>(&[0]); $check::<3, SkipC>(&[0]) }
            #[bounded]
            [20] skip_plain { $check::<10, VecOfSkipC>(&[0, 1]) }
            #[bounded]
            [20] varint_plain { $check::<10, VarintC>(&[0, 3, 8]) }
            #[bounded]
            [20] varint_plain_vec { $check::<8, VecOfVarintC>(&[1]) }
            #[bounded]
            [20] constant_empty { $check::<18, Constant>(&[0]) }
            #[bounded]
            [20] constant { $check::<18, Constant>(&[1]) }
            [20] constant_plain { $check::<4, ConstantC>(&[0]) }
            #[bounded]
            [20] constant_plain_vec { $check::<12, VecOfConstantC>(&[0, 1]) }
            #[bounded]
            [20] constant_option { $check::<10, ConstantOption>(&[0, 1]) }
            [20] eof { $check::<4, Eof>(&[0]); $check::<3, EofTwo>(&[0]) }
            [20] eof_tuple { $check::<5, EofTuple>(&[0, 1]) }
            #[bounded]
            [20] eof_vec { $check::<10, EofVec>(&[0, 1]) }
            #[bounded]
            [20] eof_len { $check::<6, EofLen<'static>>(&[0, 2]) }
            [20] eof_char { $check::<6, EofChar>(&[0]) }
            [20] eof_constant { $check::<6, EofConstant>(&[0]) }
            #[bounded]
            [20] eof_varint { $check::<11, EofVarint>(&[0, 2]) }
            #[bounded]
            [20] eof_varint_2 { $check::<6, EofVarint>(&[1, 3]) }
            [20] eof_array { $check::<8, EofArray>(&[0]) }
            [20] tag_7 { $check::<5, Tag7>(&[0, 1, 2, 3, 4]) }
            [20] tag_8 { $check::<5, Tag8>(&[0, 1, 2, 3, 4]) }
            [20] tag_16 { $check::<6, Tag16>(&[0, 1, 2, 3, 4]) }
            [20] tag_32 { $check::<8, Tag32>(&[0, 1, 2, 3, 4]) }
            [20] tag_64 { $check::<12, Tag64>(&[0, 1, 2, 3, 4]) }
            [20] tag_varint { $check::<6, TagVarint>(&[0, 1, 2, 3, 4]) }
            [20] tag_big { $check::<10, BigTag>(&[0, 1, 2, 3]) }
            [20] tag_big_varint { $check::<10, BigVarint>(&[0, 1, 2, 3]) }
            [20] discriminant { $check::<5, Discriminant>(&[0, 1, 2, 3]) }
            [20] peek { $check::<5, Peek>(&[0, 2]) }
            [20] peek_8 { $check::<4, Peek8>(&[0, 1]) }
            [20] peek_varint { $check::<4, PeekVarint>(&[0, 1]) }
            #[bounded]
            [20] attributes { $check::<6, Attributes>(&[0, 2, 3]) }
            [20] attributes_option { $check::<6, Attributes>(&[4]) }
        }
    }
}

// ---- types which are only executed, see `sweep.rs` ----

length_type!(Len64, u64, |n, e, out| (n as u64).spec(e, out));

/// A peeked tag which is larger than some of the variants.
#[derive(Readable, Writable)]
#[speedy(tag_type = u32, peek_tag)]
pub enum PeekSmall {
    #[speedy(tag = 5)]
    A { x: u8 },
    #[speedy(tag = 6)]
    B(u32, u8),
    #[speedy(tag = 0)]
    C(u16),
}
/// The rest of the tag is what comes next.
#[derive(Readable, Writable)]
pub struct AfterPeekSmall {
    pub p: PeekSmall,
    pub a: u8,
    pub b: u16,
}
zoo!(AfterPeekSmall, 2, |s| if s == 0 { AfterPeekSmall { p: PeekSmall::C(0), a: 0, b: 0 } } else { AfterPeekSmall { p: PeekSmall::B(6, nd::any()), a: nd::any(), b: nd::any() } },
    |a, b| a.a == b.a && a.b == b.b && match (&a.p, &b.p) { (PeekSmall::C(a), PeekSmall::C(b)) => a == b, (PeekSmall::B(a, c), PeekSmall::B(b, d)) => a == b && c == d, _ => false },
    |v, e, out| { match &v.p { PeekSmall::C(a) => a.spec(e, out), PeekSmall::B(a, b) => { a.spec(e, out); b.spec(e, out) } _ => {} } v.a.spec(e, out); v.b.spec(e, out); });

/// Exactly as long as its peeked tag, which belongs to two fields.
#[derive(Readable, Writable)]
pub struct PeekTwo {
    pub p: PeekByteOfWord,
    pub rest: u8,
}
#[derive(Readable, Writable)]
#[speedy(tag_type = u16, peek_tag)]
pub enum PeekByteOfWord {
    #[speedy(tag = 0x0101)]
    A(u8),
}
zoo!(PeekTwo, 1, |s| PeekTwo { p: PeekByteOfWord::A(1), rest: 1 },
    |a, b| a.rest == b.rest && { let (PeekByteOfWord::A(a), PeekByteOfWord::A(b)) = (&a.p, &b.p); a == b },
    |v, e, out| { out.put(1); v.rest.spec(e, out); });

/// Nothing of the peeked tag is consumed.
#[derive(Readable, Writable)]
pub struct PeekNothing {
    pub p: PeekEmpty,
    pub rest: u16,
}
#[derive(Readable, Writable)]
#[speedy(tag_type = u16, peek_tag)]
pub enum PeekEmpty {
    #[speedy(tag = 0x0101)]
    A(u16),
    #[speedy(tag = 0x0202)]
    B,
}
zoo!(PeekNothing, 1, |s| PeekNothing { p: PeekEmpty::B, rest: 0x0202 },
    |a, b| a.rest == b.rest && match (&a.p, &b.p) { (PeekEmpty::B, PeekEmpty::B) => true, _ => false },
    |v, e, out| { v.rest.spec(e, out); });

#[derive(Readable, Writable)]
#[speedy(tag_type = u64, peek_tag)]
pub enum Peek64 {
    #[speedy(tag = 0x0102030405060708)]
    A(u64, u8),
    #[speedy(tag = 2)]
    B { #[speedy(constant_prefix = b"\x02\0\0\0\0\0\0\0")] v: u16 },
    #[speedy(tag = 3)]
    C { t: u64, #[speedy(default_on_eof)] d: u8 },
}
zoo!(Peek64, 2, |s| if s == 0 { Peek64::A(0x0102030405060708, nd::any()) } else { Peek64::C { t: 3, d: nd::any() } },
    |a, b| match (a, b) { (Peek64::A(a, b), Peek64::A(c, d)) => a == c && b == d, (Peek64::C { t: a, d: b }, Peek64::C { t: c, d }) => a == c && b == d, _ => false },
    |v, e, out| { match v { Peek64::A(a, b) => { a.spec(e, out); b.spec(e, out) } Peek64::C { t, d } => { t.spec(e, out); d.spec(e, out) } _ => {} } },
    |v, k| match v { Peek64::C { t, .. } if k >= 8 => Some(Peek64::C { t: *t, d: 0 }), _ => None });

macro_rules! collect {
    ($n:expr, $v:expr) => { (0..$n).map(|_| $v).collect() };
}

/// Every kind of container with a length type.
#[derive(Readable, Writable)]
pub struct TypedAll<'a> {
    #[speedy(length_type = u8)]
    pub a: HashMap<u8, u16>,
    #[speedy(length_type = u16)]
    pub b: HashSet<u16>,
    #[speedy(length_type = u64_varint)]
    pub c: BTreeMap<u16, u8>,
    #[speedy(length_type = u64)]
    pub d: BTreeSet<u32>,
    #[speedy(length_type = u7)]
    pub e: Cow<'a, HashMap<u8, u8>>,
    #[speedy(length_type = u16)]
    pub f: Cow<'a, HashSet<u8>>,
    #[speedy(length_type = u8)]
    pub g: Cow<'a, BTreeMap<u8, u16>>,
    #[speedy(length_type = u64)]
    pub h: Cow<'a, BTreeSet<u16>>,
    #[speedy(length_type = u16)]
    pub i: &'a str,
    #[speedy(length_type = u64_varint)]
    pub j: &'a [u8],
    #[speedy(length_type = u8)]
    pub k: Cow<'a, str>,
    #[speedy(length_type = u64)]
    pub l: Cow<'a, [u32]>,
    pub tail: u8,
}
zoo!(TypedAll<'static>, 4, |s| TypedAll { a: collect!(s, (nd::any(), nd::any())), b: collect!(s, nd::any()), c: collect!(s, (nd::any(), nd::any())), d: collect!(s, nd::any()),
        e: Cow::Owned(collect!(s, (nd::any(), nd::any()))), f: Cow::Owned(collect!(s, nd::any())), g: Cow::Owned(collect!(s, (nd::any(), nd::any()))), h: Cow::Owned(collect!(s, nd::any())),
        i: Box::leak(string_of(s).into_boxed_str()), j: Box::leak(vec_of(s).into_boxed_slice()), k: Cow::Owned(string_of(s)), l: Cow::Owned(vec_of(s)), tail: nd::any() },
    |a, b| a.a.same(&b.a) && a.b.same(&b.b) && a.c.same(&b.c) && a.d.same(&b.d) && a.e.same(&b.e) && a.f.same(&b.f) && a.g.same(&b.g) && a.h.same(&b.h)
        && a.i == b.i && a.j == b.j && a.k == b.k && a.l.same(&b.l) && a.tail == b.tail,
    |v, e, out| {
        (v.a.len() as u8).spec(e, out); for (k, v) in &v.a { k.spec(e, out); v.spec(e, out) }
        (v.b.len() as u16).spec(e, out); for k in &v.b { k.spec(e, out) }
        varint(v.c.len() as u64, out); for (k, v) in &v.c { k.spec(e, out); v.spec(e, out) }
        (v.d.len() as u64).spec(e, out); for k in &v.d { k.spec(e, out) }
        (v.e.len() as u8).spec(e, out); for (k, v) in &*v.e { k.spec(e, out); v.spec(e, out) }
        (v.f.len() as u16).spec(e, out); for k in &*v.f { k.spec(e, out) }
        (v.g.len() as u8).spec(e, out); for (k, v) in &*v.g { k.spec(e, out); v.spec(e, out) }
        (v.h.len() as u64).spec(e, out); for k in &*v.h { k.spec(e, out) }
        (v.i.len() as u16).spec(e, out); elements(v.i.as_bytes(), e, out);
        varint(v.j.len() as u64, out); elements(v.j, e, out);
        (v.k.len() as u8).spec(e, out); elements(v.k.as_bytes(), e, out);
        (v.l.len() as u64).spec(e, out); elements(&v.l, e, out);
        v.tail.spec(e, out);
    });

/// Every kind of container with a prescribed length.
#[derive(Readable, Writable)]
pub struct LenAll<'a> {
    pub n: u16,
    #[speedy(length = n)]
    pub a: HashMap<u64, u16>,
    #[speedy(length = n.saturating_add(1))]
    pub b: HashSet<u64>,
    #[speedy(length = n)]
    pub c: BTreeMap<u64, u8>,
    #[speedy(length = n.saturating_mul(2))]
    pub d: BTreeSet<u64>,
    #[speedy(length = n)]
    pub e: Cow<'a, HashMap<u64, u8>>,
    #[speedy(length = n)]
    pub f: Cow<'a, HashSet<u64>>,
    #[speedy(length = n)]
    pub g: Cow<'a, BTreeMap<u64, u16>>,
    #[speedy(length = n)]
    pub h: Cow<'a, BTreeSet<u64>>,
    #[speedy(length = n.saturating_mul(2))]
    pub i: &'a str,
    #[speedy(length = n)]
    pub j: &'a [u8],
    #[speedy(length = n.saturating_mul(2))]
    pub k: Cow<'a, str>,
    #[speedy(length = n)]
    pub l: Cow<'a, [u32]>,
    #[speedy(length = j.len())]
    pub m: Vec<Option<u16>>,
    pub tail: u8,
}
fn unlike(i: usize) -> u64 {
    0x0102_0304_0506_0700 * (i as u64 % 3 + 1) + i as u64
}
zoo!(LenAll<'static>, 2, |s| LenAll { n: s as u16, a: (0..s).map(|i| (unlike(i), nd::any())).collect(), b: (0..s + 1).map(unlike).collect(), c: (0..s).map(|i| (unlike(i), nd::any())).collect(),
        d: (0..2 * s).map(unlike).collect(), e: Cow::Owned((0..s).map(|i| (unlike(i), nd::any())).collect()), f: Cow::Owned((0..s).map(unlike).collect()),
        g: Cow::Owned((0..s).map(|i| (unlike(i), nd::any())).collect()), h: Cow::Owned((0..s).map(unlike).collect()),
        i: Box::leak(string_of(s).into_boxed_str()), j: Box::leak(vec_of(s).into_boxed_slice()), k: Cow::Owned(string_of(s)), l: Cow::Owned(vec_of(s)), m: (0..s).map(|_| Some(nd::any())).collect(), tail: nd::any() },
    |a, b| a.n == b.n && a.a.same(&b.a) && a.b.same(&b.b) && a.c.same(&b.c) && a.d.same(&b.d) && a.e.same(&b.e) && a.f.same(&b.f) && a.g.same(&b.g) && a.h.same(&b.h)
        && a.i == b.i && a.j == b.j && a.k == b.k && a.l.same(&b.l) && a.m.same(&b.m) && a.tail == b.tail,
    |v, e, out| {
        v.n.spec(e, out);
        for (k, v) in &v.a { k.spec(e, out); v.spec(e, out) }
        for k in &v.b { k.spec(e, out) }
        for (k, v) in &v.c { k.spec(e, out); v.spec(e, out) }
        for k in &v.d { k.spec(e, out) }
        for (k, v) in &*v.e { k.spec(e, out); v.spec(e, out) }
        for k in &*v.f { k.spec(e, out) }
        for (k, v) in &*v.g { k.spec(e, out); v.spec(e, out) }
        for k in &*v.h { k.spec(e, out) }
        elements(v.i.as_bytes(), e, out);
        elements(v.j, e, out);
        elements(v.k.as_bytes(), e, out);
        elements(&v.l, e, out);
        elements(&v.m, e, out);
        v.tail.spec(e, out);
    });

/// Options of everything which takes a length type.
#[derive(Readable, Writable)]
pub struct TypedOptions<'a> {
    #[speedy(length_type = u8)]
    pub a: Option<String>,
    #[speedy(length_type = u16)]
    pub b: Option<Cow<'a, str>>,
    #[speedy(length_type = u64_varint)]
    pub c: Option<Cow<'a, [u16]>>,
    #[speedy(length_type = u8)]
    pub d: Option<BTreeMap<u8, u8>>,
    #[speedy(length_type = u64)]
    pub e: Option<HashSet<u16>>,
    #[speedy(length_type = u16)]
    pub f: Option<&'a str>,
    #[speedy(length_type = u7)]
    pub g: Option<&'a [u8]>,
    pub h: Option<Vec<u16>>,
    pub tail: u8,
}
fn maybe<T>(s: usize, v: T) -> Option<T> {
    if s == 0 { None } else { Some(v) }
}
fn prefixed<T, S: Sink>(v: &Option<T>, out: &mut S, f: impl FnOnce(&T, &mut S)) {
    match v {
        None => out.put(0),
        Some(v) => { out.put(1); f(v, out) }
    }
}
zoo!(TypedOptions<'static>, 3, |s| TypedOptions { a: maybe(s, string_of(s - s / 2)), b: maybe(2 - s, Cow::Owned(string_of(s))), c: maybe(s, Cow::Owned(vec_of(s))), d: maybe(s % 2, collect!(3, (nd::any(), nd::any()))),
        e: maybe(s, collect!(s, nd::any())), f: maybe(s, Box::leak(string_of(s).into_boxed_str())), g: maybe(2 - s, Box::leak(vec_of(s).into_boxed_slice())), h: maybe(s, vec_of(s)), tail: nd::any() },
    |a, b| a.a.same(&b.a) && a.b.same(&b.b) && a.c.same(&b.c) && a.d.same(&b.d) && a.e.same(&b.e) && a.f == b.f && a.g == b.g && a.h.same(&b.h) && a.tail == b.tail,
    |v, e, out| {
        prefixed(&v.a, out, |v, out| { (v.len() as u8).spec(e, out); elements(v.as_bytes(), e, out) });
        prefixed(&v.b, out, |v, out| { (v.len() as u16).spec(e, out); elements(v.as_bytes(), e, out) });
        prefixed(&v.c, out, |v, out| { varint(v.len() as u64, out); elements(v, e, out) });
        prefixed(&v.d, out, |v, out| { (v.len() as u8).spec(e, out); for (k, v) in v { k.spec(e, out); v.spec(e, out) } });
        prefixed(&v.e, out, |v, out| { (v.len() as u64).spec(e, out); for k in v { k.spec(e, out) } });
        prefixed(&v.f, out, |v, out| { (v.len() as u16).spec(e, out); elements(v.as_bytes(), e, out) });
        prefixed(&v.g, out, |v, out| { (v.len() as u8).spec(e, out); elements(v, e, out) });
        v.h.spec(e, out);
        v.tail.spec(e, out);
    });

/// Many primitive fields.
#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct Many {
    pub a: u64,
    pub b: u32,
    pub c: i16,
    pub d: u8,
    pub e: i8,
    pub f: f64,
    pub g: [u16; 4],
    pub h: u128,
}
zoo!(Many, 1, |s| Many { a: nd::any(), b: nd::any(), c: nd::any(), d: nd::any(), e: nd::any(), f: nd::any(), g: nd::any(), h: nd::any() },
    |a, b| a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d && a.e == b.e && a.f.same(&b.f) && a.g == b.g && a.h == b.h,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); v.c.spec(e, out); v.d.spec(e, out); v.e.spec(e, out); v.f.spec(e, out); v.g.spec(e, out); v.h.spec(e, out); });

#[derive(Copy, Clone, Readable, Writable)]
#[repr(packed)]
pub struct ManyPacked {
    pub a: u8,
    pub b: u32,
    pub c: i16,
    pub d: u64,
    pub e: [u16; 3],
}
zoo!(ManyPacked, 1, |s| ManyPacked { a: nd::any(), b: nd::any(), c: nd::any(), d: nd::any(), e: nd::any() },
    |a, b| { let (a, b) = (*a, *b); ({ a.a }) == ({ b.a }) && ({ a.b }) == ({ b.b }) && ({ a.c }) == ({ b.c }) && ({ a.d }) == ({ b.d }) && ({ a.e }) == ({ b.e }) },
    |v, e, out| { ({ v.a }).spec(e, out); ({ v.b }).spec(e, out); ({ v.c }).spec(e, out); ({ v.d }).spec(e, out); ({ v.e }).spec(e, out); });

/// The compiler reorders these.
#[derive(Copy, Clone, Readable, Writable)]
pub struct Reordered {
    pub a: u8,
    pub b: u32,
    pub c: u8,
    pub d: u16,
}
zoo!(Reordered, 1, |s| Reordered { a: nd::any(), b: nd::any(), c: nd::any(), d: nd::any() },
    |a, b| a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); v.c.spec(e, out); v.d.spec(e, out); });

/// Nested plain data, and a type whose layout is not that of its encoding.
#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct Nested {
    pub a: Plain,
    pub b: [Plain; 2],
    pub c: Wrapper,
}
zoo!(Nested, 1, |s| Nested { a: gen(), b: [gen(), gen()], c: gen() },
    |a, b| a.a.same(&b.a) && a.b.same(&b.b) && a.c.same(&b.c),
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); v.c.spec(e, out); });

#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct NestedBool {
    pub a: u8,
    pub b: bool,
    pub c: [bool; 2],
}
zoo!(NestedBool, 1, |s| NestedBool { a: nd::any(), b: nd::any(), c: [nd::any(), nd::any()] },
    |a, b| a.a == b.a && a.b == b.b && a.c == b.c,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); v.c.spec(e, out); });

#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct PlainGeneric<T> {
    pub a: T,
    pub b: T,
}
zoo!(PlainGeneric<u16>, 1, |s| PlainGeneric { a: nd::any(), b: nd::any() },
    |a, b| a.a == b.a && a.b == b.b,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); });
zoo!(PlainGeneric<bool>, 1, |s| PlainGeneric { a: nd::any(), b: nd::any() },
    |a, b| a.a == b.a && a.b == b.b,
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); });

/// Containers of all of these.
#[derive(Readable, Writable)]
pub struct Plains {
    pub a: Vec<Many>,
    pub b: Vec<ManyPacked>,
    pub c: Vec<Reordered>,
    pub d: Vec<Nested>,
    pub e: Vec<NestedBool>,
    pub f: Vec<PlainGeneric<u16>>,
    pub g: Vec<PlainGeneric<bool>>,
    pub h: [Reordered; 2],
    pub i: [NestedBool; 2],
    pub j: Vec<SkipC>,
    pub k: Vec<ConstantC>,
    pub l: [Many; 2],
    pub m: Vec<Unit>,
    pub n: Box<[Padded]>,
}
fn times<T: Gen>(n: usize) -> Vec<T> {
    (0..n).map(|_| gen()).collect()
}
zoo!(Plains, 6, |s| { let s = s * s * s; Plains { a: times(s), b: times(s), c: times(s), d: times(s), e: times(s), f: times(s), g: times(s), h: [gen(), gen()], i: [gen(), gen()], j: times(s), k: times(s), l: [gen(), gen()],
        m: (0..s).map(|_| Unit).collect(), n: times(s).into() } },
    |a, b| a.a.same(&b.a) && a.b.same(&b.b) && a.c.same(&b.c) && a.d.same(&b.d) && a.e.same(&b.e) && a.f.same(&b.f) && a.g.same(&b.g) && a.h.same(&b.h) && a.i.same(&b.i) && a.j.same(&b.j)
        && a.k.same(&b.k) && a.l.same(&b.l) && a.m.len() == b.m.len() && a.n.same(&b.n),
    |v, e, out| { v.a.spec(e, out); v.b.spec(e, out); v.c.spec(e, out); v.d.spec(e, out); v.e.spec(e, out); v.f.spec(e, out); v.g.spec(e, out); v.h.spec(e, out); v.i.spec(e, out); v.j.spec(e, out);
        v.k.spec(e, out); v.l.spec(e, out); (v.m.len() as u32).spec(e, out); v.n.spec(e, out); });

/// Attributes next to each other.
#[derive(Readable, Writable)]
pub struct Combined<'a> {
    #[speedy(skip)]
    pub s: Vec<u8>,
    pub n: u8,
    #[speedy(skip)]
    pub t: Option<u32>,
    #[speedy(length = n.saturating_add(1))]
    #[speedy(constant_prefix = "pre")]
    pub a: Vec<u8>,
    #[speedy(varint)]
    #[speedy(constant_prefix = b"\0\xff")]
    pub b: u64,
    #[speedy(constant_prefix = -1i8)]
    #[speedy(length_type = u64_varint)]
    pub c: Cow<'a, str>,
    #[speedy(constant_prefix = 'z')]
    #[speedy(length_type = u16)]
    pub d: Option<Vec<u16>>,
    #[speedy(constant_prefix = "")]
    pub e: [u16; 2],
    #[speedy(constant_prefix = 255u8)]
    pub f: Pair,
    #[speedy(default_on_eof)]
    #[speedy(constant_prefix = b"Q")]
    #[speedy(length_type = u8)]
    pub g: Vec<u8>,
}
zoo!(Combined<'static>, 3, |s| Combined { s: vec_of(s), n: s as u8, t: maybe(s, nd::any()), a: vec_of(s + 1), b: varint_of(s), c: Cow::Owned(string_of(s)), d: maybe(s, vec_of(s)), e: nd::any(), f: gen(), g: vec_of(s) },
    |a, b| b.s.is_empty() && b.t.is_none() && a.n == b.n && a.a.same(&b.a) && a.b == b.b && a.c == b.c && a.d.same(&b.d) && a.e == b.e && a.f.same(&b.f) && a.g.same(&b.g),
    |v, e, out| {
        v.n.spec(e, out);
        elements(b"pre", e, out);
        elements(&v.a, e, out);
        elements(&[0u8, 0xff], e, out);
        varint(v.b, out);
        out.put(0xff);
        varint(v.c.len() as u64, out);
        elements(v.c.as_bytes(), e, out);
        out.put(b'z');
        prefixed(&v.d, out, |v, out| { (v.len() as u16).spec(e, out); elements(v, e, out) });
        v.e.spec(e, out);
        out.put(255);
        v.f.spec(e, out);
        out.put(b'Q');
        (v.g.len() as u8).spec(e, out);
        elements(&v.g, e, out);
    },
    |v, k| {
        let whole = 1 + 3 + v.a.len() + 2 + v.b_len() + 1 + 1 + v.c.len() + 1 + 1 + v.d.as_ref().map(|d| 2 + 2 * d.len()).unwrap_or(0) + 4 + 1 + 3;
        if k >= whole { Some(Combined { s: vec![], n: v.n, t: None, a: v.a.clone(), b: v.b, c: v.c.clone(), d: v.d.clone(), e: v.e, f: Pair { a: v.f.a, b: v.f.b }, g: vec![] }) } else { None }
    });
impl<'a> Combined<'a> {
    fn b_len(&self) -> usize {
        let mut out = Out::<16> { d: [0; 16], n: 0 };
        varint(self.b, &mut out);
        out.n
    }
}

/// Defaults of everything at the end of the input.
#[derive(Readable, Writable)]
pub struct EofAll<'a> {
    pub a: u8,
    #[speedy(default_on_eof)]
    pub b: String,
    #[speedy(default_on_eof)]
    pub c: Cow<'a, [u8]>,
    #[speedy(default_on_eof)]
    #[speedy(length_type = u8)]
    pub d: BTreeMap<u8, u8>,
    #[speedy(default_on_eof)]
    pub e: Option<u32>,
    #[speedy(default_on_eof)]
    pub f: HashSet<u16>,
    #[speedy(default_on_eof)]
    #[speedy(length = a)]
    pub g: String,
    #[speedy(default_on_eof)]
    pub h: (u8, u16),
    #[speedy(default_on_eof)]
    #[speedy(length_type = u16)]
    pub i: Cow<'a, str>,
}
zoo!(EofAll<'static>, 2, |s| EofAll { a: 2 * s as u8, b: string_of(s), c: Cow::Owned(vec_of(s)), d: collect!(s, (nd::any(), nd::any())), e: maybe(s, nd::any()), f: collect!(s, nd::any()), g: string_of(s), h: (nd::any(), nd::any()), i: Cow::Owned(string_of(s)) },
    |a, b| a.a == b.a && a.b == b.b && a.c == b.c && a.d.same(&b.d) && a.e.same(&b.e) && a.f.same(&b.f) && a.g == b.g && a.h.same(&b.h) && a.i == b.i,
    |v, e, out| {
        v.a.spec(e, out);
        v.b.spec(e, out);
        v.c.spec(e, out);
        (v.d.len() as u8).spec(e, out); for (k, v) in &v.d { k.spec(e, out); v.spec(e, out) }
        v.e.spec(e, out);
        v.f.spec(e, out);
        elements(v.g.as_bytes(), e, out);
        v.h.spec(e, out);
        (v.i.len() as u16).spec(e, out);
        elements(v.i.as_bytes(), e, out);
    },
    // Only where the input ends right after a field: what a partly read field consumes depends on the kind of reader.
    |v, k| if k == 1 { Some(EofAll { a: v.a, b: String::new(), c: Cow::Owned(vec![]), d: BTreeMap::new(), e: None, f: HashSet::new(), g: String::new(), h: (0, 0), i: Cow::Owned(String::new()) }) } else { None });

/// Fields of variants with all kinds of attributes.
#[derive(Readable, Writable)]
#[speedy(tag_type = u16)]
pub enum Variants<'a> {
    #[speedy(tag = 0xfffe)]
    A { #[speedy(skip)] s: u8, n: u8, #[speedy(skip)] t: bool, #[speedy(length = n)] v: Cow<'a, [u16]>, tail: u8 },
    B(#[speedy(skip)] u64, #[speedy(length_type = u8)] String, #[speedy(varint)] u64, #[speedy(constant_prefix = b"!")] u8),
    #[speedy(tag = 0)]
    C(Option<u16>, [u8; 3], #[speedy(length_type = u16)] BTreeSet<u8>),
    D,
    E(#[speedy(length = t0_())] Vec<u8>),
    #[speedy(tag = 0x100)]
    F(Box<Discriminant>, (u8, bool)),
    G { #[speedy(default_on_eof)] x: u16, #[speedy(default_on_eof)] y: Option<u8> },
}
fn t0_() -> usize { 2 }
zoo!(Variants<'static>, 7, |s| match s {
        0 => Variants::A { s: nd::any(), n: 2, t: nd::any(), v: Cow::Owned(vec_of(2)), tail: nd::any() },
        1 => Variants::B(nd::any(), string_of(1), varint_of(2), nd::any()),
        2 => Variants::C(Some(nd::any()), nd::any(), collect!(3, nd::any())),
        3 => Variants::D,
        4 => Variants::E(vec_of(2)),
        5 => Variants::F(Box::new(Discriminant::D), (nd::any(), nd::any())),
        _ => Variants::G { x: nd::any(), y: Some(nd::any()) },
    },
    |a, b| match (a, b) {
        (Variants::A { n, v, tail, .. }, Variants::A { s: s2, n: n2, t: t2, v: v2, tail: tail2 }) => *s2 == 0 && !*t2 && n == n2 && v == v2 && tail == tail2,
        (Variants::B(_, a, b, c), Variants::B(z, d, e, f)) => *z == 0 && a == d && b == e && c == f,
        (Variants::C(a, b, c), Variants::C(d, e, f)) => a.same(d) && b == e && c.same(f),
        (Variants::D, Variants::D) => true,
        (Variants::E(a), Variants::E(b)) => a.same(b),
        (Variants::F(a, b), Variants::F(c, d)) => a.same(c) && b.same(d),
        (Variants::G { x: a, y: b }, Variants::G { x: c, y: d }) => a == c && b.same(d),
        _ => false,
    },
    |v, e, out| {
        (match v { Variants::A { .. } => 0xfffeu16, Variants::B(..) => 0xffff, Variants::C(..) => 0, Variants::D => 1, Variants::E(..) => 2, Variants::F(..) => 0x100, Variants::G { .. } => 0x101 }).spec(e, out);
        match v {
            Variants::A { n, v, tail, .. } => { n.spec(e, out); elements(v, e, out); tail.spec(e, out) }
            Variants::B(_, a, b, c) => { (a.len() as u8).spec(e, out); elements(a.as_bytes(), e, out); varint(*b, out); out.put(b'!'); c.spec(e, out) }
            Variants::C(a, b, c) => { a.spec(e, out); b.spec(e, out); (c.len() as u16).spec(e, out); for c in c { c.spec(e, out) } }
            Variants::D => {}
            Variants::E(a) => elements(a, e, out),
            Variants::F(a, b) => { a.spec(e, out); b.spec(e, out) }
            Variants::G { x, y } => { x.spec(e, out); y.spec(e, out) }
        }
    },
    |v, k| match v {
        Variants::G { x, .. } if k >= 2 => Some(Variants::G { x: if k >= 4 { *x } else { 0 }, y: None }),
        _ => None,
    });

/// Recursive types.
#[derive(Readable, Writable)]
pub enum Tree {
    Leaf(u16),
    Node(Box<Tree>, Box<Tree>),
    Many { #[speedy(length_type = u8)] v: Vec<Tree> },
}
fn tree(depth: usize, s: usize) -> Tree {
    if depth == 0 {
        Tree::Leaf(nd::any())
    } else if (depth + s) % 2 == 0 {
        Tree::Node(Box::new(tree(depth - 1, s)), Box::new(tree(depth / 2, s)))
    } else {
        Tree::Many { v: (0..s).map(|_| tree(depth - 1, s)).collect() }
    }
}
zoo!(Tree, 4, |s| tree(s, s),
    |a, b| match (a, b) {
        (Tree::Leaf(a), Tree::Leaf(b)) => a == b,
        (Tree::Node(a, b), Tree::Node(c, d)) => a.same(c) && b.same(d),
        (Tree::Many { v: a }, Tree::Many { v: b }) => a.same(b),
        _ => false,
    },
    |v, e, out| {
        match v {
            Tree::Leaf(a) => { 0u32.spec(e, out); a.spec(e, out) }
            Tree::Node(a, b) => { 1u32.spec(e, out); a.spec(e, out); b.spec(e, out) }
            Tree::Many { v } => { 2u32.spec(e, out); (v.len() as u8).spec(e, out); elements(v, e, out) }
        }
    });

#[derive(Readable, Writable)]
pub struct List {
    pub v: u8,
    pub next: Option<Box<List>>,
}
zoo!(List, 4, |s| List { v: nd::any(), next: if s == 0 { None } else { Some(Box::new(List::gen(s - 1))) } },
    |a, b| a.v == b.v && a.next.same(&b.next),
    |v, e, out| { v.v.spec(e, out); v.next.spec(e, out); });

/// Discriminants and tags which are next to the limits.
#[derive(Readable, Writable)]
#[speedy(tag_type = u8)]
pub enum Tags8 {
    #[speedy(tag = 254)]
    A,
    B(u8),
    #[speedy(tag = 0)]
    C,
    D,
}
zoo!(Tags8, 4, |s| match s { 0 => Tags8::A, 1 => Tags8::B(nd::any()), 2 => Tags8::C, _ => Tags8::D },
    |a, b| match (a, b) { (Tags8::A, Tags8::A) | (Tags8::C, Tags8::C) | (Tags8::D, Tags8::D) => true, (Tags8::B(a), Tags8::B(b)) => a == b, _ => false },
    |v, e, out| { match v { Tags8::A => out.put(254), Tags8::B(a) => { out.put(255); a.spec(e, out) } Tags8::C => out.put(0), Tags8::D => out.put(1) } });

#[derive(Readable, Writable)]
#[speedy(tag_type = u7)]
pub enum Tags7 {
    #[speedy(tag = 126)]
    A,
    B(u8),
    #[speedy(tag = 64)]
    C { a: u16 },
}
zoo!(Tags7, 3, |s| match s { 0 => Tags7::A, 1 => Tags7::B(nd::any()), _ => Tags7::C { a: nd::any() } },
    |a, b| match (a, b) { (Tags7::A, Tags7::A) => true, (Tags7::B(a), Tags7::B(b)) => a == b, (Tags7::C { a }, Tags7::C { a: b }) => a == b, _ => false },
    |v, e, out| { match v { Tags7::A => out.put(126), Tags7::B(a) => { out.put(127); a.spec(e, out) } Tags7::C { a } => { out.put(64); a.spec(e, out) } } });

#[derive(Readable, Writable)]
pub enum Tags32 {
    A = 0x7fffffff,
    B,
    C = 0xfffffffe,
    D,
}
zoo!(Tags32, 4, |s| match s { 0 => Tags32::A, 1 => Tags32::B, 2 => Tags32::C, _ => Tags32::D },
    |a, b| match (a, b) { (Tags32::A, Tags32::A) | (Tags32::B, Tags32::B) | (Tags32::C, Tags32::C) | (Tags32::D, Tags32::D) => true, _ => false },
    |v, e, out| { (match v { Tags32::A => 0x7fffffffu32, Tags32::B => 0x80000000, Tags32::C => 0xfffffffe, Tags32::D => 0xffffffff }).spec(e, out); });

/// Arguments of attributes at the limits of their types.
#[derive(Readable, Writable)]
pub struct Arrays {
    pub a: [u8; 0],
    pub b: [u16; 5],
    pub c: [Option<u8>; 3],
    pub d: [[u8; 2]; 3],
    pub e: [Pair; 2],
    pub f: [String; 2],
    #[speedy(constant_prefix = b"a")]
    pub g: [bool; 2],
    #[speedy(skip)]
    pub h: [u8; 4],
    #[speedy(default_on_eof)]
    pub i: [u64; 2],
}
zoo!(Arrays, 2, |s| Arrays { a: [], b: nd::any(), c: [None, Some(nd::any()), Some(nd::any())], d: nd::any(), e: [gen(), gen()], f: [string_of(s), string_of(1 - s)], g: nd::any(), h: nd::any(), i: nd::any() },
    |a, b| b.h == [0; 4] && a.b == b.b && a.c.same(&b.c) && a.d == b.d && a.e.same(&b.e) && a.f == b.f && a.g == b.g && a.i == b.i,
    |v, e, out| { v.b.spec(e, out); v.c.spec(e, out); v.d.spec(e, out); v.e.spec(e, out); v.f.spec(e, out); out.put(b'a'); v.g.spec(e, out); v.i.spec(e, out); },
    |v, k| if k == 10 + 5 + 6 + 6 + 10 + 3 { Some(Arrays { a: [], b: v.b, c: v.c, d: v.d, e: [Pair { a: v.e[0].a, b: v.e[0].b }, Pair { a: v.e[1].a, b: v.e[1].b }], f: v.f.clone(), g: v.g, h: [0; 4], i: [0; 2] }) } else { None });

/// Calls `$f::<T>()` for every type of the zoo.
macro_rules! zoo_types {
    ($f:ident) => { zoo_types!(@ $f LenField, LenExpr, LenTuple, LenCow<'static>, LenStr<'static>, LenRef<'static>, Len7, Len8, Len16, Len32, Len64, LenVarint, TypedStr<'static>, TypedRef<'static>,
        TypedOption, TypedMaps, Varint, VarintTuple, Skip, SkipTuple, SkipC, VecOfSkipC, VarintC, VecOfVarintC, Constant, ConstantC, VecOfConstantC, ConstantOption,
        Eof, EofTwo, EofTuple, EofVec, EofLen<'static>, EofChar, EofConstant, EofVarint, EofArray, Tag7, Tag8, Tag16, Tag32, Tag64, TagVarint, BigTag, BigVarint, Discriminant,
        Peek, Peek8, PeekVarint, Attributes, AfterPeekSmall, PeekTwo, PeekNothing, Peek64, TypedAll<'static>, LenAll<'static>, TypedOptions<'static>, Many, ManyPacked, Reordered, Nested, NestedBool,
        PlainGeneric<u16>, PlainGeneric<bool>, Plains, Combined<'static>, EofAll<'static>, Variants<'static>, Tree, List, Tags8, Tags7, Tags32, Arrays) };
    (@ $f:ident $($t:ty),*) => { $( $f::<$t>(); )* };
}
