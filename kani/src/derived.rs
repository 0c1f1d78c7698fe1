//! Derived types which the harnesses use next to the standard-library types, with their documented layout.

use crate::nd;
use crate::spec::*;
use crate::util::*;
use speedy::{Endianness, Readable, Writable};

/// Mixed sizes and a container in the middle.
#[derive(Readable, Writable)]
pub struct Mixed {
    pub a: u8,
    pub b: Vec<u16>,
    pub c: u32,
}

/// All fields primitive: nested inside containers.
#[derive(Readable, Writable)]
pub struct Pair {
    pub a: u8,
    pub b: u16,
}

#[derive(Readable, Writable)]
pub struct Tuple(pub u16, pub bool);

#[derive(Readable, Writable)]
pub struct Unit;

#[derive(Readable, Writable)]
pub struct Generic<T> {
    pub a: Option<T>,
    pub b: T,
}

/// Plain data which may be copied as a whole.
#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct Plain {
    pub a: u16,
    pub b: u16,
}

#[derive(Copy, Clone, Readable, Writable)]
#[repr(transparent)]
pub struct Wrapper(pub u32);

#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct Padded {
    pub a: u8,
    pub b: u16,
}

#[derive(Readable, Writable)]
pub enum Enum {
    Empty,
    Tuple(u8, u16),
    #[speedy(tag = 0x01020304)]
    Struct { a: u16 },
    AfterTagged,
}

macro_rules! plain {
    ($t:ident { $($f:tt : $ft:ty),* } [$shapes:expr]) => {
        impl Gen for $t {
            const SHAPES: usize = $shapes;
            #[allow(unused_variables)]
            fn gen(shape: usize) -> Self { $t { $($f: <$ft as Gen>::gen(if <$ft as Gen>::SHAPES == 1 { 0 } else { shape })),* } }
        }
        impl Same for $t {
            #[allow(unused_variables)]
            fn same(&self, other: &Self) -> bool { true $( && self.$f.same(&other.$f) )* }
        }
        impl Spec for $t {
            #[allow(unused_variables)]
            fn spec<S: Sink>(&self, e: Endianness, out: &mut S) { $( self.$f.spec(e, out); )* }
        }
    }
}
plain!(Mixed { a: u8, b: Vec<u16>, c: u32 } [3]);
plain!(Pair { a: u8, b: u16 } [1]);
plain!(Tuple { 0: u16, 1: bool } [1]);
plain!(Unit { } [1]);
plain!(Plain { a: u16, b: u16 } [1]);
plain!(Wrapper { 0: u32 } [1]);
plain!(Padded { a: u8, b: u16 } [1]);

impl<T: Gen> Gen for Generic<T> {
    const SHAPES: usize = 1 + T::SHAPES;
    fn gen(shape: usize) -> Self { Generic { a: Gen::gen(shape), b: T::gen(0) } }
}
impl<T: Same> Same for Generic<T> {
    fn same(&self, other: &Self) -> bool { self.a.same(&other.a) && self.b.same(&other.b) }
}
impl<T: Spec> Spec for Generic<T> {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) { self.a.spec(e, out); self.b.spec(e, out); }
}

impl Gen for Enum {
    const SHAPES: usize = 4;
    fn gen(shape: usize) -> Self {
        match shape {
            0 => Enum::Empty,
            1 => Enum::Tuple(nd::any(), nd::any()),
            2 => Enum::Struct { a: nd::any() },
            _ => Enum::AfterTagged,
        }
    }
}
impl Same for Enum {
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (Enum::Empty, Enum::Empty) => true,
            (Enum::Tuple(a, b), Enum::Tuple(c, d)) => a == c && b == d,
            (Enum::Struct { a }, Enum::Struct { a: b }) => a == b,
            (Enum::AfterTagged, Enum::AfterTagged) => true,
            _ => false,
        }
    }
}
impl Spec for Enum {
    fn spec<S: Sink>(&self, e: Endianness, out: &mut S) {
        match self {
            Enum::Empty => 0u32.spec(e, out),
            Enum::Tuple(a, b) => {
                1u32.spec(e, out);
                a.spec(e, out);
                b.spec(e, out);
            }
            Enum::Struct { a } => {
                0x01020304u32.spec(e, out);
                a.spec(e, out);
            }
            Enum::AfterTagged => 0x01020305u32.spec(e, out),
        }
    }
}
