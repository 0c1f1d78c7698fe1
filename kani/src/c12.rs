//! C12: failing in the middle of a read neither leaks, double-drops nor corrupts.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use speedy::{Context, Endianness, Readable, Reader};
use std::borrow::Cow;

#[cfg(kani)]
const MOST: usize = 12;
#[cfg(not(kani))]
const MOST: usize = 300;

/// What happened to the elements: the next one, at which one to fail, and how often each was dropped.
// (Kani merges statics with constants of the same initial bytes, even if they are mutable; hence the odd values.)
static mut NEXT: usize = 0x5EED_0001;
static mut FAIL: usize = 0x5EED_0002;
static mut DROPPED: [u8; MOST] = [0x5E; MOST];

const STOPPED: E = E { kind: Kind::OutOfRangeLength, eof: false };

/// An element which counts; `copy` makes sure that it is not something else's memory.
pub struct Tracked {
    id: usize,
    copy: usize,
    byte: u8,
}

impl<'a, C: Context> Readable<'a, C> for Tracked {
    #[inline]
    fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
        let byte = reader.read_u8()?;
        unsafe {
            if NEXT == FAIL {
                return Err(speedy::private::error_out_of_range_length());
            }
            let id = NEXT;
            NEXT += 1;
            Ok(Tracked { id, copy: !id, byte })
        }
    }

    #[inline]
    fn minimum_bytes_needed() -> usize {
        1
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        unsafe {
            assert!(self.copy == !self.id && self.id < NEXT, "C12: only what was constructed is dropped");
            DROPPED[self.id] += 1;
        }
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        panic!("C12: nothing is cloned")
    }
}

/// Without any size; only the number of drops can be checked.
pub struct Nothing;
impl<'a> Readable<'a, Ctx> for Nothing {
    #[inline]
    fn read_from<R: Reader<'a, Ctx>>(_: &mut R) -> Result<Self, E> {
        unsafe {
            if NEXT == FAIL {
                return Err(STOPPED);
            }
            NEXT += 1;
            Ok(Nothing)
        }
    }
}
impl Drop for Nothing {
    fn drop(&mut self) {
        unsafe {
            DROPPED[0] += 1;
        }
    }
}

/// Visits the elements in the order in which they are encoded.
pub trait Elements {
    fn visit(&self, next: &mut usize);
}
impl Elements for Tracked {
    fn visit(&self, next: &mut usize) {
        unsafe {
            assert!(self.id == *next && self.copy == !self.id, "C12: the value has every element, in order");
            assert!(DROPPED[self.id] == 0, "C12: no element of a value has been dropped");
        }
        *next += 1;
    }
}
impl Elements for u8 {
    fn visit(&self, _: &mut usize) {}
}
impl<T: Elements> Elements for [T] {
    fn visit(&self, next: &mut usize) {
        for v in self {
            v.visit(next);
        }
    }
}
macro_rules! elements_deref {
    ($([$($g:tt)*] $t:ty),*) => { $( impl<$($g)*> Elements for $t { fn visit(&self, next: &mut usize) { (**self).visit(next) } } )* };
}
elements_deref!([T: Elements] Vec<T>, [T: Elements] Box<T>, [T: Elements] Box<[T]>, [T: Elements + Clone] Cow<'static, [T]>);
impl<T: Elements, const N: usize> Elements for [T; N] {
    fn visit(&self, next: &mut usize) {
        self[..].visit(next)
    }
}
impl<T: Elements> Elements for Option<T> {
    fn visit(&self, next: &mut usize) {
        if let Some(v) = self {
            v.visit(next);
        }
    }
}
impl<T: Elements, U: Elements> Elements for Result<T, U> {
    fn visit(&self, next: &mut usize) {
        match self {
            Ok(v) => v.visit(next),
            Err(v) => v.visit(next),
        }
    }
}
macro_rules! elements_tuple {
    ($($n:ident)*) => {
        impl<$($n: Elements),*> Elements for ($($n,)*) {
            #[allow(non_snake_case)]
            fn visit(&self, next: &mut usize) {
                let ($($n,)*) = self;
                $( $n.visit(next); )*
            }
        }
    };
}
elements_tuple!(A);
elements_tuple!(A B);
elements_tuple!(A B C);
elements_tuple!(A B C D);
elements_tuple!(A B C D F G H I J K);
impl<T: Elements> Elements for std::ops::Range<T> {
    fn visit(&self, next: &mut usize) {
        self.start.visit(next);
        self.end.visit(next);
    }
}
impl<T: Elements> Elements for std::ops::RangeInclusive<T> {
    fn visit(&self, next: &mut usize) {
        self.start().visit(next);
        self.end().visit(next);
    }
}

/// Reads with `read`, failing at element `fail`; there are `available` elements in the input and `all` in the value.
#[inline(always)]
fn check<const KIND: u8, T: Elements>(input: &[u8], available: usize, all: usize, fail: usize, read: impl FnOnce(&mut Src<'static, KIND>) -> Result<T, E>) {
    unsafe {
        NEXT = 0;
        FAIL = fail;
        DROPPED = [0; MOST];
    }
    let mut reader = Src::<KIND>::new(Endianness::LittleEndian, nd::forever(input));
    let result = read(&mut reader);
    let constructed = unsafe { NEXT };
    match result {
        Ok(value) => {
            assert!(fail >= all && available >= all, "C12: the error which stopped the read is returned");
            assert!(constructed == all);
            let mut next = 0;
            value.visit(&mut next);
            assert!(next == all, "C12: the value has every element");
            drop(value);
        }
        Err(error) => {
            assert!(fail < all || available < all, "C12: nothing fails without a reason");
            if available >= all || (fail < available && constructed == fail) {
                assert!(error == STOPPED, "C12: the error which stopped the read is returned");
            } else {
                assert!(error.eof, "C12: the error which stopped the read is returned");
            }
        }
    }
    let mut i = 0;
    while i < MOST {
        let dropped = unsafe { DROPPED[i] };
        assert!(dropped == (i < constructed) as u8, "C12: everything constructed is dropped exactly once, and nothing else");
        i += 1;
    }
}

/// Every position of the failure, and input which ends early; `prefix` is followed by one byte per element.
#[inline(always)]
fn all<const KIND: u8, const N: usize, T: Elements + Readable<'static, Ctx>>(prefix: [u8; N], count: usize) {
    let mut input = [0u8; MOST + 20];
    let mut i = 0;
    while i < N {
        input[i] = prefix[i];
        i += 1;
    }
    let mut fail = 0;
    while fail <= count {
        check::<KIND, T>(&input[..N + count], count, count, fail, |reader| T::read_from(reader));
        fail += 1;
    }
    let mut available = 0;
    while available < count {
        check::<KIND, T>(&input[..N + available], available, count, usize::MAX, |reader| T::read_from(reader));
        available += 1;
    }
}

macro_rules! both {
    ($t:ty, $prefix:expr, $count:expr) => { {
        all::<STREAM, { $prefix.len() }, $t>($prefix, $count);
        all::<BORROWING, { $prefix.len() }, $t>($prefix, $count);
    } };
}

#[derive(Readable)]
pub struct Struct {
    pub a: Tracked,
    pub b: u8,
    pub c: Tracked,
    pub d: Option<Tracked>,
}
#[derive(Readable)]
pub struct TupleStruct(pub Tracked, pub Tracked, pub [Tracked; 2]);
#[derive(Readable)]
pub struct Counted {
    pub n: u8,
    #[speedy(length = n)]
    pub v: Vec<Tracked>,
    pub last: Tracked,
}
#[derive(Readable)]
pub struct UntilEof {
    pub first: Tracked,
    #[speedy(length = ..)]
    pub v: Vec<Tracked>,
}
#[derive(Readable)]
#[speedy(tag_type = u8)]
pub enum Enum {
    One(Tracked, Tracked),
    Two { a: Tracked, b: u8, c: Box<Tracked> },
}
#[derive(Readable)]
pub struct Late {
    pub a: Tracked,
    #[speedy(default_on_eof)]
    pub b: Option<(Tracked, Tracked)>,
}
/// Same field types, so that the compiler may not see a plain-data type here.
#[derive(Readable)]
#[repr(C)]
pub struct ReprC {
    pub a: Tracked,
    pub b: Tracked,
}
macro_rules! elements_struct {
    ($($t:ident [$($f:tt)*])*) => { $( impl Elements for $t { fn visit(&self, next: &mut usize) { elements_fields!(self next $($f)*); } } )* };
}
macro_rules! elements_fields {
    ($self:ident $next:ident $($f:tt)*) => { $( $self.$f.visit($next); )* };
}
elements_struct!(Struct [a c d] TupleStruct [0 1 2] Counted [v last] UntilEof [first v] ReprC [a b]);
impl Elements for Enum {
    fn visit(&self, next: &mut usize) {
        match self {
            Enum::One(a, b) => {
                a.visit(next);
                b.visit(next);
            }
            Enum::Two { a, c, .. } => {
                a.visit(next);
                c.visit(next);
            }
        }
    }
}

type Ten = (Tracked, Tracked, Tracked, Tracked, Tracked, Tracked, Tracked, Tracked, Tracked, Tracked);

harnesses! {
    #[bounded]
    [20] vec { both!(Vec<Tracked>, [3, 0, 0, 0], 3) }
    [20] vec_empty { both!(Vec<Tracked>, [0, 0, 0, 0], 0) }
    #[bounded]
    [20] boxed_slice { both!(Box<[Tracked]>, [2, 0, 0, 0], 2) }
    #[bounded]
    [20] cow { both!(Cow<'static, [Tracked]>, [2, 0, 0, 0], 2) }
    #[bounded]
    [20] array { both!([Tracked; 3], [0; 0], 3) }
    #[bounded]
    [20] array_nested { both!([[Tracked; 2]; 2], [0; 0], 4) }
    #[bounded]
    [20] array_of_none { both!([Tracked; 0], [0; 0], 0) }
    #[bounded]
    [20] vec_of_arrays { both!(Vec<[Tracked; 2]>, [2, 0, 0, 0], 4) }
    #[bounded]
    [20] vec_of_tuples { both!(Vec<(Tracked, Tracked)>, [2, 0, 0, 0], 4) }
    [20] tuple { both!((Tracked, Tracked, Tracked), [0; 0], 3) }
    [20] tuple_of_one { both!((Tracked,), [0; 0], 1) }
    [20] tuple_of_ten {
        for fail in [0, 4, 9, 10] {
            check::<STREAM, Ten>(&[0; 10], 10, 10, fail, |reader| Ten::read_from(reader));
        }
    }
    [20] option { both!(Option<Tracked>, [1], 1) }
    [20] option_none { both!(Option<Tracked>, [0], 0) }
    [20] result_ok { both!(Result<Tracked, u8>, [1], 1) }
    [20] result_err { both!(Result<u8, (Tracked, Tracked)>, [0], 2) }
    [20] boxed { both!(Box<(Tracked, Tracked)>, [0; 0], 2) }
    [20] range { both!(std::ops::Range<Tracked>, [0; 0], 2) }
    [20] range_inclusive { both!(std::ops::RangeInclusive<Tracked>, [0; 0], 2) }
    [20] array_of_boxes { both!([Box<Tracked>; 2], [0; 0], 2) }

    [20] tuple_struct { both!(TupleStruct, [0; 0], 4) }
    [20] structure_c { both!(ReprC, [0; 0], 2) }
    #[bounded]
    [20] structure_counted { both!(Counted, [2], 3) }
    [20] enum_one { both!(Enum, [0], 2) }
    #[bounded]
    [20] vec_of_structures { both!(Vec<ReprC>, [2, 0, 0, 0], 4) }
    #[bounded]
    [20] array_of_structures { both!([ReprC; 2], [0; 0], 4) }

    [20] enum_two {
        for (available, fail) in [(2, 0), (2, 1), (2, 2), (0, 9), (1, 9)] {
            let input = [1, 0, 0, 0];
            check::<STREAM, Enum>(&input[..match available { 0 => 1, 1 => 3, _ => 4 }], available, 2, fail, |reader| Enum::read_from(reader));
        }
    }
    [20] structure {
        for (n, available, fail) in [(5, 3, 0), (5, 3, 1), (5, 3, 2), (5, 3, 3), (0, 0, 9), (1, 1, 9), (2, 1, 9), (3, 2, 9), (4, 2, 9)] {
            let input = [0, 0, 0, 1, 0];
            check::<STREAM, Struct>(&input[..n], available, 3, fail, |reader| Struct::read_from(reader));
            check::<BORROWING, Struct>(&input[..n], available, 3, fail, |reader| Struct::read_from(reader));
        }
    }
    // A field which is missing at the end of the input is replaced; what there was of it is dropped.
    [20] late {
        for (n, constructed, fail) in [(1, 1, 9), (2, 1, 9), (3, 2, 9), (4, 3, 9), (4, 1, 1), (4, 2, 2)] {
            unsafe {
                NEXT = 0;
                FAIL = fail;
                DROPPED = [0; MOST];
            }
            let input = [0, 1, 0, 0];
            let mut reader = Src::<STREAM>::new(Endianness::LittleEndian, nd::forever(&input[..n]));
            let result = Late::read_from(&mut reader);
            unsafe {
                assert!(NEXT == constructed);
                match &result {
                    Ok(value) => {
                        assert!(fail == 9, "C12: the error which stopped the read is returned");
                        assert!(value.b.is_some() == (n == 4), "C12: a field which is not complete is replaced");
                        let kept = if n == 4 { 3 } else { 1 };
                        let mut i = 0;
                        while i < MOST {
                            assert!(DROPPED[i] == (i >= kept && i < constructed) as u8, "C12: exactly what is not part of the value has been dropped");
                            i += 1;
                        }
                    }
                    Err(error) => assert!(fail != 9 && *error == STOPPED, "C12: the error which stopped the read is returned"),
                }
                drop(result);
                let mut i = 0;
                while i < MOST {
                    assert!(DROPPED[i] == (i < constructed) as u8, "C12: everything constructed is dropped exactly once, and nothing else");
                    i += 1;
                }
            }
        }
    }
    #[bounded]
    [20] until_eof {
        for (n, constructed, fail) in [(3, 3, 9), (1, 1, 9), (3, 0, 0), (3, 1, 1), (3, 2, 2), (0, 0, 9)] {
            check::<STREAM, UntilEof>(&[0; 4][..n], n, if n == 0 { 1 } else { n }, fail, |reader| UntilEof::read_from(reader));
            unsafe { assert!(NEXT == constructed) };
        }
    }
    #[bounded]
    [20] until_eof_borrowing {
        for (n, constructed, fail) in [(3, 3, 9), (1, 1, 9), (3, 1, 1), (3, 2, 2)] {
            check::<BORROWING, UntilEof>(&[0; 4][..n], n, n, fail, |reader| UntilEof::read_from(reader));
            unsafe { assert!(NEXT == constructed) };
        }
    }

    // What maps and sets are read with.
    #[bounded]
    [20] collection {
        for (available, fail) in [(3, 0), (3, 1), (3, 2), (3, 3), (0, 9), (1, 9), (2, 9)] {
            check::<STREAM, Vec<Tracked>>(&[0; 4][..available], available, 3, fail, |reader| reader.read_collection::<Tracked, Vec<Tracked>>(3));
            check::<BORROWING, Vec<Tracked>>(&[0; 4][..available], available, 3, fail, |reader| reader.read_collection::<Tracked, Vec<Tracked>>(3));
        }
    }
    #[bounded]
    [20] key_value_collection {
        for (available, fail) in [(4, 0), (4, 1), (4, 2), (4, 3), (4, 4), (0, 9), (1, 9), (2, 9), (3, 9)] {
            check::<STREAM, Vec<(Tracked, Tracked)>>(&[0; 4][..available], available, 4, fail, |reader| reader.read_key_value_collection::<Tracked, Tracked, Vec<(Tracked, Tracked)>>(2));
        }
    }
    #[bounded]
    [20] key_value_collection_borrowing {
        for (available, fail) in [(4, 0), (4, 1), (4, 3), (4, 4), (3, 9)] {
            check::<BORROWING, Vec<(Tracked, Tracked)>>(&[0; 4][..available], available, 4, fail, |reader| reader.read_key_value_collection::<Tracked, Tracked, Vec<(Tracked, Tracked)>>(2));
        }
    }

    // Values without any size.
    #[bounded]
    [20] nothing {
        for fail in [0, 1, 2, 3] {
            unsafe {
                NEXT = 0;
                FAIL = fail;
                DROPPED = [0; MOST];
            }
            let input = [3u8, 0, 0, 0];
            let mut reader = Src::<STREAM>::new(Endianness::LittleEndian, nd::forever(&input));
            let result = Vec::<Nothing>::read_from(&mut reader);
            unsafe {
                match &result {
                    Ok(v) => assert!(v.len() == 3 && fail == 3 && DROPPED[0] == 0, "C12: the value has every element"),
                    Err(error) => assert!(fail < 3 && *error == STOPPED, "C12: the error which stopped the read is returned"),
                }
                drop(result);
                assert!(DROPPED[0] as usize == NEXT && NEXT == fail, "C12: everything constructed is dropped exactly once, and nothing else");
            }
        }
    }
    #[bounded]
    [20] nothing_array {
        for fail in [0, 1, 2, 3] {
            unsafe {
                NEXT = 0;
                FAIL = fail;
                DROPPED = [0; MOST];
            }
            let mut reader = Src::<STREAM>::new(Endianness::LittleEndian, nd::forever(&[]));
            let result = <[Nothing; 3]>::read_from(&mut reader);
            unsafe {
                match &result {
                    Ok(_) => assert!(fail == 3 && DROPPED[0] == 0, "C12: the value has every element"),
                    Err(error) => assert!(fail < 3 && *error == STOPPED, "C12: the error which stopped the read is returned"),
                }
                drop(result);
                assert!(DROPPED[0] as usize == NEXT && NEXT == fail, "C12: everything constructed is dropped exactly once, and nothing else");
            }
        }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c12);
}

/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept_zoo {
    for_swept_zoo!(c12);
}

/// Executed: more elements than Kani can follow.
#[cfg(not(kani))]
pub mod swept_drops {
    use super::*;
    harnesses! {
        #[native]
        [0] arrays {
            both!([Tracked; 9], [0; 0], 9);
            both!([Tracked; 16], [0; 0], 16);
            both!([Tracked; 33], [0; 0], 33);
            both!([Tracked; 100], [0; 0], 100);
            both!([Tracked; 257], [0; 0], 257);
            both!([[Tracked; 17]; 5], [0; 0], 85);
            both!([(Tracked, Tracked); 40], [0; 0], 80);
            both!([Box<Tracked>; 65], [0; 0], 65);
        }
        #[native]
        [0] vectors {
            both!(Vec<Tracked>, [17, 0, 0, 0], 17);
            both!(Vec<Tracked>, [100, 0, 0, 0], 100);
            both!(Vec<Tracked>, [0x01, 0x01, 0, 0], 257);
            both!(Box<[Tracked]>, [129, 0, 0, 0], 129);
            both!(Cow<'static, [Tracked]>, [65, 0, 0, 0], 65);
            both!(Vec<[Tracked; 9]>, [20, 0, 0, 0], 180);
            both!(Vec<(Tracked, Tracked)>, [70, 0, 0, 0], 140);
            both!([Vec<Tracked>; 1], [40, 0, 0, 0], 40);
            both!(Counted, [200], 201);
        }
    }
}
