//! C05: declared minimum sizes are true lower bounds.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::types::*;
use crate::util::*;
use crate::zoo::*;
use speedy::{Endianness, Readable, Writable};

#[inline(always)]
fn bound<T: Gen + Writable<Ctx> + Readable<'static, Ctx>>(shape: usize) {
    let v = T::gen(shape);
    let mut counter = Counter::new(Endianness::LittleEndian);
    if v.write_to(&mut counter).is_err() {
        panic!("C05: the value can be serialized");
    }
    assert!(<T as Readable<'static, Ctx>>::minimum_bytes_needed() <= counter.count, "C05: the declared minimum is not more than the size of an encoding");
    std::mem::forget(v);
}

#[inline(always)]
fn check<const N: usize, T: Gen + Writable<Ctx> + Readable<'static, Ctx>>(shapes: &[usize]) {
    let mut i = 0;
    while i < shapes.len() {
        bound::<T>(shapes[i]);
        i += 1;
    }
}

for_types!(check);

pub mod derived {
    use super::*;
    for_zoo!(check);
}

/// The smallest encodings, alone and as elements of a container, through the functions which make use of the minimum.
pub mod smallest {
    use super::*;

    #[inline(always)]
    fn accepted<const N: usize, T: Gen + Writable<Ctx> + Readable<'static, Ctx>>(shape: usize) {
        let e = Endianness::LittleEndian;
        let mut out = Dst::<N>::new(e);
        let v = T::gen(shape);
        assert!(v.write_to(&mut out).is_ok());
        let input = nd::forever(&out.d[..out.n]);
        match T::read_from_buffer_with_ctx(Ctx(e), input) {
            Ok(v) => std::mem::forget(v),
            Err(_) => panic!("C05: an encoding is not too short (borrowing)"),
        }
        match T::read_from_buffer_copying_data_with_ctx(Ctx(e), input) {
            Ok(v) => std::mem::forget(v),
            Err(_) => panic!("C05: an encoding is not too short (copying)"),
        }
        std::mem::forget(v);
    }

    /// Two elements at the very end of the input.
    #[inline(always)]
    fn element<const N: usize, T: Gen + Writable<Ctx> + Readable<'static, Ctx>>(shape: usize) {
        let e = Endianness::LittleEndian;
        let mut out = Dst::<N>::new(e);
        let v = [T::gen(shape), T::gen(shape)];
        assert!(2u32.write_to(&mut out).is_ok());
        assert!(v[0].write_to(&mut out).is_ok());
        assert!(v[1].write_to(&mut out).is_ok());
        let input = nd::forever(&out.d[..out.n]);
        match Vec::<T>::read_from(&mut Src::<BORROWING>::new(e, input)) {
            Ok(r) => {
                assert!(r.len() == 2);
                std::mem::forget(r);
            }
            Err(_) => panic!("C05: an encoding is not too short as an element of a container"),
        }
        std::mem::forget(v);
    }

    /// `[T; 2]`, `(T, T)` and `Option<T>` at the very end of the input.
    #[inline(always)]
    fn part<const N: usize, T: Gen + Writable<Ctx> + Readable<'static, Ctx>>(shape: usize) {
        let e = Endianness::LittleEndian;
        let mut out = Dst::<N>::new(e);
        let v = [T::gen(shape), T::gen(shape)];
        out.d[0] = 1;
        out.n = 1;
        assert!(v[0].write_to(&mut out).is_ok());
        let one = out.n;
        assert!(v[1].write_to(&mut out).is_ok());
        let input = nd::forever(&out.d[..out.n]);
        match <[T; 2]>::read_from_buffer_with_ctx(Ctx(e), &input[1..]) {
            Ok(r) => std::mem::forget(r),
            Err(_) => panic!("C05: an encoding is not too short as an element of an array"),
        }
        match <(T, T)>::read_from_buffer_with_ctx(Ctx(e), &input[1..]) {
            Ok(r) => std::mem::forget(r),
            Err(_) => panic!("C05: an encoding is not too short as an element of a tuple"),
        }
        match Option::<T>::read_from_buffer_with_ctx(Ctx(e), &input[..one]) {
            Ok(r) => std::mem::forget(r),
            Err(_) => panic!("C05: an encoding is not too short as an optional"),
        }
        match Result::<T, ()>::read_from_buffer_with_ctx(Ctx(e), &input[..one]) {
            Ok(r) => std::mem::forget(r),
            Err(_) => panic!("C05: an encoding is not too short as a result"),
        }
        std::mem::forget(v);
    }

    harnesses! {
        #[bounded]
        [20] alone_standard { accepted::<5, Vec<u8>>(0); accepted::<3, Option<u16>>(0); accepted::<2, Result<(), u32>>(0); accepted::<18, IpAddr>(0); accepted::<1, [u32; 0]>(0); accepted::<1, ()>(0) }
        #[bounded]
        [20] alone_varint { accepted::<4, Varint>(0); accepted::<4, VarintTuple>(0); accepted::<3, EofVarint>(0) }
        #[bounded]
        [20] alone_lengths { accepted::<4, LenField>(0); accepted::<4, Len7>(0); accepted::<4, Len8>(0); accepted::<4, Len16>(0); accepted::<4, LenVarint>(0) }
        #[bounded]
        [20] alone_skip { accepted::<4, Skip>(0); accepted::<4, SkipTuple>(0); accepted::<4, SkipC>(0) }
        #[bounded]
        [20] alone_enums { accepted::<4, Tag7>(0); accepted::<4, Tag8>(0); accepted::<4, Tag16>(0); accepted::<9, Tag64>(0); accepted::<4, TagVarint>(0) }
        #[bounded]
        [20] alone_peek { accepted::<4, Peek>(0); accepted::<4, Peek8>(0); accepted::<4, PeekVarint>(0) }
        #[bounded]
        [20] alone_constant { accepted::<16, Constant>(0); accepted::<10, ConstantOption>(0) }
        #[bounded]
        [20] element_varint { element::<10, Varint>(0) }
        #[bounded]
        [20] element_lengths { element::<8, LenField>(0); element::<8, Len8>(0) }
        #[bounded]
        [20] element_skip { element::<10, Skip>(0); element::<10, SkipC>(0); element::<10, SkipTuple>(0) }
        #[bounded]
        [20] element_enum { element::<8, Tag8>(0); element::<8, TagVarint>(0); element::<12, Discriminant>(0) }
        #[bounded]
        [20] element_peek { element::<8, Peek8>(0); element::<10, Peek>(0) }
        #[bounded]
        [20] element_eof { element::<10, Eof>(0) }
        #[bounded]
        [20] element_option { element::<8, Option<u64>>(0); element::<10, EofTuple>(0) }
        #[bounded]
        [20] part_varint { part::<8, Varint>(0) }
        #[bounded]
        [20] part_skip { part::<8, Skip>(0) }
        #[bounded]
        [20] part_enum { part::<8, Tag8>(0) }
        #[bounded]
        [20] part_peek { part::<8, Peek8>(0) }
        #[bounded]
        [20] part_option { part::<8, Option<u16>>(0) }
    }

    /// Truncated input is rejected because it is too short, whichever minimum applies.
    #[inline(always)]
    fn rejected<T: Readable<'static, Ctx>>() {
        let data: [u8; 8] = nd::any();
        let minimum = <T as Readable<'static, Ctx>>::minimum_bytes_needed();
        let n = nd::upto(8);
        nd::assume(n < minimum);
        match T::read_from_buffer_with_ctx(Ctx(nd::endianness()), nd::forever(&data[..n])) {
            Ok(_) => panic!("C05: input shorter than the minimum is not a complete encoding"),
            Err(error) => assert!(error.kind == Kind::InputBufferIsTooSmall || error.eof, "C05: input shorter than the minimum is reported as too short"),
        }
    }

    pub mod short {
        use super::*;
        harnesses! {
            [20] standard { rejected::<u64>(); rejected::<(u8, u16, u32)>(); rejected::<[u16; 3]>(); rejected::<char>() }
            [20] derived { rejected::<Pair>(); rejected::<Constant>(); rejected::<Varint>(); rejected::<Tag64>(); rejected::<Peek>() }
        }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c05);
}

/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept_zoo {
    for_swept_zoo!(c05_zoo);
}
