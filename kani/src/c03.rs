//! C03: the reported size is exact and buffers are written only within it.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::types::*;
use crate::util::*;
use speedy::{Endianness, Writable};

fn case<const N: usize, T: Gen + Writable<Ctx>>(shape: usize, e: Endianness) {
    let v = T::gen(shape);
    match v.bytes_needed() {
        Ok(needed) => {
            let mut counter = Counter::new(e);
            assert!(v.write_to(&mut counter).is_ok(), "C03: a value with a reported size can be written");
            assert!(counter.count == needed, "C03: the reported size is the number of bytes which are written");
        }
        Err(_) => panic!("C03: the size of every value is reported"),
    }
}

fn check<const N: usize, T: Gen + Writable<Ctx>>(shapes: &[usize]) {
    for shape in shapes {
        case::<N, T>(*shape, Endianness::LittleEndian);
        case::<N, T>(*shape, Endianness::BigEndian);
    }
}

for_types!(check);

/// The functions which serialize into memory, against the same value written through the contract of `Writer`.
pub mod sinks {
    use super::*;

    #[inline(always)]
    fn sinks<const N: usize, T: Gen + Writable<Ctx>>(shape: usize) {
        let v = T::gen(shape);
        let e = nd::endianness();
        let mut expected = Dst::<N>::new(e);
        assert!(v.write_to(&mut expected).is_ok());
        let needed = expected.n;
        assert!(needed < N);

        // The buffer is larger than necessary.
        let before: [u8; N] = nd::any();
        let mut buffer = before;
        assert!(v.write_to_buffer_with_ctx(Ctx(e), &mut buffer).is_ok(), "C03: a large enough buffer is accepted");
        assert_same_bytes!(buffer, expected.d, needed, "C03: a buffer starts with exactly the bytes of the value");
        let i = needed + nd::idx(N - needed);
        assert!(buffer[i] == before[i], "C03: nothing is written past the reported size");

        // Exactly as large as necessary.
        let mut exact = before;
        assert!(v.write_to_buffer_with_ctx(Ctx(e), &mut exact[..needed]).is_ok(), "C03: a buffer of exactly the reported size is accepted");
        assert_same_bytes!(exact, expected.d, needed, "C03: the bytes written do not depend on the size of the buffer");

        // Too small.
        let mut n = 0;
        while n < needed {
            let mut small = before;
            match v.write_to_buffer_with_ctx(Ctx(e), &mut small[..n]) {
                Err(error) => assert!(error.kind == Kind::OutputBufferIsTooSmall, "C03: a buffer which is too small is reported as such"),
                Ok(()) => panic!("C03: a buffer which is too small is rejected"),
            }
            assert_same_bytes!(small, before, N, "C03: a buffer which is too small is left untouched");
            n += 1;
        }
    }

    #[inline(always)]
    fn vector<const N: usize, T: Gen + Writable<Ctx>>(shape: usize) {
        let v = T::gen(shape);
        let e = nd::endianness();
        let mut expected = Dst::<N>::new(e);
        assert!(v.write_to(&mut expected).is_ok());
        match v.write_to_vec_with_ctx(Ctx(e)) {
            Ok(vec) => {
                assert!(vec.len() == expected.n, "C03: a vector has exactly the reported size");
                assert_same_bytes!(vec, expected.d, expected.n, "C03: a vector contains exactly the bytes of the value");
                std::mem::forget(vec);
            }
            Err(_) => panic!("C03: every value can be written into a vector"),
        }
    }

    /// A value whose parts are written one by one, i.e. which appends to the collector at several positions, and which
    /// may write fewer or more bytes than it reports.
    struct Pieces {
        reported: usize,
        first: [u8; 3],
        second: [u8; 2],
        count: usize,
    }

    impl Writable<Ctx> for Pieces {
        fn write_to<W: ?Sized + speedy::Writer<Ctx>>(&self, writer: &mut W) -> Result<(), E> {
            if self.count > 0 {
                writer.write_bytes(&self.first)?;
            }
            if self.count > 1 {
                writer.write_bytes(&self.second)?;
            }
            Ok(())
        }

        fn bytes_needed(&self) -> Result<usize, E> {
            Ok(self.reported)
        }
    }

    /// Whatever a hand-written impl reports, only the buffer is ever written.
    #[inline(always)]
    fn pieces(reported: usize, count: usize, length: usize) {
        let v = Pieces { reported, first: nd::any(), second: nd::any(), count };
        let writes = if count == 0 { 0 } else if count == 1 { 3 } else { 5 };
        let before: [u8; 8] = nd::any();
        let mut buffer = before;
        let result = v.write_to_buffer_with_ctx(Ctx(nd::endianness()), &mut buffer[..length]);
        if result.is_ok() {
            assert!(length >= writes, "C03: success means that everything was written");
            let i = nd::idx(8);
            let expected = if i < 3 && writes > 0 { v.first[i] } else if i >= 3 && i < 5 && writes > 3 { v.second[i - 3] } else { before[i] };
            assert!(buffer[i] == expected, "C03: the bytes are written in order and nothing else is");
        } else {
            assert!(reported > length || writes > reported, "C03: a large enough buffer is accepted");
        }
        let i = nd::idx(8);
        assert!(i < length || buffer[i] == before[i], "C03: nothing is written past the buffer");
    }

    harnesses! {
        [20] buffer_u32 { sinks::<6, u32>(0) }
        [20] buffer_unit { sinks::<2, ()>(0) }
        [20] buffer_vec { sinks::<7, Vec<u8>>(1) }
        [20] buffer_slice { sinks::<9, Vec<u16>>(2) }
        [20] buffer_pair { sinks::<5, Pair>(0) }
        [20] buffer_option { sinks::<5, Option<u16>>(0); sinks::<5, Option<u16>>(1) }
        [20] vec_u32 { vector::<6, u32>(0); vector::<2, ()>(0) }
        [20] vec_vec { vector::<8, Vec<u16>>(0); vector::<8, Vec<u16>>(2) }
        [20] vec_pair { vector::<5, Pair>(0); vector::<5, Option<u16>>(1) }
        [20] pieces_exact { pieces(5, 2, 5); pieces(5, 2, 6); pieces(5, 2, 4); pieces(3, 1, 3) }
        [20] pieces_misreported { pieces(4, 2, 4); pieces(3, 2, 4); pieces(0, 2, 0); pieces(0, 1, 8); pieces(8, 1, 8); pieces(1, 0, 1) }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c03);
}

/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept_zoo {
    for_swept_zoo!(c03);
}
