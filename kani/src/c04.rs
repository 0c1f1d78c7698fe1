//! C04: decoding arbitrary in-memory bytes is safe and stays in bounds.
//!
//! `readers`: `BufferReader` and `CopyingBufferReader` fulfill the contract of `Reader` (the model is `Src`).
//! Here: every type, on any bytes, through that contract.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::types::*;
use crate::util::*;
use speedy::{Endianness, Readable, Reader};

/// Arbitrary bytes, of which the first `n` are the input; any byte order.
#[inline(always)]
pub fn decode<const N: usize, T: Same + Readable<'static, Ctx>>(e: Endianness, data: [u8; N], n: usize) {
    let input = nd::forever(&data[..n]);
    let mut borrowing = Src::<BORROWING>::new(e, input);
    let a = T::read_from(&mut borrowing);
    let mut copying = Src::<COPYING>::new(e, input);
    let b = T::read_from(&mut copying);
    assert!(borrowing.pos <= n && copying.pos <= n, "C04: no more than the whole input is consumed");
    match (&a, &b) {
        (Ok(a), Ok(b)) => assert!(a.same(b), "C04: borrowing and copying decoding give the same value"),
        (Err(_), Err(_)) => {}
        _ => panic!("C04: borrowing and copying decoding succeed in the same cases"),
    }
    assert!(borrowing.pos == copying.pos, "C04: borrowing and copying decoding consume the same bytes");
    std::mem::forget((a, b));
}

for_inputs! { |_: usize| [Endianness::LittleEndian, Endianness::BigEndian] }

/// Inputs which claim to have more elements than there is input for.
pub mod hostile {
    use super::*;

    /// Counts which do not fit the rest of the input: `size` is the least size of an element.
    #[inline(always)]
    fn hostile<const N: usize, T: Readable<'static, Ctx>>(size: usize) {
        for e in [Endianness::LittleEndian, Endianness::BigEndian] {
            for count in [((N - 4) / size + 1) as u32, 0x4000_0000, 0x8000_0001, 0xffff_ffff] {
                let mut data: [u8; N] = nd::any();
                let c = if e == Endianness::LittleEndian { count.to_le_bytes() } else { count.to_be_bytes() };
                data[0] = c[0];
                data[1] = c[1];
                data[2] = c[2];
                data[3] = c[3];
                let input = nd::forever(&data[..]);
                let mut reader = Src::<BORROWING>::new(e, input);
                match T::read_from(&mut reader) {
                    Ok(_) => panic!("C04: a container cannot have more elements than there is input for"),
                    Err(error) => assert!(error.eof, "C04: a container which does not fit the input fails with an end-of-input error"),
                }
                let mut reader = Src::<COPYING>::new(e, input);
                match T::read_from(&mut reader) {
                    Ok(_) => panic!("C04: a container cannot have more elements than there is input for"),
                    Err(error) => assert!(error.eof, "C04: a container which does not fit the input fails with an end-of-input error"),
                }
            }
        }
    }

    /// Any count which does not fit the rest of the input, for `read_vec` and `read_cow` (`usize` lengths).
    #[inline(always)]
    fn unbacked<T: Readable<'static, Ctx> + Clone + 'static>() {
        let size = std::mem::size_of::<T>();
        let data: [u8; 4] = nd::any();
        let input = nd::forever(&data[..]);
        let count: usize = nd::any();
        nd::assume(count > 4 / size);
        let e = nd::endianness();
        let mut reader = Src::<BORROWING>::new(e, input);
        match reader.read_vec::<T>(count) {
            Ok(_) => panic!("C04: a vector cannot have more elements than there is input for"),
            Err(error) => assert!(error.eof, "C04: a vector which does not fit the input fails with an end-of-input error"),
        }
        let mut reader = Src::<BORROWING>::new(e, input);
        match reader.read_cow::<T>(count) {
            Ok(_) => panic!("C04: a slice cannot have more elements than there is input for"),
            Err(error) => assert!(error.eof, "C04: a slice which does not fit the input fails with an end-of-input error"),
        }
    }

    /// Counts what it gets.
    struct Counter;
    impl<T> FromIterator<T> for Counter {
        #[inline(always)]
        fn from_iter<I: IntoIterator<Item = T>>(items: I) -> Self {
            let mut n = 0;
            for item in items {
                std::mem::forget(item);
                n += 1;
                assert!(n <= 4, "C04: a collection cannot have more elements than there is input for");
            }
            Counter
        }
    }

    /// The same for `read_collection` and `read_key_value_collection`.
    #[inline(always)]
    fn unbacked_collection<const KIND: u8, T: Readable<'static, Ctx> + 'static>(e: Endianness) {
        let size = std::mem::size_of::<T>();
        let data: [u8; 4] = nd::any();
        let input = nd::forever(&data[..]);
        let count: usize = nd::any();
        nd::assume(count > 4 / size);
        let mut reader = Src::<KIND>::new(e, input);
        let result = reader.read_collection::<T, Counter>(count);
        assert!(result.is_err(), "C04: a collection which does not fit the input fails");
    }

    #[inline(always)]
    fn unbacked_map<const KIND: u8, K: Readable<'static, Ctx> + 'static, V: Readable<'static, Ctx> + 'static>(e: Endianness) {
        let size = std::mem::size_of::<K>() + std::mem::size_of::<V>();
        let data: [u8; 4] = nd::any();
        let input = nd::forever(&data[..]);
        let count: usize = nd::any();
        nd::assume(count > 4 / size);
        let mut reader = Src::<KIND>::new(e, input);
        let result = reader.read_key_value_collection::<K, V, Counter>(count);
        assert!(result.is_err(), "C04: a collection which does not fit the input fails");
    }

    harnesses! {
        [8] unbacked_set_u8 { unbacked_collection::<BORROWING, u8>(Endianness::BigEndian); unbacked_collection::<COPYING, u8>(Endianness::LittleEndian) }
        [8] unbacked_set_u16 { unbacked_collection::<BORROWING, u16>(Endianness::LittleEndian) }
        [8] unbacked_set_u16_swapped { unbacked_collection::<BORROWING, u16>(Endianness::BigEndian) }
        [8] unbacked_set_u16_copying { unbacked_collection::<COPYING, u16>(Endianness::LittleEndian) }
        [8] unbacked_set_u64 { unbacked_collection::<BORROWING, u64>(Endianness::LittleEndian); unbacked_collection::<COPYING, u64>(Endianness::BigEndian) }
        [8] unbacked_map_u8_u8 { unbacked_map::<BORROWING, u8, u8>(Endianness::BigEndian); unbacked_map::<COPYING, u8, u8>(Endianness::LittleEndian) }
        [8] unbacked_map_u16_u8 { unbacked_map::<BORROWING, u16, u8>(Endianness::LittleEndian) }
        [8] unbacked_map_u64_u8 { unbacked_map::<BORROWING, u64, u8>(Endianness::LittleEndian); unbacked_map::<COPYING, u64, u8>(Endianness::BigEndian) }
        #[bounded]
        [20] hostile_primitive { hostile::<7, Vec<u8>>(1); hostile::<9, Vec<u64>>(8); hostile::<9, Box<[u16]>>(2) }
        #[bounded]
        [20] hostile_cow { hostile::<7, Cow<'static, [u8]>>(1); hostile::<9, Cow<'static, [u16]>>(2); hostile::<9, Cow<'static, [char]>>(4) }
        #[bounded]
        [20] hostile_composite { hostile::<8, Vec<char>>(4); hostile::<8, Vec<Pair>>(3); hostile::<8, Vec<Enum>>(4) }
        #[bounded]
        [20] hostile_plain { hostile::<8, Vec<Plain>>(4); hostile::<8, Vec<Padded>>(3); hostile::<8, Cow<'static, [Plain]>>(4) }
        #[bounded]
        [20] hostile_vec { hostile::<8, Vec<Vec<u8>>>(4); hostile::<8, Vec<Option<u64>>>(1) }
        #[bounded]
        #[utf8]
        [20] hostile_string { hostile::<7, String>(1); hostile::<7, Box<str>>(1); hostile::<7, Cow<'static, str>>(1) }
        [20] unbacked_u8 { unbacked::<u8>() }
        [20] unbacked_u16 { unbacked::<u16>() }
        [20] unbacked_u32 { unbacked::<u32>() }
        [20] unbacked_u64 { unbacked::<u64>() }
        [20] unbacked_u128 { unbacked::<u128>() }
    }
}

/// Both in-memory readers against their contract, in every state: `START` bytes have been consumed before.
pub mod readers {
    use super::*;

    const N: usize = 6;
    static mut START: usize = 0x5EED_0003;
    static mut LENGTH: usize = 0x5EED_0004;

    fn start<'a, R: Reader<'a, Ctx>>(r: &mut R) {
        assert!(r.skip_bytes(unsafe { START }).is_ok(), "C04: skipping within the input succeeds");
    }

    fn length() -> usize {
        unsafe { LENGTH }
    }

    type Bytes = (Result<(), E>, [u8; N]);
    type Borrowed = Option<Result<(usize, usize), E>>;

    probe!(ReadBytes(Bytes) |r| { start(r); let mut out = [0xAA; N]; (r.read_bytes(&mut out[..length()]), out) });
    probe!(ReadPtr(Bytes) |r| { start(r); let mut out = [0xAA; N]; (unsafe { r.read_bytes_into_ptr(out.as_mut_ptr(), length()) }, out) });
    probe!(PeekBytes(Bytes) |r| { start(r); let mut out = [0xAA; N]; (r.peek_bytes(&mut out[..length()]), out) });
    probe!(PeekPtr(Bytes) |r| { start(r); let mut out = [0xAA; N]; (unsafe { r.peek_bytes_into_ptr(out.as_mut_ptr(), length()) }, out) });
    probe!(Skip(Result<(), E>) |r| { start(r); r.skip_bytes(length()) });
    probe!(Can(Option<bool>) |r| { start(r); r.can_read_at_least(length()) });
    probe!(Borrow(Borrowed) |r| { start(r); r.read_bytes_borrowed(length()).map(|b| b.map(|b| (b.as_ptr() as usize, b.len()))) });
    probe!(BorrowReader(Borrowed) |r| { start(r); r.read_bytes_borrowed_from_reader(length()).map(|b| b.map(|b| (b.as_ptr() as usize, b.len()))) });
    probe!(UntilEof(Option<(usize, usize)>) |r| { start(r); r.read_bytes_borrowed_until_eof().map(|b| (b.as_ptr() as usize, b.len())) });

    struct Case {
        data: [u8; N],
        n: usize,
        start: usize,
        length: usize,
    }

    #[inline(always)]
    fn case(length: usize) -> Case {
        let n = nd::upto(N);
        let start = nd::upto(N);
        nd::assume(start <= n);
        unsafe {
            START = start;
            LENGTH = length;
        }
        Case { data: nd::any(), n, start, length }
    }

    #[inline(always)]
    fn run<const BORROW: bool, T: Readable<'static, Ctx>>(c: &Case) -> (T, usize) {
        let ctx = Ctx(nd::endianness());
        let input = nd::forever(&c.data[..c.n]);
        let (result, consumed) = if BORROW { T::read_with_length_from_buffer_with_ctx(ctx, input) } else { T::read_with_length_from_buffer_copying_data_with_ctx(ctx, input) };
        assert!(consumed <= c.n, "C04: no more than the whole input is consumed");
        match result {
            Ok(v) => (v, consumed),
            Err(_) => panic!("C04: a type without any requirements can always be read"),
        }
    }

    /// The bytes are copied exactly if there are enough of them.
    #[inline(always)]
    fn copied(c: &Case, consumed: usize, (result, out): Bytes, advances: bool) {
        let fits = c.length <= c.n - c.start;
        match result {
            Ok(()) => {
                assert!(fits, "C04: nothing past the end of the input is read");
                let i = nd::idx(N);
                assert!(out[i] == if i < c.length { c.data[c.start + i] } else { 0xAA }, "C04: exactly the next bytes of the input are read");
            }
            Err(error) => {
                assert!(!fits && error.eof, "C04: reading fails only at the end of the input");
            }
        }
        assert!(consumed == c.start + if fits && advances { c.length } else { 0 }, "C04: exactly what was read is consumed");
    }

    #[inline(always)]
    fn borrowed(c: &Case, consumed: usize, result: Borrowed) {
        let fits = c.length <= c.n - c.start;
        match result {
            Some(Ok((ptr, length))) => {
                assert!(fits, "C04: nothing past the end of the input is borrowed");
                assert!(ptr == c.data.as_ptr() as usize + c.start && length == c.length, "C04: exactly the next bytes of the input are borrowed");
            }
            Some(Err(error)) => assert!(!fits && error.eof, "C04: borrowing fails only at the end of the input"),
            None => panic!("C04: in-memory input can be borrowed"),
        }
        assert!(consumed == c.start + if fits { c.length } else { 0 }, "C04: exactly what was borrowed is consumed");
    }

    #[inline(always)]
    fn copies<const BORROW: bool>() {
        let c = case(nd::upto(N));
        let (v, consumed) = run::<BORROW, ReadBytes>(&c);
        copied(&c, consumed, v.0, true);
        let (v, consumed) = run::<BORROW, ReadPtr>(&c);
        copied(&c, consumed, v.0, true);
    }

    #[inline(always)]
    fn peeks<const BORROW: bool>() {
        let c = case(nd::upto(N));
        let (v, consumed) = run::<BORROW, PeekBytes>(&c);
        copied(&c, consumed, v.0, false);
        let (v, consumed) = run::<BORROW, PeekPtr>(&c);
        copied(&c, consumed, v.0, false);
    }

    #[inline(always)]
    fn skips<const BORROW: bool>() {
        let c = case(nd::any());
        let fits = c.length <= c.n - c.start;
        let (v, consumed) = run::<BORROW, Skip>(&c);
        match v.0 {
            Ok(()) => assert!(fits && consumed == c.start + c.length, "C04: skipping consumes exactly the length"),
            Err(error) => assert!(!fits && error.eof && consumed == c.start, "C04: skipping fails only at the end of the input"),
        }
        let (v, consumed) = run::<BORROW, Can>(&c);
        assert!(v.0 == Some(fits) && consumed == c.start, "C04: whether there is enough input is known exactly");
    }

    #[inline(always)]
    fn rest(c: &Case) {
        let (v, consumed) = run::<true, UntilEof>(c);
        match v.0 {
            Some((ptr, length)) => assert!(ptr == c.data.as_ptr() as usize + c.start && length == c.n - c.start, "C04: the rest of the input is borrowed exactly"),
            None => panic!("C04: in-memory input can be borrowed"),
        }
        assert!(consumed == c.n, "C04: the rest of the input is consumed");
    }

    harnesses! {
        #[bounded]
        [8] read_borrowing { copies::<true>() }
        #[bounded]
        [8] read_copying { copies::<false>() }
        #[bounded]
        [8] peek_borrowing { peeks::<true>() }
        #[bounded]
        [8] peek_copying { peeks::<false>() }
        #[bounded]
        [8] skip_borrowing { skips::<true>() }
        #[bounded]
        [8] skip_copying { skips::<false>() }
        #[bounded]
        [8] borrow {
            let c = case(nd::any());
            let (v, consumed) = run::<true, Borrow>(&c);
            borrowed(&c, consumed, v.0);
            let (v, consumed) = run::<true, BorrowReader>(&c);
            borrowed(&c, consumed, v.0);
            rest(&c);
        }
        #[bounded]
        [8] borrow_copying {
            let c = case(nd::any());
            let (v, consumed) = run::<false, BorrowReader>(&c);
            borrowed(&c, consumed, v.0);
            let (v, consumed) = run::<false, Borrow>(&c);
            assert!(v.0.is_none() && consumed == c.start, "C04: a copying reader does not hand out borrowed data");
            let (v, consumed) = run::<false, UntilEof>(&c);
            assert!(v.0.is_none() && consumed == c.start, "C04: a copying reader does not hand out borrowed data");
        }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c04_strict);
}

/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept_zoo {
    for_swept_zoo!(c04);
}
