//! C14: borrowed data points into the input and is only handed out when valid.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::util::*;
use speedy::private::{get_error_kind, ErrorKind};
use speedy::{Endianness, LittleEndian, Readable, Reader, Writable};
use std::borrow::Cow;

#[repr(align(16))]
struct Align<const N: usize>([u8; N]);

/// Elements with their value as little-endian bytes.
pub trait Element: Copy + 'static {
    fn is(&self, bytes: &[u8]) -> bool;
}
macro_rules! element {
    ($($t:ident)*) => { $(
        impl Element for $t {
            fn is(&self, bytes: &[u8]) -> bool {
                const N: usize = std::mem::size_of::<$t>();
                let mut i = 0;
                let own = self.to_le_bytes();
                while i < N {
                    if own[i] != bytes[i] {
                        return false;
                    }
                    i += 1;
                }
                true
            }
        }
    )* };
}
element!(u8 i8 u16 i16 u32 i32 f32 u64 i64 f64 u128 i128);

#[derive(Copy, Clone, Readable, Writable)]
#[repr(packed)]
pub struct Packed {
    pub a: u8,
    pub b: u16,
}
impl Element for Packed {
    fn is(&self, bytes: &[u8]) -> bool {
        let (a, b) = (self.a, self.b);
        a == bytes[0] && b == u16::from_le_bytes([bytes[1], bytes[2]])
    }
}
#[derive(Copy, Clone, Readable, Writable)]
#[repr(transparent)]
pub struct Byte(pub u8);
impl Element for Byte {
    fn is(&self, bytes: &[u8]) -> bool {
        self.0 == bytes[0]
    }
}
#[derive(Copy, Clone, Readable, Writable)]
#[repr(transparent)]
pub struct Word(pub u32);
impl Element for Word {
    fn is(&self, bytes: &[u8]) -> bool {
        self.0.is(bytes)
    }
}
#[derive(Copy, Clone, Readable, Writable)]
#[repr(C)]
pub struct Words {
    pub a: u16,
    pub b: u16,
}
impl Element for Words {
    fn is(&self, bytes: &[u8]) -> bool {
        self.a.is(bytes) && self.b.is(&bytes[2..])
    }
}

const S_MAX: usize = 16;

#[inline(always)]
fn put_count(data: &mut [u8], at: usize, count: u32, e: Endianness) {
    let c = if e == Endianness::LittleEndian { count.to_le_bytes() } else { count.to_be_bytes() };
    data[at] = c[0];
    data[at + 1] = c[1];
    data[at + 2] = c[2];
    data[at + 3] = c[3];
}

/// Checks a slice which has been handed out for the bytes at `start`.
#[inline(always)]
fn inside<T: Element>(slice: &[T], start: *const u8, length: usize, bytes: &[u8]) {
    assert!(slice.len() == length, "C14: a borrowed slice has the length which is encoded");
    if length > 0 {
        assert!(slice.as_ptr() as usize == start as usize, "C14: a borrowed slice is at the position of its encoding");
        assert!(slice.as_ptr() as usize % std::mem::align_of::<T>() == 0, "C14: a borrowed slice is aligned");
        let size = std::mem::size_of::<T>();
        let i = nd::idx(length);
        assert!(slice[i].is(&bytes[i * size..]), "C14: a borrowed slice has the right elements");
    }
}

/// `&[T]` in the byte order of the host, at `offset` bytes from an aligned address; `missing` bytes are missing.
#[inline(always)]
fn slice<const N: usize, T: Element + Readable<'static, LittleEndian>>(offset: usize, length: usize, missing: usize)
where
    &'static [T]: Readable<'static, LittleEndian>,
{
    let size = std::mem::size_of::<T>();
    let mut data: Align<N> = Align(nd::any());
    put_count(&mut data.0, offset + 1, length as u32, Endianness::LittleEndian);
    let end = offset + 1 + 4 + length * size + 1 - missing;
    let input = nd::forever(&data.0[offset..end]);
    let start = unsafe { data.0.as_ptr().add(offset + 5) };
    let aligned = start as usize % std::mem::align_of::<T>() == 0;
    match <(u8, &'static [T], u8)>::read_from_buffer_with_ctx(LittleEndian {}, input) {
        Ok((before, v, after)) => {
            assert!(missing == 0, "C14: nothing outside the input is borrowed");
            inside(v, start, length, &data.0[offset + 5..]);
            assert!(before == data.0[offset] && after == data.0[end - 1], "C14: what surrounds borrowed data is read from where it is");
        }
        Err(error) => {
            match get_error_kind(&error) {
                ErrorKind::UnalignedInput => assert!(!aligned && length > 0, "C14: aligned data can be borrowed"),
                ErrorKind::UnexpectedEndOfInput | ErrorKind::InputBufferIsTooSmall { .. } => assert!(missing > 0, "C14: complete data can be borrowed"),
                _ => panic!("C14: borrowing fails for a reason"),
            }
            std::mem::forget(error);
        }
    }
}

#[inline(always)]
fn array<const N: usize, const L: usize, T: Element>(offset: usize, missing: usize)
where
    &'static [T; L]: Readable<'static, LittleEndian>,
{
    let size = std::mem::size_of::<T>();
    let data: Align<N> = Align(nd::any());
    let end = offset + 1 + L * size + 1 - missing;
    let input = nd::forever(&data.0[offset..end]);
    let start = unsafe { data.0.as_ptr().add(offset + 1) };
    let aligned = start as usize % std::mem::align_of::<T>() == 0;
    match <(u8, &'static [T; L], u8)>::read_from_buffer_with_ctx(LittleEndian {}, input) {
        Ok((before, v, after)) => {
            assert!(missing == 0, "C14: nothing outside the input is borrowed");
            inside(v, start, L, &data.0[offset + 1..]);
            assert!(before == data.0[offset] && after == data.0[end - 1], "C14: what surrounds borrowed data is read from where it is");
        }
        Err(error) => {
            match get_error_kind(&error) {
                ErrorKind::UnalignedInput => assert!(!aligned && L > 0, "C14: aligned data can be borrowed"),
                ErrorKind::UnexpectedEndOfInput | ErrorKind::InputBufferIsTooSmall { .. } => assert!(missing > 0, "C14: complete data can be borrowed"),
                _ => panic!("C14: borrowing fails for a reason"),
            }
            std::mem::forget(error);
        }
    }
}

macro_rules! slices {
    ($t:ty, $s:literal, $offsets:expr) => { {
        const N: usize = 40 + 3 * $s;
        for offset in $offsets {
            slice::<N, $t>(offset, 2, 0);
        }
        slice::<N, $t>(3, 0, 0);
        slice::<N, $t>(3, 2, 2);
    } };
}
macro_rules! arrays {
    ($t:ty, $s:literal, $offsets:expr) => { {
        const N: usize = 40 + 3 * $s;
        for offset in $offsets {
            array::<N, 2, $t>(offset, 0);
        }
        array::<N, 2, $t>($s - 1, 2);
        array::<N, 0, $t>(1, 0);
    } };
}

/// Any byte order: data whose elements are single bytes, or which needs a conversion.
#[inline(always)]
fn any_order<const N: usize, T: Element>(e: Endianness, offset: usize, length: usize, missing: usize)
where
    &'static [T]: Readable<'static, Ctx>,
    &'static [T; 2]: Readable<'static, Ctx>,
{
    let size = std::mem::size_of::<T>();
    let convert = size > 1 && e == Endianness::BigEndian;
    let mut data: Align<N> = Align(nd::any());
    put_count(&mut data.0, offset, length as u32, e);
    let end = offset + 4 + length * size - missing;
    let input = nd::forever(&data.0[offset..end]);
    let start = unsafe { data.0.as_ptr().add(offset + 4) };
    let mut reader = Src::<BORROWING>::new(e, input);
    match <&'static [T]>::read_from(&mut reader) {
        Ok(v) => {
            assert!(missing == 0 && !convert, "C14: nothing outside the input or in the wrong byte order is borrowed");
            inside(v, start, length, &data.0[offset + 4..]);
            assert!(reader.pos == 4 + length * size);
        }
        Err(error) => assert!(if convert { error.kind == Kind::EndiannessMismatch } else { missing > 0 && error.eof }, "C14: borrowing fails for a reason"),
    }
    let mut reader = Src::<BORROWING>::new(e, input);
    match <&'static [T; 2]>::read_from(&mut reader) {
        Ok(v) => {
            assert!(!convert, "C14: nothing in the wrong byte order is borrowed");
            inside(v, &data.0[offset] as *const u8, 2, &data.0[offset..]);
            assert!(reader.pos == 2 * size);
        }
        Err(error) => assert!(if convert { error.kind == Kind::EndiannessMismatch } else { input.len() < 2 * size && error.eof }, "C14: borrowing fails for a reason"),
    }
}

/// Copy-on-write slices are borrowed exactly where that is possible.
#[inline(always)]
fn cow<const KIND: u8, const N: usize, T: Element + Readable<'static, Ctx> + 'static>(e: Endianness, offset: usize, length: usize) {
    let size = std::mem::size_of::<T>();
    let convert = size > 1 && e == Endianness::BigEndian;
    let mut data: Align<N> = Align(nd::any());
    put_count(&mut data.0, offset, length as u32, e);
    let end = offset + 4 + length * size;
    let input = nd::forever(&data.0[offset..end]);
    let start = unsafe { data.0.as_ptr().add(offset + 4) };
    let aligned = start as usize % std::mem::align_of::<T>() == 0;
    let mut reader = Src::<KIND>::new(e, input);
    match Cow::<'static, [T]>::read_from(&mut reader) {
        Ok(Cow::Borrowed(v)) => {
            assert!(KIND == BORROWING, "C14: only a borrowing reader hands out borrowed data");
            assert!(!convert && aligned, "C14: only aligned data in the byte order of the host is borrowed");
            inside(v, start, length, &data.0[offset + 4..]);
            assert!(reader.pos == end - offset);
        }
        Ok(Cow::Owned(v)) => {
            assert!(KIND != BORROWING || convert || !aligned, "C14: data which can be borrowed is borrowed");
            assert!(v.len() == length && reader.pos == end - offset, "C14: an owned copy has the length which is encoded");
            if length > 0 {
                let i = nd::idx(length);
                let mut bytes = [0u8; S_MAX];
                let mut j = 0;
                while j < size {
                    bytes[j] = data.0[offset + 4 + i * size + if convert { size - 1 - j } else { j }];
                    j += 1;
                }
                assert!(v[i].is(&bytes), "C14: an owned copy has the right elements");
            }
            std::mem::forget(v);
        }
        Err(_) => panic!("C14: a copy-on-write slice can always be read"),
    }
}

macro_rules! cows {
    ($t:ty, $s:literal) => { {
        const N: usize = 12 + 3 * $s;
        cow::<BORROWING, N, $t>(Endianness::LittleEndian, 0, 2);
        cow::<BORROWING, N, $t>(Endianness::LittleEndian, 1, 2);
        cow::<BORROWING, N, $t>(Endianness::BigEndian, 4, 2);
        cow::<COPYING, N, $t>(Endianness::LittleEndian, 4, 1);
        cow::<STREAM, N, $t>(Endianness::LittleEndian, 4, 1);
    } };
}
macro_rules! cows_more {
    ($t:ty, $s:literal) => { {
        const N: usize = 12 + 3 * $s;
        cow::<BORROWING, N, $t>(Endianness::LittleEndian, 4, 2);
        cow::<BORROWING, N, $t>(Endianness::LittleEndian, 2, 1);
        cow::<BORROWING, N, $t>(Endianness::LittleEndian, 12 % (8 + $s), 1);
        cow::<BORROWING, N, $t>(Endianness::LittleEndian, 1, 0);
    } };
}

const TEXT: usize = 3;

/// Strings: either borrowed from the position of the encoding, or not UTF-8.
#[inline(always)]
fn text(length: usize, missing: usize) {
    let e = nd::endianness();
    let mut data: [u8; 4 + TEXT + 1] = nd::any();
    put_count(&mut data, 0, length as u32, e);
    let input = nd::forever(&data[..4 + length - missing]);
    let start = unsafe { data.as_ptr().add(4) };
    let valid = crate::stubs::valid(&data[4..4 + length]);
    let mut reader = Src::<BORROWING>::new(e, input);
    match <&'static str>::read_from(&mut reader) {
        Ok(s) => {
            assert!(missing == 0 && valid, "C14: only text inside the input is borrowed");
            assert!(s.len() == length && (length == 0 || s.as_ptr() == start), "C14: a borrowed string is at the position of its encoding");
            assert!(reader.pos == 4 + length);
        }
        Err(error) => assert!(if missing > 0 { error.eof } else { !valid && error.kind == Kind::InvalidUtf8 }, "C14: borrowing a string fails for a reason"),
    }
    let mut reader = Src::<BORROWING>::new(e, input);
    match Cow::<'static, str>::read_from(&mut reader) {
        Ok(Cow::Borrowed(s)) => {
            assert!(missing == 0 && valid, "C14: only text inside the input is borrowed");
            assert!(s.len() == length && (length == 0 || s.as_ptr() == start), "C14: a borrowed string is at the position of its encoding");
            assert!(reader.pos == 4 + length);
        }
        Ok(Cow::Owned(_)) => panic!("C14: a string which can be borrowed is borrowed"),
        Err(error) => assert!(if missing > 0 { error.eof } else { !valid && error.kind == Kind::InvalidUtf8 }, "C14: borrowing a string fails for a reason"),
    }
}

/// Readers which do not hand out borrowed data.
#[inline(always)]
fn unborrowed<const KIND: u8>(length: usize) {
    let e = nd::endianness();
    let mut data: [u8; 4 + TEXT + 1] = nd::any();
    put_count(&mut data, 0, length as u32, e);
    let valid = crate::stubs::valid(&data[4..4 + length]);
    let input = nd::forever(&data[..]);
    fn fails<const KIND: u8, T: Readable<'static, Ctx>>(e: Endianness, input: &'static [u8]) {
        let mut reader = Src::<KIND>::new(e, input);
        match T::read_from(&mut reader) {
            Ok(_) => panic!("C14: a type which must borrow cannot be read from a reader which copies"),
            Err(error) => assert!(error.kind == Kind::Unsized, "C14: a type which must borrow fails as such"),
        }
    }
    fails::<KIND, &'static str>(e, input);
    fails::<KIND, &'static [u8]>(e, input);
    fails::<KIND, &'static [u8; 2]>(e, input);
    fails::<KIND, &'static [i8]>(e, input);
    let mut reader = Src::<KIND>::new(e, input);
    match Cow::<'static, str>::read_from(&mut reader) {
        Ok(Cow::Borrowed(_)) => panic!("C14: only a borrowing reader hands out borrowed data"),
        Ok(Cow::Owned(s)) => {
            assert!(valid && s.len() == length && reader.pos == 4 + length, "C14: an owned copy has the length which is encoded");
            if length > 0 {
                let i = nd::idx(length);
                assert!(s.as_bytes()[i] == data[4 + i], "C14: an owned copy has the right bytes");
            }
            std::mem::forget(s);
        }
        Err(error) => assert!(!valid && error.kind == Kind::InvalidUtf8, "C14: copying a string fails for a reason"),
    }
}

#[derive(Readable)]
pub struct Fields<'a> {
    pub n: u8,
    #[speedy(length = n)]
    pub slice: &'a [u8],
    #[speedy(length_type = u8)]
    pub text: &'a str,
    #[speedy(length_type = u16)]
    pub cow: Cow<'a, [u8]>,
    #[speedy(length_type = u7)]
    pub cow_text: Cow<'a, str>,
    #[speedy(length = ..)]
    pub rest: &'a [u8],
}
#[derive(Readable)]
pub struct RestText<'a> {
    pub n: u8,
    #[speedy(length = ..)]
    pub rest: &'a str,
}
#[derive(Readable)]
pub struct RestBytes<'a> {
    pub n: u8,
    #[speedy(length = ..)]
    pub rest: &'a [Byte],
}
#[derive(Readable)]
pub struct WideFields<'a> {
    pub n: u8,
    #[speedy(length = n)]
    pub slice: &'a [Packed],
    pub end: u8,
}

/// A derived type with borrowed fields of every kind.
#[inline(always)]
fn fields<const KIND: u8>(e: Endianness) {
    let mut data: [u8; 17] = nd::any();
    data[0] = 2;
    data[3] = 2; // and 4, 5
    data[6] = if e == Endianness::LittleEndian { 2 } else { 0 };
    data[7] = if e == Endianness::LittleEndian { 0 } else { 2 };
    data[10] = 1;
    nd::assume(data[4] < 0x80 && data[5] < 0x80 && data[11] < 0x80);
    let input = nd::forever(&data[..]);
    let at = |offset: usize| data.as_ptr() as usize + offset;
    let mut reader = Src::<KIND>::new(e, input);
    match Fields::read_from(&mut reader) {
        Ok(v) => {
            assert!(KIND == BORROWING, "C14: a type which must borrow cannot be read from a reader which copies");
            assert!(v.slice.as_ptr() as usize == at(1) && v.slice.len() == 2, "C14: borrowed data is at the position of its encoding");
            assert!(v.text.as_ptr() as usize == at(4) && v.text.len() == 2, "C14: borrowed data is at the position of its encoding");
            assert!(v.rest.as_ptr() as usize == at(12) && v.rest.len() == 5, "C14: borrowed data is at the position of its encoding");
            match (&v.cow, &v.cow_text) {
                (Cow::Borrowed(cow), Cow::Borrowed(text)) => {
                    assert!(cow.as_ptr() as usize == at(8) && cow.len() == 2, "C14: borrowed data is at the position of its encoding");
                    assert!(text.as_ptr() as usize == at(11) && text.len() == 1, "C14: borrowed data is at the position of its encoding");
                }
                _ => panic!("C14: data which can be borrowed is borrowed"),
            }
            std::mem::forget(v);
        }
        Err(error) => assert!(KIND != BORROWING && error.kind == Kind::Unsized, "C14: a type which must borrow fails as such"),
    }
}

// What the readers themselves hand out, through types which ask for it.
type Handed = (bool, bool);
probe!(Asked(Handed) |r| (r.read_bytes_borrowed(1).is_some(), r.read_bytes_borrowed_until_eof().is_some()));
probe!(io AskedStream(Handed) |r| (r.read_bytes_borrowed(1).is_some(), r.read_bytes_borrowed_until_eof().is_some()));

harnesses! {
    #[bounded]
    [8] slices_u8 { slices!(u8, 1, 0..2) }
    #[bounded]
    [8] slices_i8 { slices!(i8, 1, 0..2) }
    #[bounded]
    [8] slices_u16 { slices!(u16, 2, 0..4) }
    #[bounded]
    [8] slices_i16 { slices!(i16, 2, 0..2) }
    #[bounded]
    [8] slices_u32 { slices!(u32, 4, 0..4) }
    #[bounded]
    [8] slices_i32 { slices!(i32, 4, 2..4) }
    #[bounded]
    [8] slices_f32 { slices!(f32, 4, 2..4) }
    #[bounded]
    [10] slices_u64 { slices!(u64, 8, [0, 2, 3, 7]) }
    #[bounded]
    [10] slices_i64 { slices!(i64, 8, [2, 3, 7]) }
    #[bounded]
    [10] slices_f64 { slices!(f64, 8, [2, 3, 7]) }
    #[bounded]
    [18] slices_u128 { slices!(u128, 16, [0, 3, 11]) }
    #[bounded]
    [18] slices_i128 { slices!(i128, 16, [3, 11]) }
    #[bounded]
    [8] slices_packed { slices!(Packed, 3, 0..2) }
    #[bounded]
    [8] slices_byte { slices!(Byte, 1, 0..2) }
    #[bounded]
    [8] slices_word { slices!(Word, 4, 2..4) }

    #[bounded]
    [8] arrays_u8 { arrays!(u8, 1, 0..2) }
    #[bounded]
    [8] arrays_u16 { arrays!(u16, 2, 0..2) }
    #[bounded]
    [8] arrays_u32 { arrays!(u32, 4, 1..4) }
    #[bounded]
    [8] arrays_i32 { arrays!(i32, 4, 2..4) }
    #[bounded]
    [10] arrays_f64 { arrays!(f64, 8, [3, 7]) }
    #[bounded]
    [18] arrays_u128 { arrays!(u128, 16, [7, 15]) }
    #[bounded]
    [8] arrays_packed { arrays!(Packed, 3, 0..2) }
    #[bounded]
    [8] arrays_word { arrays!(Word, 4, 2..4) }

    #[bounded]
    [8] any_order_u8 {
        any_order::<16, u8>(nd::endianness(), 1, 2, 0);
        any_order::<16, u8>(nd::endianness(), 0, 3, 1);
        any_order::<16, u8>(nd::endianness(), 2, 0, 0);
    }
    #[bounded]
    [8] any_order_i8 {
        any_order::<16, i8>(nd::endianness(), 1, 2, 0);
        any_order::<16, i8>(nd::endianness(), 0, 3, 1);
    }
    #[bounded]
    [8] any_order_byte {
        any_order::<16, Byte>(nd::endianness(), 1, 2, 0);
        any_order::<16, Byte>(nd::endianness(), 0, 3, 1);
    }
    #[bounded]
    [8] any_order_packed {
        any_order::<16, Packed>(Endianness::LittleEndian, 1, 2, 0);
        any_order::<16, Packed>(Endianness::BigEndian, 1, 2, 0);
        any_order::<16, Packed>(nd::endianness(), 0, 2, 1);
    }

    #[bounded]
    [10] cows_u8 { cows!(u8, 1) }
    #[bounded]
    [10] cows_i8 { cows!(i8, 1) }
    #[bounded]
    [10] cows_u16 { cows!(u16, 2) }
    #[bounded]
    [10] cows_u16_more { cows_more!(u16, 2) }
    #[bounded]
    [10] cows_i32 { cows!(i32, 4) }
    #[bounded]
    [10] cows_f32_more { cows_more!(f32, 4) }
    #[bounded]
    [10] cows_u64 { cows!(u64, 8) }
    #[bounded]
    [10] cows_f64_more { cows_more!(f64, 8) }
    #[bounded]
    [18] cows_u128 { cows!(u128, 16) }
    #[bounded]
    [18] cows_i128_more { cows_more!(i128, 16) }
    #[bounded]
    [10] cows_word { cows!(Word, 4) }
    #[bounded]
    [10] cows_words {
        cow::<BORROWING, 24, Words>(Endianness::LittleEndian, 0, 2);
        cow::<BORROWING, 24, Words>(Endianness::LittleEndian, 1, 2);
        cow::<STREAM, 24, Words>(Endianness::LittleEndian, 0, 1);
    }

    #[bounded]
    #[utf8]
    [8] text_1 { text(1, 0); text(0, 0); text(1, 1) }
    #[bounded]
    #[utf8]
    [8] text_2 { text(2, 0); text(3, 1) }
    #[bounded]
    #[utf8]
    [8] text_3 { text(3, 0) }
    #[bounded]
    #[utf8]
    [8] unborrowed_copying { unborrowed::<COPYING>(2); unborrowed::<COPYING>(0) }
    #[bounded]
    #[utf8]
    [8] unborrowed_stream { unborrowed::<STREAM>(2); unborrowed::<STREAM>(0) }

    #[bounded]
    #[utf8]
    [8] fields_borrowing { fields::<BORROWING>(Endianness::LittleEndian); fields::<BORROWING>(Endianness::BigEndian) }
    #[bounded]
    #[utf8]
    [8] fields_copying { fields::<COPYING>(Endianness::LittleEndian) }
    #[bounded]
    #[utf8]
    [8] fields_stream { fields::<STREAM>(Endianness::BigEndian) }
    #[bounded]
    #[utf8]
    [8] fields_rest {
        let mut data: [u8; 4] = nd::any();
        nd::assume(data[1] < 0x80 && data[2] < 0x80 && data[3] < 0x80);
        let input = nd::forever(&data[..]);
        match RestText::read_from(&mut Src::<BORROWING>::new(nd::endianness(), input)) {
            Ok(v) => assert!(v.rest.as_ptr() as usize == data.as_ptr() as usize + 1 && v.rest.len() == 3, "C14: borrowed data is at the position of its encoding"),
            Err(_) => panic!("C14: complete data can be borrowed"),
        }
        match RestBytes::read_from(&mut Src::<BORROWING>::new(nd::endianness(), input)) {
            Ok(v) => assert!(v.rest.as_ptr() as usize == data.as_ptr() as usize + 1 && v.rest.len() == 3, "C14: borrowed data is at the position of its encoding"),
            Err(_) => panic!("C14: complete data can be borrowed"),
        }
        assert!(matches!(RestText::read_from(&mut Src::<STREAM>::new(nd::endianness(), input)), Err(E { kind: Kind::Unsized, .. })));
        assert!(matches!(RestBytes::read_from(&mut Src::<COPYING>::new(nd::endianness(), input)), Err(E { kind: Kind::Unsized, .. })));
    }
    #[bounded]
    [8] fields_wide {
        let e = nd::endianness();
        let mut data: [u8; 8] = nd::any();
        data[0] = 2;
        let input = nd::forever(&data[..]);
        match WideFields::read_from(&mut Src::<BORROWING>::new(e, input)) {
            Ok(v) => {
                assert!(e == Endianness::LittleEndian, "C14: nothing in the wrong byte order is borrowed");
                inside(v.slice, &data[1] as *const u8, 2, &data[1..]);
                assert!(v.end == data[7]);
            }
            Err(error) => assert!(e == Endianness::BigEndian && error.kind == Kind::EndiannessMismatch, "C14: borrowing fails for a reason"),
        }
        match WideFields::read_from(&mut Src::<BORROWING>::new(Endianness::LittleEndian, &input[..6])) {
            Ok(_) => panic!("C14: nothing outside the input is borrowed"),
            Err(error) => assert!(error.eof, "C14: borrowing fails for a reason"),
        }
    }

    [8] handed_out {
        let data: [u8; 3] = nd::any();
        let n = nd::upto(3);
        let input = nd::forever(&data[..n]);
        assert!(matches!(Asked::read_from_buffer_with_ctx(LE, input), Ok(Asked((true, true)))), "C14: a borrowing reader hands out borrowed data");
        assert!(matches!(Asked::read_from_buffer_copying_data_with_ctx(LE, input), Ok(Asked((false, false)))), "C14: only a borrowing reader hands out borrowed data");
    }
    #[bounded]
    #[io]
    [8] handed_out_by_streams {
        let data: [u8; 3] = nd::any();
        let input = nd::forever(&data[..]);
        assert!(matches!(AskedStream::read_from_stream_unbuffered_with_ctx(IoCtx(Endianness::LittleEndian), Chunked::new(input, 0, 0)), Ok(AskedStream((false, false)))), "C14: only a borrowing reader hands out borrowed data");
        assert!(matches!(AskedStream::read_from_stream_buffered_with_ctx(IoCtx(Endianness::LittleEndian), Chunked::new(input, 0, 0)), Ok(AskedStream((false, false)))), "C14: only a borrowing reader hands out borrowed data");
    }
}
