//! C06: variable-length integers are canonical, compact and lossless.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use speedy::private::VarInt64;
use speedy::{Context, Readable, Reader, Writable, Writer};

type R = Result<u64, E>;

probe!(Peek((R, R, R)) |r| (r.peek_u64_varint(), r.peek_u64_varint(), r.read_u64_varint()));

struct Put(u64);
impl<C: Context> Writable<C> for Put {
    fn write_to<T: ?Sized + Writer<C>>(&self, writer: &mut T) -> Result<(), C::Error> {
        writer.write_u64_varint(self.0)
    }
}

/// What the documented layout says about `data`: the value and the size of the encoding, or none if it is cut short.
fn decode(data: &[u8]) -> Option<(u64, usize)> {
    if data.is_empty() {
        return None;
    }
    let mut extra = 0;
    while extra < 8 && (data[0] >> (7 - extra)) & 1 == 1 {
        extra += 1;
    }
    if data.len() < 1 + extra {
        return None;
    }
    // The first byte holds the most significant bits: 7 - extra of them (none when extra is 7 or 8).
    let mut value: u64 = 0;
    if extra < 7 {
        value = ((data[0] as u64) & ((1 << (7 - extra)) - 1)) << (8 * extra);
    }
    let mut i = 0;
    while i < extra {
        value |= (data[1 + i] as u64) << (8 * i);
        i += 1;
    }
    Some((value, 1 + extra))
}

#[inline(always)]
fn check(result: R, expected: Option<(u64, usize)>) {
    match (result, expected) {
        (Ok(got), Some((value, _))) => assert!(got == value, "C06: the decoded value is the documented one"),
        (Err(error), None) => assert!(error.eof, "C06: a truncated varint fails with an end-of-input error"),
        (Ok(_), None) => panic!("C06: a truncated varint is not accepted"),
        (Err(_), Some(_)) => panic!("C06: a complete varint is accepted"),
    }
}

/// The number of bytes needed for `value`: the smallest `n` of 1 to 9 so that it fits into `7 * n` bits (64 for 9).
fn size(value: u64) -> usize {
    let mut n = 1;
    while n < 9 && value >> (7 * n) != 0 {
        n += 1;
    }
    n
}

/// The byte at `index` of the documented encoding of `value` in `n` bytes.
fn byte(value: u64, n: usize, index: usize) -> u8 {
    if index == 0 {
        // n - 1 leading ones, a zero, and the most significant bits.
        let ones = !(0xffu32 >> (n - 1)) as u8;
        if n >= 8 { ones } else { ones | (value >> (8 * (n - 1))) as u8 }
    } else {
        (value >> (8 * (index - 1))) as u8
    }
}

#[inline(always)]
fn write<T: Writable<Ctx>>(v: &T, value: u64) {
    let mut out = Dst::<9>::new(nd::endianness());
    assert!(v.write_to(&mut out).is_ok(), "C06: every value can be written");
    let needed = v.bytes_needed();
    let mut n = 1;
    while n <= 9 {
        if size(value) == n {
            assert!(out.n == n, "C06: a varint takes the smallest number of bytes which fits");
            assert!(needed == Ok(n), "C06: the size reported for a varint is the smallest which fits");
            let mut i = 0;
            while i < n {
                assert!(out.d[i] == byte(value, n, i), "C06: the varint encoding is the documented canonical one");
                i += 1;
            }
        }
        n += 1;
    }
}

#[inline(always)]
fn read<const KIND: u8>() {
    let data: [u8; 10] = nd::any();
    let n = nd::upto(10);
    let data = nd::forever(&data[..n]);
    let expected = decode(data);
    let mut reader = Src::<KIND>::new(nd::endianness(), data);
    check(reader.read_u64_varint(), expected);
    let consumed = reader.pos;
    assert!(expected.is_none() || Some(consumed) == expected.map(|e| e.1), "C06: exactly the encoding is consumed");
    assert!(consumed <= n && consumed <= 9, "C06: never more than 9 bytes are consumed");
}

#[inline(always)]
fn read_raw<const KIND: u8>() {
    let data: [u8; 10] = nd::any();
    let n = nd::upto(10);
    let data = nd::forever(&data[..n]);
    let expected = decode(data);
    let mut reader = Src::<KIND>::new(nd::endianness(), data);
    check(reader.read_value::<VarInt64>().map(|v| v.into()), expected);
    let consumed = reader.pos;
    assert!(expected.is_none() || Some(consumed) == expected.map(|e| e.1), "C06: exactly the encoding is consumed");
    assert!(consumed <= n && consumed <= 9, "C06: never more than 9 bytes are consumed");
}

#[inline(always)]
fn peek<const KIND: u8>() {
    let data: [u8; 10] = nd::any();
    let n = nd::upto(10);
    let data = nd::forever(&data[..n]);
    let mut reader = Src::<KIND>::new(nd::endianness(), data);
    check(reader.peek_u64_varint(), decode(data));
    assert!(reader.pos == 0, "C06: peeking consumes nothing");
}

/// Through the functions which users call.
#[inline(always)]
fn read_borrowed(n: usize) {
    let data: [u8; 10] = nd::any();
    let data = &data[..n];
    let ctx = Ctx(nd::endianness());
    let expected = decode(data);
    let (result, consumed) = Peek::read_with_length_from_buffer_with_ctx(ctx, data);
    let (a, b, c) = result.ok().unwrap().0;
    check(a, expected);
    check(b, expected);
    check(c, expected);
    assert!(expected.is_none() || Some(consumed) == expected.map(|e| e.1), "C06: exactly the encoding is consumed");
}

#[inline(always)]
fn read_copying(n: usize) {
    let data: [u8; 10] = nd::any();
    let data = &data[..n];
    let ctx = Ctx(nd::endianness());
    let expected = decode(data);
    let (result, consumed) = Peek::read_with_length_from_buffer_copying_data_with_ctx(ctx, data);
    let (a, b, c) = result.ok().unwrap().0;
    check(a, expected);
    check(b, expected);
    check(c, expected);
    assert!(expected.is_none() || Some(consumed) == expected.map(|e| e.1), "C06: exactly the encoding is consumed");
}

harnesses! {
    [10] write_u64 { let value: u64 = nd::any(); write(&Put(value), value) }
    [10] write_raw { let value: u64 = nd::any(); write(&VarInt64::from(value), value) }
    [11] read_by_reference { read::<BORROWING>() }
    [11] read_by_copy { read::<COPYING>() }
    [11] read_stream { read::<STREAM>() }
    [11] read_raw_stream { read_raw::<STREAM>() }
    [11] peek_by_reference { peek::<BORROWING>() }
    [11] peek_by_copy { peek::<COPYING>() }
    [11] peek_stream { peek::<STREAM>() }
    [11] end_to_end_borrowing { read_borrowed(10); read_borrowed(3) }
    [11] end_to_end_copying { read_copying(10); read_copying(3) }
    [2] zigzag_i64 {
        let v: i64 = nd::any();
        let encoded: u64 = VarInt64::from(v).into();
        assert!(encoded == if v >= 0 { (v as u64) * 2 } else { ((-(v + 1)) as u64) * 2 + 1 }, "C06: signed values are transformed with a zigzag transformation");
        let decoded: i64 = VarInt64::from(encoded).into();
        assert!(decoded == v, "C06: signed values are transformed back losslessly");
        let raw: u64 = nd::any();
        let decoded: i64 = VarInt64::from(raw).into();
        let back: u64 = VarInt64::from(decoded).into();
        assert!(back == raw, "C06: signed values are transformed back losslessly");
    }
    [2] zigzag_narrow {
        let v: i32 = nd::any();
        assert!(VarInt64::from(v) == VarInt64::from(v as i64), "C06: the encoding of an integer does not depend on its width");
        let v: i16 = nd::any();
        assert!(VarInt64::from(v) == VarInt64::from(v as i64), "C06: the encoding of an integer does not depend on its width");
        let v: i8 = nd::any();
        assert!(VarInt64::from(v) == VarInt64::from(v as i64), "C06: the encoding of an integer does not depend on its width");
        let v: u32 = nd::any();
        assert!(VarInt64::from(v) == VarInt64::from(v as u64), "C06: the encoding of an integer does not depend on its width");
        let v: u16 = nd::any();
        assert!(VarInt64::from(v) == VarInt64::from(v as u64), "C06: the encoding of an integer does not depend on its width");
        let v: u8 = nd::any();
        assert!(VarInt64::from(v) == VarInt64::from(v as u64), "C06: the encoding of an integer does not depend on its width");
    }
}
