//! C10: out-of-domain lengths, tags and scalars are rejected with an error.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::spec::*;
use crate::types::*;
use crate::util::*;
use crate::zoo::*;
use speedy::private::*;
use speedy::{Endianness, Readable, Reader, Writable, Writer};

/// Reads `T` from arbitrary bytes; also returns these bytes' value as an unsigned integer of `n` bytes.
#[inline(always)]
fn read<const N: usize, T: Readable<'static, Ctx>>() -> (Result<T, E>, u128) {
    let data: [u8; N] = nd::any();
    let e = nd::endianness();
    let mut value = 0u128;
    let mut i = 0;
    while i < N {
        value = value << 8 | data[if e == Endianness::BigEndian { i } else { N - 1 - i }] as u128;
        i += 1;
    }
    let mut reader = Src::<BORROWING>::new(e, nd::forever(&data[..]));
    (T::read_from(&mut reader), value)
}

/// `accepted` says which value the bytes encode, if any.
#[inline(always)]
fn domain<const N: usize, T: Same + Readable<'static, Ctx>>(kind: Kind, accepted: impl Fn(u128) -> Option<T>) {
    let (result, raw) = read::<N, T>();
    match (result, accepted(raw)) {
        (Ok(v), Some(expected)) => assert!(v.same(&expected), "C10: a value within the domain is decoded to itself"),
        (Ok(_), None) => panic!("C10: a value outside of the domain is rejected"),
        (Err(error), expected) => {
            assert!(expected.is_none(), "C10: every value within the domain is accepted");
            assert!(error.kind == kind, "C10: the error says what is wrong");
        }
    }
}

macro_rules! non_zero {
    ($($n:literal $t:ident $p:ty),*) => { { $( domain::<$n, $t>(Kind::ZeroNonZero, |v| $t::new(v as $p)); )* } };
}

harnesses! {
    [20] chars { domain::<4, char>(Kind::InvalidChar, |v| if v < 0x110000 && !(v >= 0xD800 && v <= 0xDFFF) { char::from_u32(v as u32) } else { None }) }
    [20] non_zero { non_zero!(1 NonZeroU8 u8, 2 NonZeroU16 u16, 4 NonZeroU32 u32, 8 NonZeroU64 u64) }
    [20] non_zero_signed { non_zero!(1 NonZeroI8 i8, 2 NonZeroI16 i16, 4 NonZeroI32 i32, 8 NonZeroI64 i64) }
    [20] endianness { domain::<1, Endianness>(Kind::InvalidEnumVariant, |v| match v { 0 => Some(Endianness::LittleEndian), 1 => Some(Endianness::BigEndian), _ => None }) }
    [20] bools { domain::<1, bool>(Kind::Other, |v| Some(v != 0)) }
    [20] usize_values { domain::<8, usize>(Kind::OutOfRangeUsize, |v| Some(v as usize)) }
    [20] ip_address {
        let data: [u8; 17] = nd::any();
        let mut reader = Src::<BORROWING>::new(nd::endianness(), nd::forever(&data[..]));
        match IpAddr::read_from(&mut reader) {
            Ok(IpAddr::V4(_)) => assert!(data[0] == 0, "C10: an IPv4 address has the tag 0"),
            Ok(IpAddr::V6(_)) => assert!(data[0] == 1, "C10: an IPv6 address has the tag 1"),
            Err(error) => assert!(data[0] > 1 && error.kind == Kind::InvalidEnumVariant, "C10: only unknown tags are rejected, as such"),
        }
    }
    [20] duration {
        let secs: u64 = nd::any();
        let nanos: u32 = nd::any();
        let mut out = Dst::<12>::new(nd::endianness());
        assert!(secs.write_to(&mut out).is_ok() && nanos.write_to(&mut out).is_ok());
        let mut reader = Src::<BORROWING>::new(out.ctx.0, nd::forever(&out.d[..]));
        let carry = nanos / 1_000_000_000;
        match Duration::read_from(&mut reader) {
            Ok(v) => {
                assert!(secs <= u64::MAX - carry as u64, "C10: a duration which is out of range is rejected");
                assert!(v.as_secs() == secs + carry as u64 && v.subsec_nanos() == nanos % 1_000_000_000, "C10: every duration in range is decoded to itself");
            }
            Err(error) => {
                assert!(secs > u64::MAX - carry as u64, "C10: every duration in range is accepted");
                assert!(error.kind == Kind::InvalidSystemTime, "C10: the error says what is wrong");
            }
        }
    }
    [20] system_time {
        let secs: u64 = nd::any();
        let nanos: u32 = nd::any();
        nd::assume(nanos < 1_000_000_000);
        let mut out = Dst::<12>::new(nd::endianness());
        assert!(secs.write_to(&mut out).is_ok() && nanos.write_to(&mut out).is_ok());
        let mut reader = Src::<BORROWING>::new(out.ctx.0, nd::forever(&out.d[..]));
        let expected = SystemTime::UNIX_EPOCH.checked_add(Duration::new(secs, nanos));
        match (SystemTime::read_from(&mut reader), expected) {
            (Ok(v), Some(expected)) => assert!(v == expected, "C10: every system time in range is decoded to itself"),
            (Ok(_), None) => panic!("C10: a system time which is out of range is rejected"),
            (Err(error), expected) => assert!(expected.is_none() && error.kind == Kind::InvalidSystemTime, "C10: every system time in range is accepted"),
        }
    }
    [20] result_tag {
        let data: [u8; 2] = nd::any();
        let mut reader = Src::<BORROWING>::new(nd::endianness(), nd::forever(&data[..]));
        match Result::<u8, bool>::read_from(&mut reader) {
            // As for booleans and options, every tag but zero counts as one.
            Ok(Ok(v)) => assert!(data[0] != 0 && v == data[1], "C10: an Ok value has the tag 1"),
            Ok(Err(v)) => assert!(data[0] == 0 && v == (data[1] != 0), "C10: an Err value has the tag 0"),
            Err(_) => panic!("C10: every tag is accepted"),
        }
    }
    [20] option_tag {
        let data: [u8; 2] = nd::any();
        let mut reader = Src::<BORROWING>::new(nd::endianness(), nd::forever(&data[..]));
        match Option::<u8>::read_from(&mut reader) {
            Ok(None) => assert!(data[0] == 0, "C10: a missing value has the tag 0"),
            Ok(Some(v)) => assert!(data[0] != 0 && v == data[1], "C10: an optional value is decoded to itself"),
            Err(_) => panic!("C10: every tag is accepted"),
        }
    }
}

/// Tags of derived enums.
pub mod tags {
    use super::*;

    /// Only the given tags are accepted.
    #[inline(always)]
    fn tags<const N: usize, const TAG: usize, T: Readable<'static, Ctx>>(known: &[u64]) {
        let data: [u8; N] = nd::any();
        let e = nd::endianness();
        let mut tag = 0u64;
        let mut i = 0;
        while i < TAG {
            tag = tag << 8 | data[if e == Endianness::BigEndian { i } else { TAG - 1 - i }] as u64;
            i += 1;
        }
        let mut is_known = false;
        let mut i = 0;
        while i < known.len() {
            is_known |= known[i] == tag;
            i += 1;
        }
        let mut reader = Src::<BORROWING>::new(e, nd::forever(&data[..]));
        match T::read_from(&mut reader) {
            Ok(_) => assert!(is_known, "C10: an unknown tag is rejected"),
            Err(error) => assert!(!is_known && error.kind == Kind::InvalidEnumVariant, "C10: every known tag is accepted, and others are reported as such"),
        }
    }

    harnesses! {
        [20] u7_tags { tags::<5, 1, Tag7>(&[0, 100, 101, 7, 8]) }
        [20] u8_tags { tags::<5, 1, Tag8>(&[0, 100, 101, 7, 8]) }
        [20] u16_tags { tags::<6, 2, Tag16>(&[0, 100, 101, 7, 8]) }
        [20] u32_tags { tags::<8, 4, Tag32>(&[0, 100, 101, 7, 8]) }
        [20] u32_default_tags { tags::<4, 4, Discriminant>(&[5, 6, 3, 4]); tags::<8, 4, Enum>(&[0, 1, 0x01020304, 0x01020305]) }
        [20] u64_tags { tags::<12, 8, BigTag>(&[0x0102030405060708, !0, 1 << 32, (1 << 32) + 1]) }
        [20] peeked_tags { tags::<4, 1, Peek8>(&[1, 2]) }
        [20] varint_tags {
            let tag: u64 = nd::any();
            let mut out = Dst::<12>::new(nd::endianness());
            assert!(out.write_u64_varint(tag).is_ok());
            let mut reader = Src::<BORROWING>::new(out.ctx.0, nd::forever(&out.d[..]));
            let is_known = tag == 128 || tag == !0 || tag == 16384 || tag == 16385;
            match BigVarint::read_from(&mut reader) {
                Ok(_) => assert!(is_known, "C10: an unknown tag is rejected"),
                Err(error) => assert!(!is_known && error.kind == Kind::InvalidEnumVariant, "C10: every known tag is accepted"),
            }
        }
    }
}

/// The functions which read and write lengths, on every length.
pub mod lengths {
    use super::*;

    #[inline(always)]
    fn write(max: u64, size: usize, f: impl Fn(usize, &mut Dst<9>) -> Result<(), E>) {
        let length: usize = nd::any();
        let e = nd::endianness();
        let mut out = Dst::<9>::new(e);
        match f(length, &mut out) {
            Ok(()) => {
                assert!(length as u64 <= max, "C10: a length which does not fit its field is rejected");
                let mut expected = Out::<9> { d: [0; 9], n: 0 };
                match size {
                    1 => (length as u8).spec(e, &mut expected),
                    2 => (length as u16).spec(e, &mut expected),
                    4 => (length as u32).spec(e, &mut expected),
                    _ => (length as u64).spec(e, &mut expected),
                }
                assert!(out.n == size && out.d == expected.d, "C10: the length is written as it is");
            }
            Err(error) => {
                assert!(length as u64 > max, "C10: every length which fits its field is accepted");
                assert!(error.kind == Kind::OutOfRangeLength && out.n == 0, "C10: nothing is written for a length which does not fit");
            }
        }
    }

    #[inline(always)]
    fn read_back(max: u64, size: usize, f: impl Fn(&mut Src<'static, BORROWING>) -> Result<usize, E>) {
        let data: [u8; 8] = nd::any();
        let e = nd::endianness();
        let mut raw = 0u64;
        let mut i = 0;
        while i < size {
            raw = raw << 8 | data[if e == Endianness::BigEndian { i } else { size - 1 - i }] as u64;
            i += 1;
        }
        let mut reader = Src::<BORROWING>::new(e, nd::forever(&data[..]));
        match f(&mut reader) {
            Ok(length) => assert!(raw <= max && length as u64 == raw && reader.pos == size, "C10: a length is read as it is"),
            Err(error) => assert!(raw > max && error.kind == Kind::OutOfRangeLength, "C10: every valid length is accepted"),
        }
        let mut reader = Src::<BORROWING>::new(e, nd::forever(&data[..size - 1]));
        match f(&mut reader) {
            Ok(_) => panic!("C10: a length which is cut off is rejected"),
            Err(error) => assert!(error.eof),
        }
    }

    harnesses! {
        [20] write_u7 { write(127, 1, |n, w| write_length_u7(n, w)) }
        [20] write_u8 { write(0xff, 1, |n, w| write_length_u8(n, w)) }
        [20] write_u16 { write(0xffff, 2, |n, w| write_length_u16(n, w)) }
        [20] write_u32 { write(0xffff_ffff, 4, |n, w| write_length_u32(n, w)) }
        [20] write_u64 { write(!0, 8, |n, w| write_length_u64(n, w)) }
        [20] write_default { write(0xffff_ffff, 4, |n, w| write_length(n, w)) }
        [20] write_varint {
            let length: usize = nd::any();
            let mut out = Dst::<9>::new(nd::endianness());
            assert!(write_length_u64_varint(length, &mut out).is_ok(), "C10: every length fits");
            let mut expected = Dst::<9>::new(out.ctx.0);
            assert!(expected.write_u64_varint(length as u64).is_ok());
            assert!(out.n == expected.n && out.d == expected.d, "C10: the length is written as a varint");
            let mut reader = Src::<BORROWING>::new(out.ctx.0, nd::forever(&out.d[..]));
            match read_length_u64_varint(&mut reader) {
                Ok(n) => assert!(n == length && reader.pos == out.n, "C10: a length is read as it is"),
                Err(_) => panic!("C10: every valid length is accepted"),
            }
        }
        [20] read_u7 { read_back(127, 1, |r| read_length_u7(r)) }
        [20] read_u8 { read_back(0xff, 1, |r| read_length_u8(r)) }
        [20] read_u16 { read_back(0xffff, 2, |r| read_length_u16(r)) }
        [20] read_u32 { read_back(0xffff_ffff, 4, |r| read_length_u32(r)) }
        [20] read_u64 { read_back(!0, 8, |r| read_length_u64(r)) }
        [20] read_default { read_back(0xffff_ffff, 4, |r| read_length(r)) }
        [20] same {
            let n: usize = nd::any();
            let (a, b, c, d): (u8, u16, u32, usize) = (nd::any(), nd::any(), nd::any(), nd::any());
            let mut m = c;
            assert!(are_lengths_the_same(n, a) == (n == a as usize), "C10: u8 lengths are compared exactly");
            assert!(are_lengths_the_same(n, b) == (n == b as usize), "C10: u16 lengths are compared exactly");
            assert!(are_lengths_the_same(n, c) == (n == c as usize), "C10: u32 lengths are compared exactly");
            assert!(are_lengths_the_same(n, d) == (n == d), "C10: usize lengths are compared exactly");
            assert!(are_lengths_the_same(n, &b) == (n == b as usize), "C10: lengths are compared exactly");
            assert!(are_lengths_the_same(n, &mut m) == (n == c as usize), "C10: lengths are compared exactly");
        }
    }
}

/// Containers with as many elements as one likes: elements without a size do not need any memory.
pub mod containers {
    use super::*;

    #[inline(always)]
    fn units(n: usize) -> Vec<()> {
        let mut v: Vec<()> = Vec::new();
        // A `Vec` of a zero-sized type has an unlimited capacity.
        unsafe { v.set_len(n) };
        v
    }

    #[inline(always)]
    fn too_long<T: Writable<Ctx>>(v: T) {
        let mut counter = Counter::new(nd::endianness());
        match v.write_to(&mut counter) {
            Ok(()) => panic!("C10: a length which does not fit its field is rejected"),
            Err(error) => assert!(error.kind == Kind::OutOfRangeLength && counter.count == 0, "C10: nothing is written for a length which does not fit"),
        }
        std::mem::forget(v);
    }

    #[inline(always)]
    fn above(max: usize) -> usize {
        let n: usize = nd::any();
        // A slice cannot have more than `isize::MAX` elements without undefined behaviour in the iterators of the
        // standard library.
        nd::assume(n > max && n <= isize::MAX as usize);
        n
    }

    #[derive(Readable, Writable)]
    struct U7 { #[speedy(length_type = u7)] v: Vec<()> }
    #[derive(Readable, Writable)]
    struct U8 { #[speedy(length_type = u8)] v: Vec<()> }
    #[derive(Readable, Writable)]
    struct U16 { #[speedy(length_type = u16)] v: Vec<()> }
    #[derive(Readable, Writable)]
    struct U32 { #[speedy(length_type = u32)] v: Vec<()> }
    #[derive(Readable, Writable)]
    struct U8Option { #[speedy(length_type = u8)] v: Option<Vec<()>> }
    #[derive(Readable, Writable)]
    struct U8Cow<'a> { #[speedy(length_type = u8)] v: Cow<'a, [()]> }
    #[derive(Readable, Writable)]
    struct U8Str { #[speedy(length_type = u8)] v: String }
    #[derive(Readable, Writable)]
    struct U7Bytes<'a> { #[speedy(length_type = u7)] v: &'a [u8] }
    #[derive(Readable, Writable)]
    enum InVariant { A(#[speedy(length_type = u8)] Vec<()>) }

    harnesses! {
        [4] vector { too_long(units(above(0xffff_ffff))) }
        [4] boxed { too_long(units(above(0xffff_ffff)).into_boxed_slice()) }
        [4] cow { too_long(Cow::<'static, [()]>::Owned(units(above(0xffff_ffff)))) }
        [4] slice { let v = units(above(0xffff_ffff)); let s: &[()] = &v; let mut c = Counter::new(nd::endianness()); match s.write_to(&mut c) { Ok(()) => panic!("C10: a length which does not fit its field is rejected"), Err(e) => assert!(e.kind == Kind::OutOfRangeLength && c.count == 0) } std::mem::forget(v); }
        [4] field_u7 { too_long(U7 { v: units(above(127)) }) }
        [4] field_u8 { too_long(U8 { v: units(above(0xff)) }) }
        [4] field_u16 { too_long(U16 { v: units(above(0xffff)) }) }
        [4] field_u32 { too_long(U32 { v: units(above(0xffff_ffff)) }) }
        [4] field_cow { too_long(U8Cow { v: Cow::Owned(units(above(0xff))) }) }
        [4] field_bytes { let v = [0u8; 300]; let n = nd::upto(300); nd::assume(n > 127); too_long(U7Bytes { v: nd::forever(&v[..n]) }) }
        [4] variant { let mut c = Counter::new(nd::endianness()); let v = InVariant::A(units(above(0xff))); match v.write_to(&mut c) { Ok(()) => panic!("C10: a length which does not fit its field is rejected"), Err(e) => assert!(e.kind == Kind::OutOfRangeLength) } std::mem::forget(v); }
        [4] optional { let mut c = Counter::new(nd::endianness()); let v = U8Option { v: Some(units(above(0xff))) }; match v.write_to(&mut c) { Ok(()) => panic!("C10: a length which does not fit its field is rejected"), Err(e) => assert!(e.kind == Kind::OutOfRangeLength) } std::mem::forget(v); }
    }
}

/// Lengths prescribed by an attribute.
pub mod prescribed {
    use super::*;

    #[inline(always)]
    fn check<T: Writable<Ctx>>(v: T, matches: bool) {
        let mut out = Counter::new(nd::endianness());
        match v.write_to(&mut out) {
            Ok(()) => assert!(matches, "C10: a length which differs from the attribute is rejected"),
            Err(error) => assert!(!matches && error.kind == Kind::LengthIsNotTheSameAsLengthAttribute, "C10: a length which equals the attribute is accepted"),
        }
        std::mem::forget(v);
    }

    harnesses! {
        #[bounded]
        [20] field { let n: u8 = nd::any(); check(LenField { n, v: vec_of(0), tail: 0 }, n == 0); check(LenField { n, v: vec_of(2), tail: 0 }, n == 2) }
        #[bounded]
        [20] expression { let n: u16 = nd::any(); nd::assume(n < 1000); check(LenExpr { n, m: 3, v: vec_of(1), w: vec_of(2), tail: 0 }, n / 4 == 1 && (n | 3) / 3 == 2) }
        #[bounded]
        [20] tuple { let n: u8 = nd::any(); check(LenTuple(n, vec_of(1), 0), n == 1) }
        #[bounded]
        [20] cow { let n: u8 = nd::any(); check(LenCow { n, v: Cow::Owned(vec_of(2)), tail: 0 }, n == 2) }
        #[bounded]
        [20] borrowed { let n: u8 = nd::any(); let x = [0u8; 300]; check(LenRef { n, s: nd::forever(&x[..2]), tail: 0 }, n == 2); check(LenRef { n, s: nd::forever(&x[..256]), tail: 0 }, false) }
        #[bounded]
        [20] string { let n: u8 = nd::any(); check(LenStr { n, s: String::from("ab"), t: Cow::Owned(String::from("cd")), tail: 0 }, n == 2) }
        #[bounded]
        [20] maps {
            let n: u8 = nd::any();
            check(LenMaps { n, a: BTreeMap::new(), b: BTreeSet::new() }, n == 0);
        }
    }

    #[derive(Readable, Writable)]
    struct LenMaps { n: u8, #[speedy(length = n)] a: BTreeMap<u8, u8>, #[speedy(length = n)] b: BTreeSet<u8> }
}

/// Constant prefixes.
pub mod constants {
    use super::*;

    #[inline(always)]
    fn constant<const KIND: u8>() {
        let data: [u8; 4] = nd::any();
        let n = nd::upto(4);
        let mut reader = Src::<KIND>::new(nd::endianness(), nd::forever(&data[..n]));
        let right = data[0] == b'A' && data[1] == 0 && data[2] == b'C';
        match read_constant(&mut reader, b"A\0C") {
            Ok(()) => assert!(n >= 3 && right && reader.pos == 3, "C10: a wrong constant is rejected"),
            Err(error) => {
                if n >= 3 {
                    assert!(!right && error.kind == Kind::ExpectedConstant, "C10: the right constant is accepted, a wrong one reported as such");
                } else {
                    assert!(error.eof, "C10: a constant which is cut off is reported as such");
                }
            }
        }
    }

    harnesses! {
        [20] borrowing { constant::<BORROWING>() }
        [20] copying { constant::<COPYING>() }
        [20] stream { constant::<STREAM>() }
        [20] field {
            let data: [u8; 3] = nd::any();
            let mut reader = Src::<COPYING>::new(nd::endianness(), nd::forever(&data[..]));
            match ConstantC::read_from(&mut reader) {
                Ok(v) => assert!(data[0] == b'Z' && v.a == data[1] && v.b == data[2], "C10: a wrong constant is rejected"),
                Err(error) => assert!(data[0] != b'Z' && error.kind == Kind::ExpectedConstant, "C10: the right constant is accepted"),
            }
        }
    }
}

/// Invalid UTF-8.
pub mod utf8 {
    use super::*;

    #[inline(always)]
    fn text<const N: usize, T: AsRef<str> + Readable<'static, Ctx>>(header: &[u8]) {
        let h = header.len();
        let mut data: [u8; N] = nd::any();
        let mut i = 0;
        while i < h {
            data[i] = header[i];
            i += 1;
        }
        let input = nd::forever(&data[..]);
        let mut reader = Src::<BORROWING>::new(Endianness::LittleEndian, input);
        let result = T::read_from(&mut reader);
        let valid = crate::stubs::valid(&input[h..]);
        match result {
            Ok(v) => {
                assert!(valid, "C10: invalid UTF-8 is rejected");
                let bytes = v.as_ref().as_bytes();
                assert!(bytes.len() == N - h, "C10: valid UTF-8 is decoded to itself");
                let i = nd::idx(N - h);
                assert!(bytes[i] == data[h + i], "C10: valid UTF-8 is decoded to itself");
                std::mem::forget(v);
            }
            Err(error) => assert!(!valid && error.kind == Kind::InvalidUtf8, "C10: valid UTF-8 is accepted"),
        }
    }

    macro_rules! wrapper {
        ($name:ident, $t:tt, $($attr:tt)*) => {
            #[derive(Readable, Writable)]
            struct $name { $($attr)* s: $t }
            impl AsRef<str> for $name {
                fn as_ref(&self) -> &str { &self.s }
            }
        };
    }
    wrapper!(Typed, String, #[speedy(length_type = u8)]);
    wrapper!(Until, String, #[speedy(length = ..)]);
    wrapper!(Fixed, String, #[speedy(length = 3_usize)]);

    #[derive(Readable, Writable)]
    struct CowTyped<'a> { #[speedy(length_type = u8)] s: Cow<'a, str> }
    impl<'a> AsRef<str> for CowTyped<'a> {
        fn as_ref(&self) -> &str { &self.s }
    }
    #[derive(Readable, Writable)]
    struct RefTyped<'a> { #[speedy(length_type = u8)] s: &'a str }
    impl<'a> AsRef<str> for RefTyped<'a> {
        fn as_ref(&self) -> &str { self.s }
    }
    #[derive(Readable, Writable)]
    struct RefUntil<'a> { #[speedy(length = ..)] s: &'a str }
    impl<'a> AsRef<str> for RefUntil<'a> {
        fn as_ref(&self) -> &str { self.s }
    }
    #[derive(Readable, Writable)]
    struct RefPlain<'a> { s: &'a str }
    impl<'a> AsRef<str> for RefPlain<'a> {
        fn as_ref(&self) -> &str { self.s }
    }

    harnesses! {
        #[bounded]
        #[utf8]
        [20] string { text::<8, String>(&[4, 0, 0, 0]) }
        #[bounded]
        #[utf8]
        [20] boxed { text::<7, Box<str>>(&[3, 0, 0, 0]) }
        #[bounded]
        #[utf8]
        [20] cow { text::<7, Cow<'static, str>>(&[3, 0, 0, 0]) }
        #[bounded]
        #[utf8]
        [20] borrowed { text::<7, &'static str>(&[3, 0, 0, 0]) }
        #[bounded]
        #[utf8]
        [20] field_string { text::<4, Typed>(&[3]); text::<3, Until>(&[]); text::<3, Fixed>(&[]) }
        #[bounded]
        #[utf8]
        [20] field_cow { text::<4, CowTyped<'static>>(&[3]) }
        #[bounded]
        #[utf8]
        [20] field_borrowed { text::<4, RefTyped<'static>>(&[3]); text::<3, RefUntil<'static>>(&[]); text::<7, RefPlain<'static>>(&[3, 0, 0, 0]) }
    }
}
