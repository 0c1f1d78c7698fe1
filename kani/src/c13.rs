//! C13: derive attributes mean what the documentation says.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::spec::*;
use crate::util::*;
use crate::zoo::*;
use speedy::{Endianness, Readable, Writable};

#[inline(always)]
fn case<const N: usize, T: Zoo + Writable<Ctx> + Readable<'static, Ctx>>(shape: usize, e: Endianness) {
    let v = T::gen(shape);
    // Arbitrary, except for the encoding at the beginning.
    let mut out = Out::<N> { d: nd::any(), n: 0 };
    v.spec(e, &mut out);
    let n = out.n;
    let mut actual = Dst::<N>::new(e);
    assert!(v.write_to(&mut actual).is_ok(), "C13: a valid value is serialized");
    assert!(actual.n == n, "C13: exactly the documented bytes are written");
    let i = nd::idx(N);
    assert!(i >= n || actual.d[i] == out.d[i], "C13: the documented layout is written");

    let data = nd::forever(&out.d[..]);
    let mut reader = Src::<BORROWING>::new(e, data);
    match T::read_from(&mut reader) {
        Ok(r) => {
            assert!(v.same(&r), "C13: the documented layout is read as the value it encodes");
            std::mem::forget(r);
        }
        Err(_) => panic!("C13: the documented layout is accepted"),
    }
    assert!(reader.pos == n, "C13: exactly the documented layout is consumed");

    // The byte order plays no role here.
    let mut k = if e == Endianness::LittleEndian { 0 } else { n };
    while k < n {
        let mut reader = Src::<BORROWING>::new(e, &data[..k]);
        let result = T::read_from(&mut reader);
        match v.truncated(k) {
            Some(expected) => match result {
                Ok(r) => {
                    assert!(expected.same(&r), "C13: a field cut off by the end of the input has its default, everything before it the value encoded");
                    std::mem::forget((expected, r));
                }
                Err(_) => panic!("C13: the end of the input is ignored for fields marked as such"),
            },
            None => match result {
                Ok(_) => panic!("C13: only fields marked as such have a default at the end of the input"),
                Err(error) => assert!(error.eof, "C13: input which ends too early is reported as such"),
            },
        }
        k += 1;
    }
    std::mem::forget(v);
}

#[inline(always)]
fn check<const N: usize, T: Zoo + Writable<Ctx> + Readable<'static, Ctx>>(shapes: &[usize]) {
    let mut i = 0;
    while i < shapes.len() {
        case::<N, T>(shapes[i], Endianness::LittleEndian);
        case::<N, T>(shapes[i], Endianness::BigEndian);
        i += 1;
    }
}

for_zoo!(check);

/// Variants which contain containers; apart from the others because of their cost.
pub mod variants {
    use super::*;

    harnesses! {
        #[bounded]
        [20] length_read {
            let x: [u8; 5] = nd::any();
            let data = [1, 2, x[0], x[1], x[2], x[3]];
            let mut reader = Src::<BORROWING>::new(nd::endianness(), nd::forever(&data[..]));
            match Attributes::read_from(&mut reader) {
                Ok(Attributes::B { n, v, t }) => {
                    assert!(n == 2 && v.len() == 2 && v[0] == x[0] && v[1] == x[1] && t == x[2], "C13: a length attribute in a variant");
                    std::mem::forget(v);
                }
                _ => panic!("C13: the documented layout is accepted"),
            }
            assert!(reader.pos == 5);
        }
        #[bounded]
        [20] length_write {
            let x: [u8; 3] = nd::any();
            let v = Attributes::B { n: 2, v: vec![x[0], x[1]], t: x[2] };
            let mut out = Dst::<6>::new(nd::endianness());
            assert!(v.write_to(&mut out).is_ok(), "C13: a valid value is serialized");
            assert!(out.n == 5 && out.d[0] == 1 && out.d[1] == 2 && out.d[2] == x[0] && out.d[3] == x[1] && out.d[4] == x[2], "C13: a length attribute in a variant");
            std::mem::forget(v);
        }
        #[bounded]
        [20] length_write_wrong {
            let n: u8 = nd::any();
            nd::assume(n != 2);
            let v = Attributes::B { n, v: vec![0, 0], t: 0 };
            let mut out = Dst::<6>::new(nd::endianness());
            match v.write_to(&mut out) {
                Err(error) => assert!(error.kind == crate::ctx::Kind::LengthIsNotTheSameAsLengthAttribute),
                Ok(()) => panic!("C13: a length which differs from the attribute is rejected"),
            }
            std::mem::forget(v);
        }
        #[bounded]
        [20] peek_read {
            let x: u8 = nd::any();
            let data = [0x04, 0x03, 1, x, 9];
            let mut reader = Src::<BORROWING>::new(Endianness::LittleEndian, nd::forever(&data[..]));
            match Peek::read_from(&mut reader) {
                Ok(Peek::B { t, v }) => {
                    assert!(t == 0x0304 && v.len() == 1 && v[0] == x, "C13: a peeked tag is part of the fields");
                    std::mem::forget(v);
                }
                _ => panic!("C13: the documented layout is accepted"),
            }
            assert!(reader.pos == 4);
        }
        #[bounded]
        [20] peek_write {
            let x: u8 = nd::any();
            let v = Peek::B { t: 0x0304, v: vec![x] };
            let mut out = Dst::<6>::new(Endianness::LittleEndian);
            assert!(v.write_to(&mut out).is_ok(), "C13: a valid value is serialized");
            assert!(out.n == 4 && out.d[0] == 4 && out.d[1] == 3 && out.d[2] == 1 && out.d[3] == x, "C13: a peeked tag is part of the fields");
            std::mem::forget(v);
        }
        #[bounded]
        [20] until_eof {
            let x: [u8; 4] = nd::any();
            let mut n = 1;
            while n <= 3 {
                let mut reader = Src::<BORROWING>::new(nd::endianness(), nd::forever(&x[..n]));
                match UntilEof::read_from(&mut reader) {
                    Ok(v) => {
                        assert!(v.head == x[0] && v.v.same(&x[1..n].to_vec()), "C13: everything until the end of the input is read");
                        std::mem::forget(v);
                    }
                    Err(_) => panic!("C13: everything until the end of the input is read"),
                }
                n += 1;
            }
        }
        #[bounded]
        [20] until_eof_write {
            let x: [u8; 3] = nd::any();
            let v = UntilEof { head: x[0], v: vec![x[1], x[2]] };
            let mut out = Dst::<6>::new(nd::endianness());
            assert!(v.write_to(&mut out).is_ok() && out.n == 3 && out.d[0] == x[0] && out.d[1] == x[1] && out.d[2] == x[2], "C13: no length is written");
            std::mem::forget(v);
        }
        #[bounded]
        [20] until_eof_cow {
            let x: [u8; 5] = nd::any();
            let e = nd::endianness();
            let mut reader = Src::<BORROWING>::new(e, nd::forever(&x[..]));
            match UntilEofCow::read_from(&mut reader) {
                Ok(v) => {
                    assert!(v.head == x[0] && v.v.len() == 2, "C13: everything until the end of the input is read");
                    let (a, b) = if e == Endianness::LittleEndian {
                        (u16::from_le_bytes([x[1], x[2]]), u16::from_le_bytes([x[3], x[4]]))
                    } else {
                        (u16::from_be_bytes([x[1], x[2]]), u16::from_be_bytes([x[3], x[4]]))
                    };
                    assert!(v.v[0] == a && v.v[1] == b, "C13: everything until the end of the input is read");
                    std::mem::forget(v);
                }
                Err(_) => panic!("C13: everything until the end of the input is read"),
            }
        }
        [20] eof_other_error {
            let x: [u8; 5] = nd::any();
            let e = nd::endianness();
            let c = if e == Endianness::LittleEndian { u32::from_le_bytes([x[1], x[2], x[3], x[4]]) } else { u32::from_be_bytes([x[1], x[2], x[3], x[4]]) };
            let mut reader = Src::<BORROWING>::new(e, nd::forever(&x[..]));
            match EofChar::read_from(&mut reader) {
                Ok(v) => assert!(v.a == x[0] && v.c as u32 == c, "C13: only a valid value is accepted"),
                Err(error) => assert!(char::from_u32(c).is_none() && error.kind == crate::ctx::Kind::InvalidChar, "C13: a valid value is accepted"),
            }
        }
        [20] eof_wrong_constant {
            let x: [u8; 5] = nd::any();
            let mut reader = Src::<BORROWING>::new(nd::endianness(), nd::forever(&x[..]));
            match EofConstant::read_from(&mut reader) {
                Ok(v) => assert!(x[1] == b'P' && x[2] == b'Q' && v.a == x[0], "C13: a wrong constant is rejected"),
                Err(error) => assert!((x[1] != b'P' || x[2] != b'Q') && error.kind == crate::ctx::Kind::ExpectedConstant, "C13: the right constant is accepted"),
            }
        }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept_zoo {
    for_swept_zoo!(c13);
}
