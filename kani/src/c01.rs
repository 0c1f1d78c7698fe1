//! C01: reading back what was written yields the same value.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::types::*;
use crate::util::*;
use speedy::{Endianness, Readable, Writable};

fn case<const N: usize, T: Gen + Same + Writable<Ctx> + Readable<'static, Ctx>>(shape: usize, e: Endianness) {
    let v = T::gen(shape);
    let mut out = Dst::<N>::new(e);
    assert!(v.write_to(&mut out).is_ok(), "C01: the value can be serialized");
    let n = out.n;
    // Whatever follows the encoding is arbitrary.
    let mut data: [u8; N] = nd::any();
    let mut i = 0;
    while i < n {
        data[i] = out.d[i];
        i += 1;
    }
    let mut reader = Src::<BORROWING>::new(e, nd::forever(&data[..]));
    match T::read_from(&mut reader) {
        Ok(r) => assert!(r.same(&v), "C01: the value read back (borrowing) is the value written"),
        Err(_) => panic!("C01: reading back (borrowing) succeeds"),
    }
    assert!(reader.pos == n, "C01: exactly the bytes written are consumed (borrowing)");
    let mut reader = Src::<COPYING>::new(e, nd::forever(&data[..]));
    match T::read_from(&mut reader) {
        Ok(r) => assert!(r.same(&v), "C01: the value read back (copying) is the value written"),
        Err(_) => panic!("C01: reading back (copying) succeeds"),
    }
    assert!(reader.pos == n, "C01: exactly the bytes written are consumed (copying)");
}

fn check<const N: usize, T: Gen + Same + Writable<Ctx> + Readable<'static, Ctx>>(shapes: &[usize]) {
    for shape in shapes {
        case::<N, T>(*shape, Endianness::LittleEndian);
        case::<N, T>(*shape, Endianness::BigEndian);
    }
}

for_types!(check);

/// A system time before 1970 cannot be represented: it is either rejected, or read back.
pub mod partial {
    use super::*;

    fn before_epoch(e: Endianness) {
        let s: u64 = nd::any();
        nd::assume(s < i64::MAX as u64);
        let n: u32 = nd::any();
        nd::assume(n < 1_000_000_000 && (s, n) != (0, 0));
        let v = SystemTime::UNIX_EPOCH - Duration::new(s, n);
        let mut out = Dst::<12>::new(e);
        if v.write_to(&mut out).is_ok() {
            let data = out.d;
            let mut reader = Src::<BORROWING>::new(e, nd::forever(&data[..out.n]));
            match SystemTime::read_from(&mut reader) {
                Ok(r) => assert!(r == v, "C01: the value read back is the value written"),
                Err(_) => panic!("C01: reading back succeeds"),
            }
        }
    }

    harnesses! {
        [20] before_the_epoch { before_epoch(Endianness::LittleEndian); before_epoch(Endianness::BigEndian) }
    }
}


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c01);
}

/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept_zoo {
    for_swept_zoo!(c01);
}
