//! C02: the wire format is exactly the documented one.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::spec::*;
use crate::types::*;
use crate::util::*;
use speedy::{Endianness, Readable, Writable};

fn case<const N: usize, T: Gen + Spec + Writable<Ctx>>(shape: usize, e: Endianness) {
    let v = T::gen(shape);
    let mut out = Out::<N> { d: [0; N], n: 0 };
    v.spec(e, &mut out);
    let mut actual = Dst::<N>::new(e);
    assert!(v.write_to(&mut actual).is_ok(), "C02: a valid value is serialized");
    assert!(actual.n == out.n, "C02: nothing is added or left out");
    assert_same_bytes!(actual.d, out.d, N, "C02: the bytes written are the documented ones");
}

fn check<const N: usize, T: Gen + Spec + Writable<Ctx>>(shapes: &[usize]) {
    for shape in shapes {
        case::<N, T>(*shape, Endianness::LittleEndian);
        case::<N, T>(*shape, Endianness::BigEndian);
    }
}

for_types!(check);


/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept {
    use crate::{program::Random, sweep::*, types::*};
    use speedy::Endianness;
    for_swept!(c02);
}

/// Executed, see `sweep.rs`.
#[cfg(not(kani))]
pub mod swept_zoo {
    for_swept_zoo!(c02);
}
