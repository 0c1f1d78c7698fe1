//! Nondeterministic values.
//!
//! Under Kani every value is symbolic. Natively (counterexample replay, and the seeded search which looks for a
//! failing input when the verifier gives none) they are taken from a sequence of bytes, little-endian.

#[cfg(kani)]
mod imp {
    pub trait Any: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Any for T {}

    #[inline(always)]
    pub fn any<T: Any>() -> T {
        kani::any()
    }

    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    pub enum Source {
        List(VecDeque<u8>),
        /// Seeded pseudo-random values; every value drawn is recorded.
        Random(u64, Vec<Vec<u8>>),
    }

    thread_local! {
        pub static SOURCE: RefCell<Source> = RefCell::new(Source::List(VecDeque::new()));
    }

    fn next_random(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    pub struct AssumptionFailed;

    /// The values which come next.
    pub fn replay(bytes: &[u8]) {
        SOURCE.with(|source| *source.borrow_mut() = Source::List(bytes.iter().copied().collect()));
    }

    pub fn raw(size: usize) -> Vec<u8> {
        SOURCE.with(|source| match *source.borrow_mut() {
            Source::List(ref mut list) => {
                (0..size).map(|_| list.pop_front().unwrap_or_default()).collect()
            }
            Source::Random(ref mut seed, ref mut log) => {
                let mode = next_random(seed) % 8;
                let mut v = Vec::new();
                for nth in 0..size {
                    let r = next_random(seed);
                    v.push(match mode {
                        0 => 0,
                        1 => 0xff,
                        2 | 3 => if nth == 0 { (r % 6) as u8 } else { 0 },
                        4 => [0, 1, 0x7f, 0x80, 0xff][(r % 5) as usize],
                        _ => r as u8,
                    });
                }
                log.push(v.clone());
                v
            }
        })
    }

    pub trait Any: Sized {
        fn any() -> Self;
    }

    macro_rules! prim {
        ($($t:ty),*) => { $(
            impl Any for $t {
                fn any() -> Self {
                    let v = raw(std::mem::size_of::<$t>());
                    let mut a = [0u8; std::mem::size_of::<$t>()];
                    a.copy_from_slice(&v);
                    <$t>::from_le_bytes(a)
                }
            }
        )* }
    }
    prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);

    impl Any for bool {
        fn any() -> Self {
            raw(1)[0] & 1 == 1
        }
    }

    impl<T: Any, const N: usize> Any for [T; N] {
        fn any() -> Self {
            std::array::from_fn(|_| T::any())
        }
    }

    pub fn any<T: Any>() -> T {
        T::any()
    }

    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumptionFailed);
        }
    }
}

pub use imp::*;

/// An arbitrary index below `n`.
#[inline(always)]
pub fn idx(n: usize) -> usize {
    #[cfg(kani)]
    {
        let i: usize = any();
        assume(i < n);
        i
    }
    #[cfg(not(kani))]
    {
        let i: usize = any();
        assume(n > 0);
        i % n
    }
}

/// An arbitrary number of at most `n`.
#[inline(always)]
pub fn upto(n: usize) -> usize {
    idx(n + 1)
}

#[inline(always)]
pub fn endianness() -> speedy::Endianness {
    if any::<bool>() {
        speedy::Endianness::LittleEndian
    } else {
        speedy::Endianness::BigEndian
    }
}

/// The end of a harness: must be reachable, otherwise the harness proves nothing.
#[inline(always)]
pub fn end() {
    #[cfg(kani)]
    kani::cover!(true, "harness end reachable");
}

/// Pretends that a borrow of a local lives forever; the harness keeps the local alive long enough.
#[inline(always)]
pub fn forever<T: ?Sized>(v: &T) -> &'static T {
    unsafe { &*(v as *const T) }
}
