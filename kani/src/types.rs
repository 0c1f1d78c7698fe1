//! The types every per-type property is checked on.

pub use crate::derived::*;
pub use crate::util::Bh;
pub use std::borrow::Cow;
pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
pub use std::num::*;
pub use std::ops::{Range, RangeInclusive};
pub use std::sync::atomic::*;
pub use std::time::{Duration, SystemTime};

/// Instantiates `$check::<N, T>(shapes)` for every type; `N` bounds the size of the encodings.
/// Types are grouped into harnesses of roughly equal cost.
macro_rules! for_types {
    ($check:ident) => {
        harnesses! {
            [20] unsigned { $check::<1, u8>(&[0]); $check::<2, u16>(&[0]); $check::<4, u32>(&[0]); $check::<8, u64>(&[0]); $check::<8, usize>(&[0]) }
            [20] signed { $check::<1, i8>(&[0]); $check::<2, i16>(&[0]); $check::<4, i32>(&[0]); $check::<8, i64>(&[0]) }
            [20] wide { $check::<16, u128>(&[0]); $check::<16, i128>(&[0]) }
            [20] floats { $check::<4, f32>(&[0]); $check::<8, f64>(&[0]) }
            [20] scalars { $check::<1, bool>(&[0]); $check::<4, char>(&[0]); $check::<1, ()>(&[0]); $check::<1, Endianness>(&[0]) }
            [20] non_zero { $check::<1, NonZeroU8>(&[0]); $check::<2, NonZeroU16>(&[0]); $check::<4, NonZeroU32>(&[0]); $check::<8, NonZeroU64>(&[0]) }
            [20] non_zero_signed { $check::<1, NonZeroI8>(&[0]); $check::<2, NonZeroI16>(&[0]); $check::<4, NonZeroI32>(&[0]); $check::<8, NonZeroI64>(&[0]) }
            [20] atomic { $check::<1, AtomicU8>(&[0]); $check::<2, AtomicU16>(&[0]); $check::<4, AtomicU32>(&[0]); $check::<8, AtomicU64>(&[0]) }
            [20] atomic_signed { $check::<1, AtomicI8>(&[0]); $check::<2, AtomicI16>(&[0]); $check::<4, AtomicI32>(&[0]); $check::<8, AtomicI64>(&[0]) }
            [20] addresses { $check::<4, Ipv4Addr>(&[0]); $check::<16, Ipv6Addr>(&[0]); $check::<17, IpAddr>(&[0, 1]) }
            [20] times { $check::<12, Duration>(&[0]); $check::<12, SystemTime>(&[0]) }
            [20] ranges { $check::<4, Range<u16>>(&[0]); $check::<2, RangeInclusive<u8>>(&[0]); $check::<6, Range<Option<u16>>>(&[1, 2]) }
            [20] option { $check::<5, Option<u32>>(&[0, 1]); $check::<8, Option<Option<u16>>>(&[1, 2]) }
            #[bounded]
            [20] result { $check::<3, Result<u16, u8>>(&[0, 1]); $check::<12, Result<(), Vec<u8>>>(&[0, 2]) }
            [20] tuples_small { $check::<2, (u16,)>(&[0]); $check::<3, (u8, u16)>(&[0]); $check::<7, (u8, u16, u32)>(&[0]) }
            [20] tuples_medium { $check::<7, (u8, u16, u8, bool, u16)>(&[0]); $check::<6, (u8, u8, u8, u8, u8, u8)>(&[0]) }
            [20] tuple_4 { $check::<9, (u8, u16, u8, u32)>(&[0]); $check::<8, (u8, u8, u8, u8, u8, u8, u16)>(&[0]) }
            [20] tuples_large { $check::<9, (u8, u8, u8, u8, u16, u8, u8, u8)>(&[0]); $check::<9, (u8, u8, u8, u8, u8, u8, u8, u8, u8)>(&[0]) }
            [20] tuples_largest { $check::<10, (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>(&[0]); $check::<11, (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>(&[0]) }
            #[bounded]
            [20] arrays { $check::<6, [u16; 3]>(&[0]); $check::<2, [u8; 2]>(&[0]) }
            [20] array_empty { $check::<1, [u32; 0]>(&[0]) }
            #[bounded]
            [20] arrays_of_composite { $check::<3, [bool; 3]>(&[0]); $check::<10, [Option<u32>; 2]>(&[1, 2, 3]) }
            #[bounded]
            [20] arrays_of_plain { $check::<8, [Plain; 2]>(&[0]); $check::<6, [Padded; 2]>(&[0]) }
            #[bounded]
            [20] vec_bytes { $check::<6, Vec<u8>>(&[0, 1, 2]) }
            #[bounded]
            [20] vec_u16 { $check::<8, Vec<u16>>(&[0, 1, 2]) }
            #[bounded]
            [24] vec_u64 { $check::<20, Vec<u64>>(&[1, 2]) }
            #[bounded]
            [20] vec_f32 { $check::<12, Vec<f32>>(&[1, 2]) }
            #[bounded]
            [20] vec_bool { $check::<6, Vec<bool>>(&[0, 2]) }
            #[bounded]
            [20] vec_option { $check::<10, Vec<Option<u16>>>(&[0, 4, 6]) }
            #[bounded]
            [20] vec_plain { $check::<12, Vec<Plain>>(&[0, 2]); $check::<12, Vec<Wrapper>>(&[2]) }
            #[bounded]
            [20] vec_padded { $check::<10, Vec<Padded>>(&[0, 2]); $check::<4, Vec<()>>(&[0, 2]) }
            #[bounded]
            [20] vec_vec { $check::<14, Vec<Vec<u8>>>(&[2, 8]) }
            #[bounded]
            [20] boxes { $check::<4, Box<u32>>(&[0]); $check::<8, Box<[u16]>>(&[0, 2]) }
            #[bounded]
            [20] cow_bytes { $check::<6, Cow<'static, [u8]>>(&[0, 2]) }
            #[bounded]
            [20] cow_u32 { $check::<12, Cow<'static, [u32]>>(&[0, 2]) }
            [20] derived_plain { $check::<4, Plain>(&[0]); $check::<4, Wrapper>(&[0]); $check::<3, Padded>(&[0]); $check::<1, Unit>(&[0]) }
            #[bounded]
            [20] derived_mixed { $check::<13, Mixed>(&[0, 2]) }
            [20] derived_small { $check::<3, Pair>(&[0]); $check::<3, Tuple>(&[0]) }
            #[bounded]
            [20] derived_generic { $check::<5, Generic<u16>>(&[0, 1]); $check::<15, Generic<Vec<u8>>>(&[2]) }
            [20] derived_enum { $check::<7, Enum>(&[0, 1, 2, 3]) }
            #[bounded]
            [20] derived_nested { $check::<11, Vec<Pair>>(&[0, 2]); $check::<8, Option<Enum>>(&[0, 2]) }
            #[utf8]
            #[bounded]
            [20] string_ascii { $check::<6, String>(&[0, 1, 5]) }
            #[utf8]
            #[bounded]
            [20] string_utf8 { $check::<8, String>(&[2, 3, 4]) }
            #[utf8]
            #[bounded]
            [20] boxed_str { $check::<8, Box<str>>(&[0, 3]) }
            #[utf8]
            #[bounded]
            [20] cow_str { $check::<8, Cow<'static, str>>(&[0, 3]) }
        }
    }
}
