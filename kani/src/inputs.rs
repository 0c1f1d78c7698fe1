//! Arbitrary inputs for every type.

/// Runs `decode::<N, T>(byte order, data, length)`, which is defined where this is used, on inputs of every type;
/// `$orders` are the byte orders for the `i`-th length of a container.
macro_rules! for_inputs {
    ($orders:expr) => {
        /// Every input of up to `N` bytes.
        #[inline(always)]
        fn any<const N: usize, T: Same + Readable<'static, Ctx>>() {
            decode::<N, T>(nd::endianness(), nd::any(), nd::upto(N))
        }

        /// Inputs of the given lengths, where the `u32` at the beginning is `count`.
        #[inline(always)]
        fn counted<const N: usize, T: Same + Readable<'static, Ctx>>(count: u32, lengths: &[usize]) {
            let mut i = 0;
            while i < lengths.len() {
                for e in ($orders)(i) {
                    let mut data: [u8; N] = nd::any();
                    let c = if e == Endianness::LittleEndian { count.to_le_bytes() } else { count.to_be_bytes() };
                    data[0] = c[0];
                    data[1] = c[1];
                    data[2] = c[2];
                    data[3] = c[3];
                    decode::<N, T>(e, data, lengths[i]);
                }
                i += 1;
            }
        }

        /// A container in the middle of a struct: `a: u8, b: Vec<u16>, c: u32`.
        #[inline(always)]
        fn mixed(count: u32, lengths: &[usize]) {
            let mut i = 0;
            while i < lengths.len() {
                for e in ($orders)(i) {
                    let mut data: [u8; 12] = nd::any();
                    let c = if e == Endianness::LittleEndian { count.to_le_bytes() } else { count.to_be_bytes() };
                    data[1] = c[0];
                    data[2] = c[1];
                    data[3] = c[2];
                    data[4] = c[3];
                    decode::<12, Mixed>(e, data, lengths[i]);
                }
                i += 1;
            }
        }

        harnesses! {
            [20] unsigned { any::<2, u8>(); any::<3, u16>(); any::<5, u32>(); any::<9, u64>(); any::<9, usize>() }
            [20] signed { any::<2, i8>(); any::<3, i16>(); any::<5, i32>(); any::<9, i64>() }
            [20] wide { any::<17, u128>(); any::<17, i128>() }
            [20] floats { any::<5, f32>(); any::<9, f64>() }
            [20] scalars { any::<2, bool>(); any::<5, char>(); any::<1, ()>(); any::<2, Endianness>() }
            [20] non_zero { any::<2, NonZeroU8>(); any::<3, NonZeroU16>(); any::<5, NonZeroU32>(); any::<9, NonZeroU64>() }
            [20] non_zero_signed { any::<2, NonZeroI8>(); any::<3, NonZeroI16>(); any::<5, NonZeroI32>(); any::<9, NonZeroI64>() }
            [20] atomic { any::<2, AtomicU8>(); any::<3, AtomicU16>(); any::<5, AtomicU32>(); any::<9, AtomicU64>() }
            [20] atomic_signed { any::<2, AtomicI8>(); any::<3, AtomicI16>(); any::<5, AtomicI32>(); any::<9, AtomicI64>() }
            [20] addresses { any::<5, Ipv4Addr>(); any::<17, Ipv6Addr>(); any::<18, IpAddr>() }
            [20] duration { any::<13, Duration>() }
            [20] system_time { any::<13, SystemTime>() }
            [20] ranges { any::<5, Range<u16>>(); any::<3, RangeInclusive<u8>>(); any::<7, Range<Option<u16>>>() }
            [20] option { any::<6, Option<u32>>(); any::<7, Option<Option<u16>>>() }
            [20] result { any::<4, Result<u16, bool>>(); any::<6, Result<(), char>>() }
            [20] tuples { any::<3, (u16,)>(); any::<7, (u8, u16, bool, u16)>(); any::<12, (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool)>() }
            [20] arrays { any::<7, [u16; 3]>(); any::<4, [bool; 3]>(); any::<2, [u32; 0]>(); any::<9, [Option<u16>; 2]>() }
            [20] arrays_of_plain { any::<9, [Plain; 2]>(); any::<7, [Padded; 2]>() }
            [20] derived { any::<5, Plain>(); any::<5, Wrapper>(); any::<4, Padded>(); any::<1, Unit>(); any::<4, Pair>(); any::<4, Tuple>() }
            [20] derived_generic { any::<8, Generic<u16>>() }
            [20] derived_enum { any::<8, Enum>() }
            [20] boxed { any::<5, Box<u32>>(); any::<2, Box<bool>>() }
            #[bounded]
            [20] vec_bytes { counted::<7, Vec<u8>>(0, &[4, 5]); counted::<7, Vec<u8>>(2, &[4, 5, 6, 7]) }
            #[bounded]
            [20] vec_u16 { counted::<9, Vec<u16>>(0, &[5]); counted::<9, Vec<u16>>(2, &[7, 8, 9]) }
            #[bounded]
            [20] vec_u64 { counted::<13, Vec<u64>>(1, &[11, 12, 13]) }
            #[bounded]
            [20] vec_bool { counted::<7, Vec<bool>>(0, &[5]); counted::<7, Vec<bool>>(2, &[5, 6, 7]) }
            #[bounded]
            [20] vec_char { counted::<9, Vec<char>>(1, &[7, 8]) }
            #[bounded]
            [20] vec_plain { counted::<13, Vec<Plain>>(2, &[11, 12]) }
            #[bounded]
            [20] vec_padded { counted::<11, Vec<Padded>>(2, &[9, 10]) }
            #[bounded]
            [20] vec_pair { counted::<11, Vec<Pair>>(2, &[9, 10]) }
            #[bounded]
            [20] boxed_slice { counted::<9, Box<[u16]>>(2, &[7, 8]); counted::<6, Box<[bool]>>(1, &[4, 5]) }
            #[bounded]
            [20] cow_bytes { counted::<7, Cow<'static, [u8]>>(0, &[5]); counted::<7, Cow<'static, [u8]>>(2, &[5, 6, 7]) }
            #[bounded]
            [20] cow_u32 { counted::<13, Cow<'static, [u32]>>(0, &[5]); counted::<13, Cow<'static, [u32]>>(2, &[11, 12]) }
            #[bounded]
            [20] cow_bool { counted::<7, Cow<'static, [bool]>>(2, &[5, 6]) }
            #[bounded]
            #[utf8]
            [20] string { counted::<7, String>(0, &[5]); counted::<7, String>(2, &[5, 6, 7]) }
            #[bounded]
            #[utf8]
            [20] string_3 { counted::<8, String>(3, &[7]) }
            #[bounded]
            #[utf8]
            [20] boxed_str { counted::<7, Box<str>>(2, &[5, 6]) }
            #[bounded]
            #[utf8]
            [20] cow_str { counted::<7, Cow<'static, str>>(0, &[5]); counted::<7, Cow<'static, str>>(2, &[5, 6]) }
            #[bounded]
            [20] derived_mixed { mixed(0, &[8, 9, 10]) }
            #[bounded]
            [20] derived_mixed_1 { mixed(1, &[6, 7, 10, 11]) }
        }
    };
}
