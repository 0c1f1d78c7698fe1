//! C16: the optional integrations.

use crate::ctx::*;
use crate::io::*;
use crate::nd;
use crate::util::*;
use speedy::{Endianness, Readable, Writable};

/// A value which is written and read back.
#[inline(always)]
fn case<const N: usize, T: Gen + Same + Writable<Ctx> + Readable<'static, Ctx>>(shape: usize, e: Endianness) {
    let v = T::gen(shape);
    value::<N, T>(&v, e);
    std::mem::forget(v);
}

#[inline(always)]
fn value<const N: usize, T: Same + Writable<Ctx> + Readable<'static, Ctx>>(v: &T, e: Endianness) {
    let mut out = Dst::<N>::new(e);
    assert!(v.write_to(&mut out).is_ok(), "C16: the value can be serialized");
    let n = out.n;
    match v.bytes_needed() {
        Ok(needed) => assert!(needed == n, "C16: the reported size is the number of bytes which are written"),
        Err(_) => panic!("C16: the size of every value is reported"),
    }
    assert!(<T as Readable<'static, Ctx>>::minimum_bytes_needed() <= n, "C16: the declared minimum is not more than the size of an encoding");
    back::<N, BORROWING, T>(v, &out.d[..], n, e);
    back::<N, STREAM, T>(v, &out.d[..], n, e);
    // Exactly the encoding, through the public function.
    match T::read_from_buffer_with_ctx(Ctx(e), nd::forever(&out.d[..n])) {
        Ok(r) => {
            assert!(r.same(v), "C16: the value read back is the value written");
            std::mem::forget(r);
        }
        Err(_) => panic!("C16: reading back succeeds"),
    }
}

#[inline(always)]
fn back<const N: usize, const KIND: u8, T: Same + Readable<'static, Ctx>>(v: &T, data: &[u8], n: usize, e: Endianness) {
    let mut reader = Src::<KIND>::new(e, nd::forever(data));
    match T::read_from(&mut reader) {
        Ok(r) => {
            assert!(r.same(v), "C16: the value read back is the value written");
            std::mem::forget(r);
        }
        Err(_) => panic!("C16: reading back succeeds"),
    }
    assert!(reader.pos == n, "C16: exactly the bytes written are consumed");
}

#[inline(always)]
fn both<const N: usize, T: Gen + Same + Writable<Ctx> + Readable<'static, Ctx>>(shape: usize) {
    case::<N, T>(shape, Endianness::LittleEndian);
    case::<N, T>(shape, Endianness::BigEndian);
}

/// Any bytes of the given length.
#[inline(always)]
fn decode<const N: usize, T: Readable<'static, Ctx>>(n: usize) {
    let data: [u8; N] = nd::any();
    let e = nd::endianness();
    let mut reader = Src::<BORROWING>::new(e, nd::forever(&data[..n]));
    let r = T::read_from(&mut reader);
    assert!(reader.pos <= n, "C16: no more than the input is consumed");
    if let Err(ref error) = r {
        assert!(!error.eof || n < N, "C16: enough input is not too short");
    }
    std::mem::forget(r);
}

/// A value of a large type, in one byte order.
#[inline(always)]
fn once<const N: usize, T: Gen + Same + Writable<Ctx> + Readable<'static, Ctx>>(e: Endianness) {
    let v = T::gen(0);
    let mut out = Dst::<N>::new(e);
    assert!(v.write_to(&mut out).is_ok(), "C16: the value can be serialized");
    assert!(out.n == N - 1, "C16: the value is written as its components");
    match v.bytes_needed() {
        Ok(needed) => assert!(needed == N - 1, "C16: the reported size is the number of bytes which are written"),
        Err(_) => panic!("C16: the size of every value is reported"),
    }
    assert!(<T as Readable<'static, Ctx>>::minimum_bytes_needed() <= N - 1, "C16: the declared minimum is not more than the size of an encoding");
    back::<N, BORROWING, T>(&v, &out.d[..], N - 1, e);
}

/// Every input of the right length is a value.
#[inline(always)]
fn any<const N: usize, T: Readable<'static, Ctx>>() {
    let data: [u8; N] = nd::any();
    let mut reader = Src::<BORROWING>::new(nd::endianness(), nd::forever(&data));
    assert!(T::read_from(&mut reader).is_ok(), "C16: enough input is not too short");
    assert!(reader.pos == N, "C16: exactly the size is consumed");
}

/// Input which is one byte too short.
#[inline(always)]
fn short<T: Readable<'static, Ctx>>(n: usize) {
    let data = [0x5A_u8; 128];
    let mut reader = Src::<BORROWING>::new(nd::endianness(), nd::forever(&data[..n]));
    match T::read_from(&mut reader) {
        Ok(_) => panic!("C16: input which is too short is an error"),
        Err(error) => assert!(error.eof, "C16: input which is too short is an end of input error"),
    }
    assert!(T::read_from_buffer_with_ctx(Ctx(nd::endianness()), nd::forever(&data[..n])).is_err(), "C16: input which is too short is an error");
}

#[inline(always)]
fn fixed<const N: usize, T: Gen + Same + Writable<Ctx> + Readable<'static, Ctx>>() {
    both::<N, T>(0);
    decode::<N, T>(N);
    decode::<N, T>(nd::upto(N));
}

#[cfg(not(kani))]
fn seeded(seed: &mut u64) -> Vec<u8> {
    (0..512).map(|_| { *seed ^= *seed << 13; *seed ^= *seed >> 7; *seed ^= *seed << 17; (*seed >> 32) as u8 }).collect()
}

/// Pseudorandom values of growing sizes.
#[cfg(not(kani))]
fn random<T: Gen + Same + Writable<Ctx> + Readable<'static, Ctx>>() {
    let mut seed = 0x9E37_79B9_7F4A_7C15;
    for n in 0..300_usize {
        nd::replay(&seeded(&mut seed));
        // Values which are not possible (e.g. of characters) are skipped.
        let v = match std::panic::catch_unwind(|| T::gen(if n < 200 { n % 20 } else { n % 90 } % T::SHAPES)) {
            Ok(v) => v,
            Err(e) if e.is::<nd::AssumptionFailed>() => continue,
            Err(e) => std::panic::resume_unwind(e),
        };
        value::<8192, T>(&v, if n % 2 == 0 { Endianness::LittleEndian } else { Endianness::BigEndian });
    }
}

/// Pseudorandom input, the count at its start small.
#[cfg(not(kani))]
fn noise<T: Readable<'static, Ctx>>() {
    let mut seed = 0x9E37_79B9_7F4A_7C15;
    for nth in 0..2000_usize {
        let mut data = seeded(&mut seed);
        let e = if nth & 1 == 0 { Endianness::LittleEndian } else { Endianness::BigEndian };
        if nth & 2 == 0 {
            let count = u32::from(data[4] & 15);
            data[..4].copy_from_slice(&if nth & 1 == 0 { count.to_le_bytes() } else { count.to_be_bytes() });
        }
        data.truncate(nth % 200);
        let n = data.len();
        let mut reader = Src::<BORROWING>::new(e, nd::forever(&data));
        let r = T::read_from(&mut reader);
        assert!(reader.pos <= n, "C16: no more than the input is consumed");
        if n < T::minimum_bytes_needed() { assert!(r.is_err(), "C16: less than the declared minimum is an error"); }
        let _ = T::read_from_buffer_with_ctx(Ctx(e), nd::forever(&data));
    }
}

impl Gen for uuid::Uuid {
    const SHAPES: usize = 1;
    fn gen(_: usize) -> Self { uuid::Uuid::from_bytes(nd::any()) }
}
impl Same for uuid::Uuid {
    fn same(&self, other: &Self) -> bool { self.as_bytes().same(other.as_bytes()) }
}

macro_rules! vectors {
    ($($t:ident $c:ident $new:ident $($field:ident)*;)*) => { $(
        impl Gen for glam::$t {
            const SHAPES: usize = 1;
            #[inline(always)]
            fn gen(_: usize) -> Self { $(let $field: $c = nd::any();)* glam::$t::$new($($field),*) }
        }
        impl Same for glam::$t {
            #[inline(always)]
            fn same(&self, other: &Self) -> bool { true $(&& self.$field.same(&other.$field))* }
        }
    )* };
}
vectors! {
    Vec2 f32 new x y; Vec3 f32 new x y z; Vec3A f32 new x y z; Vec4 f32 new x y z w;
    DVec2 f64 new x y; DVec3 f64 new x y z; DVec4 f64 new x y z w;
    IVec2 i32 new x y; IVec3 i32 new x y z; IVec4 i32 new x y z w;
    UVec2 u32 new x y; UVec3 u32 new x y z; UVec4 u32 new x y z w;
    BVec2 bool new x y; BVec3 bool new x y z; BVec4 bool new x y z w;
    Quat f32 from_xyzw x y z w; DQuat f64 from_xyzw x y z w;
}
macro_rules! matrices {
    ($($t:ident $c:ident $n:literal;)*) => { $(
        impl Gen for glam::$t {
            const SHAPES: usize = 1;
            #[inline(always)]
            fn gen(_: usize) -> Self { let c: [$c; $n] = nd::any(); glam::$t::from_cols_array(&c) }
        }
        impl Same for glam::$t {
            #[inline(always)]
            fn same(&self, other: &Self) -> bool { self.to_cols_array().same(&other.to_cols_array()) }
        }
    )* };
}
matrices! {
    Mat2 f32 4; Mat3 f32 9; Mat3A f32 9; Mat4 f32 16; DMat2 f64 4; DMat3 f64 9; DMat4 f64 16;
    Affine2 f32 6; Affine3A f32 12; DAffine2 f64 6; DAffine3 f64 12;
}

impl<A: smallvec::Array> Gen for smallvec::SmallVec<A> where A::Item: Gen {
    const SHAPES: usize = usize::MAX;
    fn gen(n: usize) -> Self {
        let mut v = Vec::with_capacity(n);
        for i in 0..n { v.push(A::Item::gen(i % A::Item::SHAPES)) }
        smallvec::SmallVec::from_vec(v)
    }
}
impl<A: smallvec::Array> Same for smallvec::SmallVec<A> where A::Item: Same {
    fn same(&self, other: &Self) -> bool { self.as_slice().same(other.as_slice()) }
}

harnesses! {
    [20] uuid { fixed::<17, uuid::Uuid>() }
    [20] vectors_2 { fixed::<9, glam::Vec2>(); fixed::<17, glam::DVec2>(); fixed::<9, glam::IVec2>(); fixed::<9, glam::UVec2>() }
    [20] vectors_3 { fixed::<13, glam::Vec3>(); fixed::<13, glam::IVec3>(); fixed::<13, glam::UVec3>() }
    [20] vector_3_double { fixed::<25, glam::DVec3>() }
    [20] vector_3_aligned { fixed::<13, glam::Vec3A>() }
    [20] vectors_4 { fixed::<17, glam::IVec4>(); fixed::<17, glam::UVec4>() }
    [20] vector_4 { fixed::<17, glam::Vec4>() }
    [20] vector_4_double { fixed::<33, glam::DVec4>() }
    [20] vectors_of_booleans { fixed::<2, glam::BVec2>(); fixed::<2, glam::BVec3>(); fixed::<2, glam::BVec4>() }
    [20] quaternion { fixed::<17, glam::Quat>() }
    [20] quaternion_double { fixed::<33, glam::DQuat>() }
    [20] matrix_2 { fixed::<17, glam::Mat2>() }
    [20] matrix_2_double { fixed::<33, glam::DMat2>() }
    [20] matrix_3_little { once::<37, glam::Mat3>(Endianness::LittleEndian) }
    [20] matrix_3_big { once::<37, glam::Mat3>(Endianness::BigEndian) }
    [20] matrix_3_double_little { once::<73, glam::DMat3>(Endianness::LittleEndian) }
    [20] matrix_3_double_big { once::<73, glam::DMat3>(Endianness::BigEndian) }
    [20] matrix_3_aligned_little { once::<37, glam::Mat3A>(Endianness::LittleEndian) }
    [20] matrix_3_aligned_big { once::<37, glam::Mat3A>(Endianness::BigEndian) }
    [20] matrix_4_little { once::<65, glam::Mat4>(Endianness::LittleEndian) }
    [20] matrix_4_big { once::<65, glam::Mat4>(Endianness::BigEndian) }
    [20] matrix_4_double_little { once::<129, glam::DMat4>(Endianness::LittleEndian) }
    [20] matrix_4_double_big { once::<129, glam::DMat4>(Endianness::BigEndian) }
    [20] affine_2_little { once::<25, glam::Affine2>(Endianness::LittleEndian) }
    [20] affine_2_big { once::<25, glam::Affine2>(Endianness::BigEndian) }
    [20] affine_2_double_little { once::<49, glam::DAffine2>(Endianness::LittleEndian) }
    [20] affine_2_double_big { once::<49, glam::DAffine2>(Endianness::BigEndian) }
    [20] affine_3_little { once::<49, glam::Affine3A>(Endianness::LittleEndian) }
    [20] affine_3_big { once::<49, glam::Affine3A>(Endianness::BigEndian) }
    [20] affine_3_double_little { once::<97, glam::DAffine3>(Endianness::LittleEndian) }
    [20] affine_3_double_big { once::<97, glam::DAffine3>(Endianness::BigEndian) }
    [20] matrices_any { any::<36, glam::Mat3>(); any::<36, glam::Mat3A>() }
    [20] matrices_4_any { any::<64, glam::Mat4>() }
    [20] matrices_short { short::<glam::Mat2>(15); short::<glam::Mat3>(35); short::<glam::Mat3A>(35); short::<glam::Mat4>(63); short::<glam::Affine2>(23); short::<glam::Affine3A>(47) }
    [20] matrices_double_short { short::<glam::DMat2>(31); short::<glam::DMat3>(71); short::<glam::DMat4>(127); short::<glam::DAffine2>(47); short::<glam::DAffine3>(95) }
    #[bounded]
    [20] small_vec_inline { case::<9, smallvec::SmallVec<[u16; 4]>>(2, Endianness::LittleEndian) }
    #[bounded]
    [20] small_vec_inline_big { case::<9, smallvec::SmallVec<[u16; 4]>>(1, Endianness::BigEndian) }
    #[bounded]
    [20] small_vec_spilled { case::<7, smallvec::SmallVec<[u8; 1]>>(2, Endianness::LittleEndian) }
    #[bounded]
    [20] small_vec_spilled_big { case::<7, smallvec::SmallVec<[u8; 1]>>(2, Endianness::BigEndian) }
    #[native] [0] small_vec_random {
        random::<smallvec::SmallVec<[u8; 4]>>(); random::<smallvec::SmallVec<[u32; 2]>>(); random::<smallvec::SmallVec<[Option<u16>; 1]>>();
        random::<smallvec::SmallVec<[Vec<u8>; 2]>>(); random::<smallvec::SmallVec<[String; 1]>>(); random::<smallvec::SmallVec<[f32; 8]>>();
        noise::<smallvec::SmallVec<[u8; 4]>>(); noise::<smallvec::SmallVec<[u64; 2]>>(); noise::<smallvec::SmallVec<[Option<u16>; 1]>>(); noise::<smallvec::SmallVec<[Vec<u8>; 2]>>();
    }
    #[bounded]
    [20] small_vec_short { short::<smallvec::SmallVec<[u16; 2]>>(3) }
}

pub mod time {
    use super::*;
    use chrono::{DateTime, TimeZone, Utc};

    impl Same for DateTime<Utc> {
        fn same(&self, other: &Self) -> bool {
            self.timestamp() == other.timestamp() && self.timestamp_subsec_nanos() == other.timestamp_subsec_nanos()
        }
    }

    /// A moment of the given day.
    #[inline(always)]
    fn moment(day: chrono::NaiveDate, seconds: u32, nanoseconds: u32) -> Option<DateTime<Utc>> {
        let time = chrono::NaiveTime::from_num_seconds_from_midnight_opt(seconds, nanoseconds)?;
        Some(Utc.from_utc_datetime(&day.and_time(time)))
    }

    #[inline(always)]
    fn day(day: chrono::NaiveDate, e: Endianness) {
        if let Some(v) = moment(day, nd::any(), nd::any()) {
            value::<13, DateTime<Utc>>(&v, e);
        }
    }

    fn date(year: i32, month: u32, day: u32) -> chrono::NaiveDate {
        chrono::NaiveDate::from_ymd_opt(year, month, day).unwrap()
    }

    harnesses! {
        [20] decode_any { decode::<13, DateTime<Utc>>(13); }
        [20] epoch { day(date(1970, 1, 1), Endianness::LittleEndian) }
        [20] before_the_epoch { day(date(1969, 12, 31), Endianness::BigEndian) }
        [20] leap_day { day(date(2400, 2, 29), Endianness::LittleEndian) }
        [20] first_day { day(chrono::NaiveDate::MIN, Endianness::BigEndian) }
        [20] last_day { day(chrono::NaiveDate::MAX, Endianness::LittleEndian) }

        // Every kind of day and the boundaries within it.
        #[native]
        [0] days {
            let mut count = 0;
            for year in [-262143, -1, 0, 1, 1582, 1899, 1900, 1970, 1972, 2000, 2024, 2100, 262142] {
                for (month, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (12, 31)] {
                    let date = match chrono::NaiveDate::from_ymd_opt(year, month, d) { Some(date) => date, None => continue };
                    for seconds in [0, 1, 58, 59, 60, 43199, 86398, 86399] {
                        for nanoseconds in [0, 1, 999_999_999, 1_000_000_000, 1_500_000_000, 1_999_999_999] {
                            if let Some(v) = moment(date, seconds, nanoseconds) {
                                value::<13, DateTime<Utc>>(&v, Endianness::LittleEndian);
                                value::<13, DateTime<Utc>>(&v, Endianness::BigEndian);
                                count += 1;
                            }
                        }
                    }
                }
            }
            assert!(count > 1000);
        }

        // What is decoded is written back as it was, and what is not a moment is an error.
        #[native]
        [0] decoded {
            let mut seconds = Vec::new();
            for base in [0, 1, 60, 86400, 951782400, 1 << 31, 1_i64 << 32, 8210266876799, 8334601228800, 1 << 43, i64::MAX - 2] {
                for d in -2..3_i64 { if let Some(s) = base.checked_add(d) { seconds.push(s); seconds.push(s.wrapping_neg()); } }
            }
            seconds.push(i64::MIN);
            for &seconds in &seconds {
                for nanoseconds in [0, 1, 999_999_999, 1_000_000_000, 1_999_999_999, 2_000_000_000, u32::MAX] {
                    for e in [Endianness::LittleEndian, Endianness::BigEndian] {
                        let mut data = match e { Endianness::LittleEndian => seconds.to_le_bytes().to_vec(), _ => seconds.to_be_bytes().to_vec() };
                        data.extend(match e { Endianness::LittleEndian => nanoseconds.to_le_bytes(), _ => nanoseconds.to_be_bytes() });
                        match DateTime::<Utc>::read_from_buffer_with_ctx(Ctx(e), &data) {
                            Ok(v) => {
                                assert!(v.timestamp() == seconds && v.timestamp_subsec_nanos() == nanoseconds, "C16: what is decoded is what the bytes say");
                                value::<13, DateTime<Utc>>(&v, e);
                            }
                            Err(error) => {
                                assert!(error.kind == Kind::InvalidSystemTime, "C16: an invalid timestamp is its error");
                                assert!(Utc.timestamp_opt(seconds, nanoseconds).single().is_none(), "C16: a valid timestamp is decoded");
                            }
                        }
                        for n in 0..12 { assert!(DateTime::<Utc>::read_from_buffer_with_ctx(Ctx(e), &data[..n]).is_err(), "C16: input which is too short is an error"); }
                    }
                }
            }
        }
    }
}

/// Maps and sets which keep their order: hashing is out of Kani's reach, so these are executed.
pub mod ordered {
    #[allow(unused_imports)]
    use super::*;

    macro_rules! ordered {
        ($m:ident $indexmap:ident) => {
            pub mod $m {
                #[allow(unused_imports)]
                use super::super::*;
                use $indexmap::{IndexMap, IndexSet};

                impl<K: Gen + Eq + std::hash::Hash, V: Gen> Gen for IndexMap<K, V> {
                    const SHAPES: usize = usize::MAX;
                    fn gen(n: usize) -> Self { (0..n).map(|i| (K::gen(i % K::SHAPES), V::gen(i % V::SHAPES))).collect() }
                }
                impl<T: Gen + Eq + std::hash::Hash> Gen for IndexSet<T> {
                    const SHAPES: usize = usize::MAX;
                    fn gen(n: usize) -> Self { (0..n).map(|i| T::gen(i % T::SHAPES)).collect() }
                }
                impl<K: Same, V: Same> Same for IndexMap<K, V> {
                    fn same(&self, other: &Self) -> bool {
                        self.len() == other.len() && self.iter().zip(other.iter()).all(|(a, b)| a.0.same(b.0) && a.1.same(b.1))
                    }
                }
                impl<T: Same> Same for IndexSet<T> {
                    fn same(&self, other: &Self) -> bool { self.len() == other.len() && self.iter().zip(other.iter()).all(|(a, b)| a.same(b)) }
                }

                harnesses! {
                    #[native] [0] maps {
                        random::<IndexMap<u8, u16>>(); random::<IndexMap<u64, u8>>(); random::<IndexMap<u16, String>>(); random::<IndexMap<Vec<u8>, (u8, u32)>>();
                    }
                    #[native] [0] sets {
                        random::<IndexSet<u8>>(); random::<IndexSet<i32>>(); random::<IndexSet<Option<u16>>>(); random::<IndexSet<Vec<u16>>>();
                    }
                    #[native] [0] arbitrary {
                        noise::<IndexMap<u8, u16>>(); noise::<IndexMap<u16, String>>(); noise::<IndexSet<u8>>(); noise::<IndexSet<Option<u16>>>();
                    }
                }
            }
        }
    }
    ordered! { v1 indexmap_v1 }
    ordered! { v2 indexmap_v2 }
}

