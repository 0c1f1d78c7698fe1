//@ include sink.rs
verus! {

pub trait WriterSlices<C: Context>: Writer<C> {
    /// Proved in the unit `collections`.
    #[verifier::external_body]
    fn write_slice<T: Writable<C>>(&mut self, slice: &[T]) -> (r: Result<(), C::Error>)
        ensures wrote::<Self>(old(self), final(self), r is Ok, encs::<T>(slice@, old(self).order()), all_fit::<T>(slice@))
    { loop {} }
}
impl<C: Context, W: ?Sized + Writer<C>> WriterSlices<C> for W {}

impl< C: Context > Writable< C > for i8 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( i8, write_i8 ) / impl< C: Context > Writable< C > for i8 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i8, write_i8 ) / impl< C: Context > Writable< C > for i8 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i8, write_i8 ) / impl< C: Context > Writable< C > for i8 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for i16 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( i16, write_i16 ) / impl< C: Context > Writable< C > for i16 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i16, write_i16 ) / impl< C: Context > Writable< C > for i16 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i16, write_i16 ) / impl< C: Context > Writable< C > for i16 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for i32 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( i32, write_i32 ) / impl< C: Context > Writable< C > for i32 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i32, write_i32 ) / impl< C: Context > Writable< C > for i32 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i32, write_i32 ) / impl< C: Context > Writable< C > for i32 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for i64 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( i64, write_i64 ) / impl< C: Context > Writable< C > for i64 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i64, write_i64 ) / impl< C: Context > Writable< C > for i64 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i64, write_i64 ) / impl< C: Context > Writable< C > for i64 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for i128 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( i128, write_i128 ) / impl< C: Context > Writable< C > for i128 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i128, write_i128 ) / impl< C: Context > Writable< C > for i128 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( i128, write_i128 ) / impl< C: Context > Writable< C > for i128 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for u8 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( u8, write_u8 ) / impl< C: Context > Writable< C > for u8 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u8, write_u8 ) / impl< C: Context > Writable< C > for u8 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u8, write_u8 ) / impl< C: Context > Writable< C > for u8 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for u16 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( u16, write_u16 ) / impl< C: Context > Writable< C > for u16 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u16, write_u16 ) / impl< C: Context > Writable< C > for u16 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u16, write_u16 ) / impl< C: Context > Writable< C > for u16 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for u32 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( u32, write_u32 ) / impl< C: Context > Writable< C > for u32 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u32, write_u32 ) / impl< C: Context > Writable< C > for u32 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u32, write_u32 ) / impl< C: Context > Writable< C > for u32 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for u64 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( u64, write_u64 ) / impl< C: Context > Writable< C > for u64 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u64, write_u64 ) / impl< C: Context > Writable< C > for u64 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u64, write_u64 ) / impl< C: Context > Writable< C > for u64 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for u128 {
//@ fn src/writable_impl.rs macro impl_for_primitive ( u128, write_u128 ) / impl< C: Context > Writable< C > for u128 / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u128, write_u128 ) / impl< C: Context > Writable< C > for u128 / fn bytes_needed
//@ end
//@ fn src/writable_impl.rs macro impl_for_primitive ( u128, write_u128 ) / impl< C: Context > Writable< C > for u128 / fn speedy_is_primitive
//@ end
}
impl< C: Context > Writable< C > for usize {
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for usize / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for usize / fn bytes_needed
//@ end
}
impl< C: Context > Writable< C > for bool {
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for bool / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for bool / fn bytes_needed
//@ end
}
impl< C: Context > Writable< C > for char {
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for char / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for char / fn bytes_needed
//@ end
}
impl< C: Context > Writable< C > for () {
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for () / fn write_to
//@   parameter W__
//@   sub _ : &mut ==> writer : &mut
//@ end
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for () / fn bytes_needed
//@ end
}
impl< C: Context > Writable< C > for Endianness {
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for Endianness / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for Endianness / fn bytes_needed
//@ end
}
impl< C: Context, T: Writable< C > > Writable< C > for [T] {
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for [T] / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for [T] / fn bytes_needed
//@   body
        proof { lemma_primitives::<T>(self@); lemma_sizes::<T>(self@, Endianness::LittleEndian); assert(self@.subrange(0, self@.len() as int) =~= self@); }
//@   loop 0
        invariant
            it__.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *it__.seq()[i] == self@[i],
            4 + sizes::<T>(self@) <= usize::MAX,
            sum == 4 + sizes::<T>(self@.subrange(0, it__.index() as int)),
//@   within 0
        proof { lemma_step::<T>(self@, it__.index() as int, Endianness::LittleEndian); }
//@ end
}
impl< C: Context, T: Writable< C >, const N: usize > Writable< C > for [T; N] {
//@ fn src/writable_impl.rs impl< C, T, const N: usize > Writable< C > for [T; N] / fn write_to
//@   parameter W__
//@   body
        proof { assert(self@.subrange(0, self@.len() as int) =~= self@); }
//@   loop 0
        invariant
            it__.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *it__.seq()[i] == self@[i],
            writer.order() == old(writer).order(), writer.limit() == old(writer).limit(), writer.eventually() == old(writer).eventually(),
            writer.out() =~= old(writer).out() + encs::<T>(self@.subrange(0, it__.index() as int), old(writer).order()),
            all_fit::<T>(self@.subrange(0, it__.index() as int)),
//@   within 0
        proof { lemma_step::<T>(self@, it__.index() as int, old(writer).order()); }
//@ end
//@ fn src/writable_impl.rs impl< C, T, const N: usize > Writable< C > for [T; N] / fn bytes_needed
//@   body
        proof { assert(self@.subrange(0, self@.len() as int) =~= self@); }
//@   loop 0
        invariant
            it__.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *it__.seq()[i] == self@[i],
            sizes::<T>(self@) <= usize::MAX,
            size == sizes::<T>(self@.subrange(0, it__.index() as int)),
//@   within 0
        proof { lemma_step::<T>(self@, it__.index() as int, Endianness::LittleEndian); }
//@ end
}
pub assume_specification<Idx> [core::ops::RangeInclusive::<Idx>::start] (v: &core::ops::RangeInclusive<Idx>) -> (r: &Idx) ensures *r == v@.start;
pub assume_specification<Idx> [core::ops::RangeInclusive::<Idx>::end] (v: &core::ops::RangeInclusive<Idx>) -> (r: &Idx) ensures *r == v@.end;

impl< C: Context, T: Writable< C > > Writable< C > for Vec< T > {
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for Vec< T > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for Vec< T > / fn bytes_needed
//@ end
}
impl< C: Context, T: Writable< C > > Writable< C > for core::ops::Range< T > {
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for Range< T > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for Range< T > / fn bytes_needed
//@ end
}
impl< C: Context, T: Writable< C > > Writable< C > for Option< T > {
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for Option< T > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for Option< T > / fn bytes_needed
//@ end
}
impl< C: Context, T: Writable< C > > Writable< C > for core::ops::RangeInclusive< T > {
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for RangeInclusive< T > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C > > Writable< C > for RangeInclusive< T > / fn bytes_needed
//@ end
}
impl< C: Context > Writable< C > for String {
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for String / fn write_to
//@   parameter W__
//@   body
        proof { lemma_primitives::<u8>(self.bytes()); }
//@ end
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for String / fn bytes_needed
//@   body
        proof { lemma_primitives::<u8>(self.bytes()); }
//@ end
}
impl< C: Context > Writable< C > for str {
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for str / fn write_to
//@   parameter W__
//@   body
        proof { lemma_primitives::<u8>(self.spec_bytes()); }
//@ end
//@ fn src/writable_impl.rs impl< C: Context > Writable< C > for str / fn bytes_needed
//@   body
        proof { lemma_primitives::<u8>(self.spec_bytes()); }
//@ end
}
impl< C: Context > Writable< C > for Box< str > {
//@ fn src/writable_impl.rs impl< C > Writable< C > for Box< str > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C > Writable< C > for Box< str > / fn bytes_needed
//@ end
}
impl< C: Context, T: Writable< C > > Writable< C > for Box< [T] > {
//@ fn src/writable_impl.rs impl< C, T > Writable< C > for Box< [T] > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C, T > Writable< C > for Box< [T] > / fn bytes_needed
//@ end
}
impl< 'a, C: Context, T: Writable< C > > Writable< C > for &'a mut T {
//@ fn src/writable_impl.rs impl< 'a, C, T > Writable< C > for &'a mut T / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< 'a, C, T > Writable< C > for &'a mut T / fn bytes_needed
//@ end
}
impl< C: Context, T: Writable< C >, E: Writable< C > > Writable< C > for Result< T, E > {
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C >, E: Writable< C > > Writable< C > for Result< T, E > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C: Context, T: Writable< C >, E: Writable< C > > Writable< C > for Result< T, E > / fn bytes_needed
//@ end
}
impl< 'a, C: Context, T: Writable< C > > Writable< C > for &'a T {
//@ fn src/writable_impl.rs impl< 'a, C, T > Writable< C > for &'a T / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< 'a, C, T > Writable< C > for &'a T / fn bytes_needed
//@ end
}
impl< C: Context, T: Writable< C > > Writable< C > for Box< T > {
//@ fn src/writable_impl.rs impl< C, T > Writable< C > for Box< T > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C, T > Writable< C > for Box< T > / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C > > Writable< C > for (A0,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0 ) / impl< C: Context, A0: Writable< C > > Writable< C > for (A0,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0 ) / impl< C: Context, A0: Writable< C > > Writable< C > for (A0,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C > > Writable< C > for (A0, A1,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C > > Writable< C > for (A0, A1,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C > > Writable< C > for (A0, A1,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C > > Writable< C > for (A0, A1, A2,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C > > Writable< C > for (A0, A1, A2,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C > > Writable< C > for (A0, A1, A2,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C > > Writable< C > for (A0, A1, A2, A3,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C > > Writable< C > for (A0, A1, A2, A3,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C > > Writable< C > for (A0, A1, A2, A3,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C >, A9: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8, A9 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C >, A9: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8, A9 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C >, A9: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,) / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C >, A9: Writable< C >, A10: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C >, A9: Writable< C >, A10: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C >, A2: Writable< C >, A3: Writable< C >, A4: Writable< C >, A5: Writable< C >, A6: Writable< C >, A7: Writable< C >, A8: Writable< C >, A9: Writable< C >, A10: Writable< C > > Writable< C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10,) / fn bytes_needed
//@ end
}

}
fn main() {}
