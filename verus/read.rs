//@ include source.rs
verus! {

impl< 'a, C: Context > Readable< 'a, C > for i8 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( i8, read_i8, swap_slice_i8 ) / impl< 'a, C: Context > Readable< 'a, C > for i8 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( i8, read_i8, swap_slice_i8 ) / impl< 'a, C: Context > Readable< 'a, C > for i8 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for i16 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( i16, read_i16, swap_slice_i16 ) / impl< 'a, C: Context > Readable< 'a, C > for i16 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( i16, read_i16, swap_slice_i16 ) / impl< 'a, C: Context > Readable< 'a, C > for i16 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for i32 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( i32, read_i32, swap_slice_i32 ) / impl< 'a, C: Context > Readable< 'a, C > for i32 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( i32, read_i32, swap_slice_i32 ) / impl< 'a, C: Context > Readable< 'a, C > for i32 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for i64 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( i64, read_i64, swap_slice_i64 ) / impl< 'a, C: Context > Readable< 'a, C > for i64 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( i64, read_i64, swap_slice_i64 ) / impl< 'a, C: Context > Readable< 'a, C > for i64 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for i128 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( i128, read_i128, swap_slice_i128 ) / impl< 'a, C: Context > Readable< 'a, C > for i128 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( i128, read_i128, swap_slice_i128 ) / impl< 'a, C: Context > Readable< 'a, C > for i128 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for u8 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( u8, read_u8, swap_slice_u8 ) / impl< 'a, C: Context > Readable< 'a, C > for u8 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( u8, read_u8, swap_slice_u8 ) / impl< 'a, C: Context > Readable< 'a, C > for u8 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for u16 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( u16, read_u16, swap_slice_u16 ) / impl< 'a, C: Context > Readable< 'a, C > for u16 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( u16, read_u16, swap_slice_u16 ) / impl< 'a, C: Context > Readable< 'a, C > for u16 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for u32 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( u32, read_u32, swap_slice_u32 ) / impl< 'a, C: Context > Readable< 'a, C > for u32 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( u32, read_u32, swap_slice_u32 ) / impl< 'a, C: Context > Readable< 'a, C > for u32 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for u64 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( u64, read_u64, swap_slice_u64 ) / impl< 'a, C: Context > Readable< 'a, C > for u64 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( u64, read_u64, swap_slice_u64 ) / impl< 'a, C: Context > Readable< 'a, C > for u64 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for u128 {
//@ fn src/readable_impl.rs macro impl_for_primitive ( u128, read_u128, swap_slice_u128 ) / impl< 'a, C: Context > Readable< 'a, C > for u128 / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_primitive ( u128, read_u128, swap_slice_u128 ) / impl< 'a, C: Context > Readable< 'a, C > for u128 / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for usize {
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for usize / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for usize / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for bool {
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for bool / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for bool / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for () {
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for () / fn read_from
//@   parameter R__
//@   sub _ : &mut ==> reader : &mut
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for () / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for Endianness {
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for Endianness / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for Endianness / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for char {
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for char / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for char / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for core::ops::Range< T > {
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Range< T > / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Range< T > / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Option< T > {
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Option< T > / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Option< T > / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Vec< T > {
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Vec< T > / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Vec< T > / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for core::ops::RangeInclusive< T > {
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for RangeInclusive< T > / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for RangeInclusive< T > / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, T: Readable< 'a, C >, E: Readable< 'a, C > > Readable< 'a, C > for Result< T, E > {
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C >, E: Readable< 'a, C > > Readable< 'a, C > for Result< T, E > / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context, T: Readable< 'a, C >, E: Readable< 'a, C > > Readable< 'a, C > for Result< T, E > / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Box< T > {
//@ fn src/readable_impl.rs impl< 'a, C, T > Readable< 'a, C > for Box< T > / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs impl< 'a, C, T > Readable< 'a, C > for Box< T > / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for String {
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for String / fn read_from
//@   parameter R__
//@   body
        broadcast use {private::axiom_text, private::axiom_texts, private::lemma_same_bytes, private::axiom_vec_of, private::axiom_text_of};
        proof { assert forall|v: Self, e: Endianness| v.fits() implies #[trigger] v.enc(e) == private::vec_of(v.bytes()).enc(e) by {} }
//@ end
//@ fn src/readable_impl.rs impl< 'a, C: Context > Readable< 'a, C > for String / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context > Readable< 'a, C > for Box< str > {
//@ fn src/readable_impl.rs impl< 'a, C > Readable< 'a, C > for Box< str > / fn read_from
//@   parameter R__
//@   sub data . into ( ) ==> into_boxed_text(data)
//@   body
        broadcast use {private::axiom_text, private::axiom_texts, private::lemma_same_bytes, private::axiom_vec_of, private::axiom_text_of};
        proof { assert forall|v: Self, e: Endianness| v.fits() implies #[trigger] v.enc(e) == private::text_of((*v).spec_bytes()).enc(e) by {} }
//@ end
//@ fn src/readable_impl.rs impl< 'a, C > Readable< 'a, C > for Box< str > / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, T: Readable< 'a, C > > Readable< 'a, C > for Box< [T] > {
//@ fn src/readable_impl.rs impl< 'a, C, T > Readable< 'a, C > for Box< [T] > / fn read_from
//@   parameter R__
//@   sub data . into ( ) ==> into_boxed_slice(data)
//@   body
        broadcast use {private::axiom_text, private::axiom_texts, private::lemma_same_bytes, private::axiom_vec_of, private::axiom_text_of};
        proof { assert forall|v: Self, e: Endianness| v.fits() implies #[trigger] v.enc(e) == private::vec_of(v@).enc(e) by {} }
//@ end
//@ fn src/readable_impl.rs impl< 'a, C, T > Readable< 'a, C > for Box< [T] > / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C > > Readable< 'a, C > for (A0,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0 ) / impl< 'a, C: Context, A0: Readable< 'a, C > > Readable< 'a, C > for (A0,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0 ) / impl< 'a, C: Context, A0: Readable< 'a, C > > Readable< 'a, C > for (A0,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C > > Readable< 'a, C > for (A0, A1,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C > > Readable< 'a, C > for (A0, A1,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C > > Readable< 'a, C > for (A0, A1,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C >, A9: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8, A9 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C >, A9: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8, A9 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C >, A9: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,) / fn minimum_bytes_needed
//@ end
}
impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C >, A9: Readable< 'a, C >, A10: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10,) {
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C >, A9: Readable< 'a, C >, A10: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10,) / fn read_from
//@   parameter R__
//@ end
//@ fn src/readable_impl.rs macro impl_for_tuple ( A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10 ) / impl< 'a, C: Context, A0: Readable< 'a, C >, A1: Readable< 'a, C >, A2: Readable< 'a, C >, A3: Readable< 'a, C >, A4: Readable< 'a, C >, A5: Readable< 'a, C >, A6: Readable< 'a, C >, A7: Readable< 'a, C >, A8: Readable< 'a, C >, A9: Readable< 'a, C >, A10: Readable< 'a, C > > Readable< 'a, C > for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10,) / fn minimum_bytes_needed
//@ end
}

}
fn main() {}
