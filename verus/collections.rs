//@ include sink.rs
verus! {


/// Stands for the standard library's traits.
pub trait Iterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Some(v) => old(self).rest().len() > 0 && v == old(self).rest()[0] && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int),
        };
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter) ensures r.rest() == self.items();
}
impl<I: Iterator> IntoIterator for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn items(&self) -> Seq<I::Item> { self.rest() }
    fn into_iter(self) -> I { self }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Iter<T> { t: ::core::marker::PhantomData<T> }
impl<T> Iterator for Iter<T> {
    type Item = T;
    uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { loop {} }
}

impl<'a, T> IntoIterator for &'a [T] {
    type Item = &'a T;
    type IntoIter = Iter<&'a T>;
    open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Iter<&'a T>) { loop {} }
}

pub trait WriterCollections<C: Context>: Writer<C> {
//@ fn src/writer.rs trait Writer< C: Context > / fn write_slice
//@   returns r
//@   spec
        ensures wrote::<Self>(old(self), final(self), r is Ok, encs::<T>(slice@, old(self).order()), all_fit::<T>(slice@))
//@   body
        proof { lemma_primitives::<T>(slice@); assert(slice@.subrange(0, slice@.len() as int) =~= slice@); }
//@   desugar 0
//@   loop 0
        invariant
            iter__.rest().len() <= slice@.len(),
            forall|i: int| 0 <= i < iter__.rest().len() ==> *(#[trigger] iter__.rest()[i]) == slice@[slice@.len() - iter__.rest().len() + i],
            self.order() == old(self).order(), self.limit() == old(self).limit(), self.eventually() == old(self).eventually(),
            self.out() =~= old(self).out() + encs::<T>(slice@.subrange(0, slice@.len() - iter__.rest().len()), old(self).order()),
            all_fit::<T>(slice@.subrange(0, slice@.len() - iter__.rest().len())),
        ensures
            iter__.rest().len() == 0
        decreases iter__.rest().len()
//@   within 0
        let ghost i = slice@.len() - iter__.rest().len() - 1;
        proof { assert(slice@[i] == *value); assert(slice@[i].fits() == (*value).fits()); lemma_step::<T>(slice@, i, old(self).order()); }
//@ end
//@ fn src/writer.rs trait Writer< C: Context > / fn write_collection
//@   returns r
//@   spec
        ensures wrote::<Self>(old(self), final(self), r is Ok, encs::<T>(collection.items(), old(self).order()), all_fit::<T>(collection.items()))
//@   body
        let ghost all = collection.items();
        proof { assert(all.subrange(0, all.len() as int) =~= all); }
//@   desugar 0
//@   loop 0
        invariant
            iter__.rest().len() <= all.len(),
            iter__.rest() =~= all.subrange(all.len() - iter__.rest().len(), all.len() as int),
            all == collection.items(),
            self.order() == old(self).order(), self.limit() == old(self).limit(), self.eventually() == old(self).eventually(),
            self.out() =~= old(self).out() + encs::<T>(all.subrange(0, all.len() - iter__.rest().len()), old(self).order()),
            all_fit::<T>(all.subrange(0, all.len() - iter__.rest().len())),
        ensures
            iter__.rest().len() == 0
        decreases iter__.rest().len()
//@   within 0
        let ghost i = all.len() - iter__.rest().len() - 1;
        proof { assert(all[i] == item); assert(all[i].fits() == item.fits()); lemma_step::<T>(all, i, old(self).order()); }
//@ end
}
impl<C: Context, W: ?Sized + Writer<C>> WriterCollections<C> for W {}

macro_rules! sequences {
    ($([$($g:ident),*] $t:ident $item:ty;)*) => { verus! { $(
        /// Stands for the standard library's.
        #[verifier::external_body]
        $(#[verifier::reject_recursive_types($g)])*
        pub struct $t<$($g),*> { t: ($(::core::marker::PhantomData<$g>),*) }
        impl<$($g),*> $t<$($g),*> {
            pub uninterp spec fn items(&self) -> Seq<$item>;
            #[verifier::external_body]
            pub fn len(&self) -> (r: usize) ensures r == self.items().len() { loop {} }
            #[verifier::external_body]
            pub fn iter(&self) -> (r: Iter<$item>) ensures r.rest() == self.items() { loop {} }
        }
    )* } };
}

impl< 'a, C: Context, T: Writable< C > > Writable< C > for &'a T {
//@ fn src/writable_impl.rs impl< 'a, C, T > Writable< C > for &'a T / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< 'a, C, T > Writable< C > for &'a T / fn bytes_needed
//@ end
}
impl< C: Context, A0: Writable< C >, A1: Writable< C > > Writable< C > for (A0, A1,) {
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C > > Writable< C > for (A0, A1,) / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs macro impl_for_tuple ( A0, A1 ) / impl< C: Context, A0: Writable< C >, A1: Writable< C > > Writable< C > for (A0, A1,) / fn bytes_needed
//@ end
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { t: (::core::marker::PhantomData<K>, ::core::marker::PhantomData<V>,) }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn entries<'a>(&'a self) -> Seq<(&'a K, &'a V)>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.entries().len() { loop {} }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Iter<(&'a K, &'a V)>) ensures r.rest() == self.entries() { loop {} }
}
impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<(&'a K, &'a V)>;
    open spec fn items(&self) -> Seq<(&'a K, &'a V)> { self.entries() }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Iter<(&'a K, &'a V)>) { loop {} }
}
impl<K: Encoding, V: Encoding> Encoding for BTreeMap<K, V> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { (self.entries().len() as u32).enc(e) + encs(self.entries(), e) }
    open spec fn fits(&self) -> bool { self.entries().len() <= u32::MAX && all_fit(self.entries()) }
    open spec fn size(&self) -> nat { 4 + sizes(self.entries()) }
    open spec fn least() -> nat { 4 }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { all_same(self.entries(), other.entries()) }
    proof fn lemma_size(&self, e: Endianness) { lemma_sizes(self.entries(), e); }
    proof fn lemma_primitive(&self) {}
}
impl< C: Context, K: Writable< C >, V: Writable< C > > Writable< C > for BTreeMap< K, V > {
//@ fn src/writable_impl.rs impl< C, K, V > Writable< C > for BTreeMap< K, V > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C, K, V > Writable< C > for BTreeMap< K, V > / fn bytes_needed
//@   body
        let ghost all = self.entries();
        proof { assert(all.subrange(0, all.len() as int) =~= all); }
//@   desugar 0
//@   loop 0
        invariant
            iter__.rest().len() <= all.len(),
            iter__.rest() =~= all.subrange(all.len() - iter__.rest().len(), all.len() as int),
            4 + sizes(all) <= usize::MAX,
            all == self.entries(),
            count == 4 + sizes(all.subrange(0, all.len() - iter__.rest().len())),
        ensures
            iter__.rest().len() == 0
        decreases iter__.rest().len()
//@   within 0
        let ghost i = all.len() - iter__.rest().len() - 1;
        proof { assert(all[i] == (key, value)); assert(Encoding::fits(&all[i]) == Encoding::fits(&(key, value))); lemma_step(all, i, Endianness::LittleEndian); }
//@ end
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { t: (::core::marker::PhantomData<T>,) }
impl<T> BTreeSet<T> {
    pub uninterp spec fn entries<'a>(&'a self) -> Seq<&'a T>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.entries().len() { loop {} }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Iter<&'a T>) ensures r.rest() == self.entries() { loop {} }
}
impl<'a, T> IntoIterator for &'a BTreeSet<T> {
    type Item = &'a T;
    type IntoIter = Iter<&'a T>;
    open spec fn items(&self) -> Seq<&'a T> { self.entries() }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Iter<&'a T>) { loop {} }
}
impl<T: Encoding> Encoding for BTreeSet<T> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { (self.entries().len() as u32).enc(e) + encs(self.entries(), e) }
    open spec fn fits(&self) -> bool { self.entries().len() <= u32::MAX && all_fit(self.entries()) }
    open spec fn size(&self) -> nat { 4 + sizes(self.entries()) }
    open spec fn least() -> nat { 4 }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { all_same(self.entries(), other.entries()) }
    proof fn lemma_size(&self, e: Endianness) { lemma_sizes(self.entries(), e); }
    proof fn lemma_primitive(&self) {}
}
impl< C: Context, T: Writable< C > > Writable< C > for BTreeSet< T > {
//@ fn src/writable_impl.rs impl< C, T > Writable< C > for BTreeSet< T > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C, T > Writable< C > for BTreeSet< T > / fn bytes_needed
//@   body
        let ghost all = self.entries();
        proof { assert(all.subrange(0, all.len() as int) =~= all); }
//@   desugar 0
//@   loop 0
        invariant
            iter__.rest().len() <= all.len(),
            iter__.rest() =~= all.subrange(all.len() - iter__.rest().len(), all.len() as int),
            4 + sizes(all) <= usize::MAX,
            all == self.entries(),
            count == 4 + sizes(all.subrange(0, all.len() - iter__.rest().len())),
        ensures
            iter__.rest().len() == 0
        decreases iter__.rest().len()
//@   within 0
        let ghost i = all.len() - iter__.rest().len() - 1;
        proof { assert(all[i] == value); assert(Encoding::fits(&all[i]) == Encoding::fits(&value)); lemma_step(all, i, Endianness::LittleEndian); }
//@ end
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct HashMap<K, V, S> { t: (::core::marker::PhantomData<K>, ::core::marker::PhantomData<V>, ::core::marker::PhantomData<S>,) }
impl<K, V, S> HashMap<K, V, S> {
    pub uninterp spec fn entries<'a>(&'a self) -> Seq<(&'a K, &'a V)>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.entries().len() { loop {} }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Iter<(&'a K, &'a V)>) ensures r.rest() == self.entries() { loop {} }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<(&'a K, &'a V)>;
    open spec fn items(&self) -> Seq<(&'a K, &'a V)> { self.entries() }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Iter<(&'a K, &'a V)>) { loop {} }
}
impl<K: Encoding, V: Encoding, S> Encoding for HashMap<K, V, S> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { (self.entries().len() as u32).enc(e) + encs(self.entries(), e) }
    open spec fn fits(&self) -> bool { self.entries().len() <= u32::MAX && all_fit(self.entries()) }
    open spec fn size(&self) -> nat { 4 + sizes(self.entries()) }
    open spec fn least() -> nat { 4 }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { all_same(self.entries(), other.entries()) }
    proof fn lemma_size(&self, e: Endianness) { lemma_sizes(self.entries(), e); }
    proof fn lemma_primitive(&self) {}
}
impl< C: Context, K: Writable< C >, V: Writable< C >, S > Writable< C > for HashMap< K, V, S > {
//@ fn src/writable_impl.rs impl< C, K, V, S > Writable< C > for HashMap< K, V, S > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C, K, V, S > Writable< C > for HashMap< K, V, S > / fn bytes_needed
//@   body
        let ghost all = self.entries();
        proof { assert(all.subrange(0, all.len() as int) =~= all); }
//@   desugar 0
//@   loop 0
        invariant
            iter__.rest().len() <= all.len(),
            iter__.rest() =~= all.subrange(all.len() - iter__.rest().len(), all.len() as int),
            4 + sizes(all) <= usize::MAX,
            all == self.entries(),
            count == 4 + sizes(all.subrange(0, all.len() - iter__.rest().len())),
        ensures
            iter__.rest().len() == 0
        decreases iter__.rest().len()
//@   within 0
        let ghost i = all.len() - iter__.rest().len() - 1;
        proof { assert(all[i] == (key, value)); assert(Encoding::fits(&all[i]) == Encoding::fits(&(key, value))); lemma_step(all, i, Endianness::LittleEndian); }
//@ end
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(S)]
pub struct HashSet<T, S> { t: (::core::marker::PhantomData<T>, ::core::marker::PhantomData<S>,) }
impl<T, S> HashSet<T, S> {
    pub uninterp spec fn entries<'a>(&'a self) -> Seq<&'a T>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.entries().len() { loop {} }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Iter<&'a T>) ensures r.rest() == self.entries() { loop {} }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<&'a T>;
    open spec fn items(&self) -> Seq<&'a T> { self.entries() }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Iter<&'a T>) { loop {} }
}
impl<T: Encoding, S> Encoding for HashSet<T, S> {
    open spec fn enc(&self, e: Endianness) -> Seq<u8> { (self.entries().len() as u32).enc(e) + encs(self.entries(), e) }
    open spec fn fits(&self) -> bool { self.entries().len() <= u32::MAX && all_fit(self.entries()) }
    open spec fn size(&self) -> nat { 4 + sizes(self.entries()) }
    open spec fn least() -> nat { 4 }
    open spec fn primitive() -> bool { false }
    open spec fn same(&self, other: &Self) -> bool { all_same(self.entries(), other.entries()) }
    proof fn lemma_size(&self, e: Endianness) { lemma_sizes(self.entries(), e); }
    proof fn lemma_primitive(&self) {}
}
impl< C: Context, T: Writable< C >, S > Writable< C > for HashSet< T, S > {
//@ fn src/writable_impl.rs impl< C, T, S > Writable< C > for HashSet< T, S > / fn write_to
//@   parameter W__
//@ end
//@ fn src/writable_impl.rs impl< C, T, S > Writable< C > for HashSet< T, S > / fn bytes_needed
//@   body
        let ghost all = self.entries();
        proof { assert(all.subrange(0, all.len() as int) =~= all); }
//@   desugar 0
//@   loop 0
        invariant
            iter__.rest().len() <= all.len(),
            iter__.rest() =~= all.subrange(all.len() - iter__.rest().len(), all.len() as int),
            4 + sizes(all) <= usize::MAX,
            all == self.entries(),
            count == 4 + sizes(all.subrange(0, all.len() - iter__.rest().len())),
        ensures
            iter__.rest().len() == 0
        decreases iter__.rest().len()
//@   within 0
        let ghost i = all.len() - iter__.rest().len() - 1;
        proof { assert(all[i] == value); assert(Encoding::fits(&all[i]) == Encoding::fits(&value)); lemma_step(all, i, Endianness::LittleEndian); }
//@ end
}

}
fn main() {}
