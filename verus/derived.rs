verus! {

//@ item @zoo struct Named
//@ item @zoo struct Unnamed
//@ item @zoo struct Unit
//@ item @zoo struct Known
//@ item @zoo struct KnownOption
//@ item @zoo struct KnownText
//@ item @zoo struct Lengths
//@ item @zoo struct Lengths2
//@ item @zoo struct Lengths3
//@ item @zoo struct Texts
//@ item @zoo struct Measured
//@ item @zoo struct Skips
//@ item @zoo struct Optional
//@ item @zoo struct OptionalText
//@ item @zoo enum Tagged
//@ item @zoo enum Tagged7
//@ item @zoo enum Tagged8
//@ item @zoo enum Tagged16
//@ item @zoo enum Tagged64
//@ item @zoo enum Discriminants
//@ item @zoo struct Missing
//@ item @zoo enum Peeked

// What the documentation says that they are encoded as.

macro_rules! derived {
    ($([$($g:tt)*] $t:ty, $least:expr, |$v:ident, $e:ident| { $($enc:tt)* } { $($fits:tt)* } { $($size:tt)* } |$w:ident| { $($same:tt)* } { $($lemma:tt)* })*) => { verus! { $(
        impl<$($g)*> Encoding for $t {
            open spec fn enc(&self, $e: Endianness) -> Seq<u8> { let $v = *self; $($enc)* }
            open spec fn fits(&self) -> bool { let $v = *self; $($fits)* }
            open spec fn size(&self) -> nat { let $v = *self; $($size)* }
            open spec fn least() -> nat { $least }
            open spec fn primitive() -> bool { false }
            open spec fn same(&self, other: &Self) -> bool { let $v = *self; let $w = *other; $($same)* }
            proof fn lemma_size(&self, $e: Endianness) { let $v = *self; $($lemma)* }
            proof fn lemma_primitive(&self) {}
        }
    )* } };
}
derived! {
    [T: Encoding, U: Encoding, V: Encoding] Named<T, U, V>, T::least() + U::least() + V::least(), |v, e|
        { v.a.enc(e) + (v.b.enc(e) + v.c.enc(e)) }
        { v.a.fits() && v.b.fits() && v.c.fits() }
        { v.a.size() + v.b.size() + v.c.size() }
        |w| { v.a.same(&w.a) && v.b.same(&w.b) && v.c.same(&w.c) }
        { v.a.lemma_size(e); v.b.lemma_size(e); v.c.lemma_size(e); }
    [T: Encoding, U: Encoding] Unnamed<T, U>, T::least() + U::least(), |v, e|
        { v.0.enc(e) + v.1.enc(e) }
        { v.0.fits() && v.1.fits() }
        { v.0.size() + v.1.size() }
        |w| { v.0.same(&w.0) && v.1.same(&w.1) }
        { v.0.lemma_size(e); v.1.lemma_size(e); }
    [] Unit, 0, |v, e| { seq![] } { true } { 0 } |w| { true } { }
    [T: Encoding] Known<T>, 4 + T::least(), |v, e|
        { (v.a@.len() as u32).enc(e) + (encs::<T>(v.a@, e) + v.b.enc(e)) }
        { v.a@.len() <= u32::MAX && all_fit::<T>(v.a@) && v.b.fits() }
        { 4 + sizes::<T>(v.a@) + v.b.size() }
        |w| { all_same::<T>(v.a@, w.a@) && v.b.same(&w.b) }
        { lemma_sizes::<T>(v.a@, e); v.b.lemma_size(e); }
    [T: Encoding] KnownOption<T>, 1, |v, e|
        { match v.a { Some(a) => 1u8.enc(e) + a.enc(e), None => 0u8.enc(e) } }
        { match v.a { Some(a) => a.fits(), None => true } }
        { match v.a { Some(a) => 1 + a.size(), None => 1 } }
        |w| { match (v.a, w.a) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } }
        { match v.a { Some(a) => a.lemma_size(e), None => () } }
    [T: Encoding] KnownText<T>, 4 + 2 + T::least(), |v, e|
        { (v.a.bytes().len() as u32).enc(e) + (encs::<u8>(v.a.bytes(), e) + v.b.enc(e)) }
        { v.a.bytes().len() <= u32::MAX && v.b.fits() }
        { 4 + sizes::<u8>(v.a.bytes()) + v.b.size() }
        |w| { v.a.bytes() == w.a.bytes() && v.b.same(&w.b) }
        { lemma_sizes::<u8>(v.a.bytes(), e); v.b.lemma_size(e); }
    [T: Encoding] Lengths<T>, 1 + 1, |v, e|
        { (v.a@.len() as u8).enc(e) + (encs::<T>(v.a@, e) + ((v.b@.len() as u8).enc(e) + encs::<T>(v.b@, e))) }
        { v.a@.len() <= 127 && v.b@.len() <= u8::MAX && all_fit::<T>(v.a@) && all_fit::<T>(v.b@) }
        { 1 + sizes::<T>(v.a@) + 1 + sizes::<T>(v.b@) }
        |w| { all_same::<T>(v.a@, w.a@) && all_same::<T>(v.b@, w.b@) }
        { lemma_sizes::<T>(v.a@, e); lemma_sizes::<T>(v.b@, e); }
    [T: Encoding] Lengths2<T>, 2 + 4, |v, e|
        { (v.a@.len() as u16).enc(e) + (encs::<T>(v.a@, e) + ((v.b@.len() as u32).enc(e) + encs::<T>(v.b@, e))) }
        { v.a@.len() <= u16::MAX && v.b@.len() <= u32::MAX && all_fit::<T>(v.a@) && all_fit::<T>(v.b@) }
        { 2 + sizes::<T>(v.a@) + 4 + sizes::<T>(v.b@) }
        |w| { all_same::<T>(v.a@, w.a@) && all_same::<T>(v.b@, w.b@) }
        { lemma_sizes::<T>(v.a@, e); lemma_sizes::<T>(v.b@, e); }
    [T: Encoding] Lengths3<T>, 8 + 1, |v, e|
        { (v.a@.len() as u64).enc(e) + (encs::<T>(v.a@, e) + v.b.enc(e)) }
        { v.a@.len() <= usize::MAX && all_fit::<T>(v.a@) }
        { 8 + sizes::<T>(v.a@) + 1 }
        |w| { all_same::<T>(v.a@, w.a@) && v.b == w.b }
        { lemma_sizes::<T>(v.a@, e); }
    [] Texts, 1 + 1 + 8, |v, e|
        { (v.a.bytes().len() as u8).enc(e) + (encs::<u8>(v.a.bytes(), e) + (v.b.enc(e) + ((v.c.bytes().len() as u64).enc(e) + encs::<u8>(v.c.bytes(), e)))) }
        { v.a.bytes().len() <= u8::MAX && v.c.bytes().len() <= usize::MAX }
        { 1 + sizes::<u8>(v.a.bytes()) + 1 + 8 + sizes::<u8>(v.c.bytes()) }
        |w| { v.a.bytes() == w.a.bytes() && v.b == w.b && v.c.bytes() == w.c.bytes() }
        { lemma_sizes::<u8>(v.a.bytes(), e); lemma_sizes::<u8>(v.c.bytes(), e); }
    [T: Encoding] Measured<T>, 2 + 1 + T::least(), |v, e|
        { v.n.enc(e) + (v.m.enc(e) + (encs::<T>(v.a@, e) + (encs::<T>(v.b@, e) + v.c.enc(e)))) }
        { v.a@.len() == v.n && all_fit::<T>(v.a@) && v.b@.len() == v.m / 2 && all_fit::<T>(v.b@) && v.c.fits() }
        { 2 + 1 + sizes::<T>(v.a@) + sizes::<T>(v.b@) + v.c.size() }
        |w| { v.n == w.n && v.m == w.m && all_same::<T>(v.a@, w.a@) && all_same::<T>(v.b@, w.b@) && v.c.same(&w.c) }
        { lemma_sizes::<T>(v.a@, e); lemma_sizes::<T>(v.b@, e); v.c.lemma_size(e); }
    [T: Encoding] Skips<T>, T::least() + 2, |v, e|
        { v.a.enc(e) + v.c.enc(e) }
        { v.a.fits() }
        { v.a.size() + 2 }
        |w| { v.a.same(&w.a) && v.c == w.c }
        { v.a.lemma_size(e); }
    [T: Encoding] Optional<T>, 1 + 1, |v, e|
        { match v.a { Some(a) => 1u8.enc(e) + ((a@.len() as u16).enc(e) + (encs::<T>(a@, e) + v.b.enc(e))), None => 0u8.enc(e) + v.b.enc(e) } }
        { match v.a { Some(a) => a@.len() <= u16::MAX && all_fit::<T>(a@), None => true } }
        { match v.a { Some(a) => 1 + 2 + sizes::<T>(a@) + 1, None => 2 } }
        |w| { (match (v.a, w.a) { (Some(a), Some(b)) => all_same::<T>(a@, b@), (None, None) => true, _ => false }) && v.b == w.b }
        { match v.a { Some(a) => lemma_sizes::<T>(a@, e), None => () } }
    [] OptionalText, 1 + 1, |v, e|
        { match v.a { Some(a) => 1u8.enc(e) + ((a.bytes().len() as u32).enc(e) + (encs::<u8>(a.bytes(), e) + v.b.enc(e))), None => 0u8.enc(e) + v.b.enc(e) } }
        { match v.a { Some(a) => a.bytes().len() <= u32::MAX, None => true } }
        { match v.a { Some(a) => 1 + 4 + sizes::<u8>(a.bytes()) + 1, None => 2 } }
        |w| { (match (v.a, w.a) { (Some(a), Some(b)) => a.bytes() == b.bytes(), (None, None) => true, _ => false }) && v.b == w.b }
        { match v.a { Some(a) => lemma_sizes::<u8>(a.bytes(), e), None => () } }
    [T: Encoding] Tagged<T>, 4, |v, e|
        { match v { Tagged::A => 0u32.enc(e), Tagged::B(x) => 1u32.enc(e) + x.enc(e), Tagged::C { x, y } => 7u32.enc(e) + (x.enc(e) + y.enc(e)), Tagged::D(x, y) => 8u32.enc(e) + (x.enc(e) + y.enc(e)), Tagged::E => 3u32.enc(e), Tagged::F => 4u32.enc(e) } }
        { match v { Tagged::B(x) => x.fits(), Tagged::C { x, y } => y.fits(), Tagged::D(x, y) => y.fits(), _ => true } }
        { match v { Tagged::B(x) => 4 + x.size(), Tagged::C { x, y } => 8 + y.size(), Tagged::D(x, y) => 5 + y.size(), _ => 4 } }
        |w| { match (v, w) { (Tagged::A, Tagged::A) => true, (Tagged::B(a), Tagged::B(b)) => a.same(&b), (Tagged::C { x, y }, Tagged::C { x: x2, y: y2 }) => x == x2 && y.same(&y2), (Tagged::D(x, y), Tagged::D(x2, y2)) => x == x2 && y.same(&y2), (Tagged::E, Tagged::E) => true, (Tagged::F, Tagged::F) => true, _ => false } }
        { match v { Tagged::B(x) => x.lemma_size(e), Tagged::C { x, y } => y.lemma_size(e), Tagged::D(x, y) => y.lemma_size(e), _ => () } }
    [T: Encoding] Tagged7<T>, 1, |v, e|
        { match v { Tagged7::A(x) => 0u8.enc(e) + x.enc(e), Tagged7::B => 127u8.enc(e) } }
        { match v { Tagged7::A(x) => x.fits(), _ => true } }
        { match v { Tagged7::A(x) => 1 + x.size(), _ => 1 } }
        |w| { match (v, w) { (Tagged7::A(a), Tagged7::A(b)) => a.same(&b), (Tagged7::B, Tagged7::B) => true, _ => false } }
        { match v { Tagged7::A(x) => x.lemma_size(e), _ => () } }
    [T: Encoding] Tagged8<T>, 1, |v, e|
        { match v { Tagged8::A(x) => 0u8.enc(e) + x.enc(e), Tagged8::B => 255u8.enc(e) } }
        { match v { Tagged8::A(x) => x.fits(), _ => true } }
        { match v { Tagged8::A(x) => 1 + x.size(), _ => 1 } }
        |w| { match (v, w) { (Tagged8::A(a), Tagged8::A(b)) => a.same(&b), (Tagged8::B, Tagged8::B) => true, _ => false } }
        { match v { Tagged8::A(x) => x.lemma_size(e), _ => () } }
    [T: Encoding] Tagged16<T>, 2, |v, e|
        { match v { Tagged16::A(x) => 0u16.enc(e) + x.enc(e), Tagged16::B => 65535u16.enc(e) } }
        { match v { Tagged16::A(x) => x.fits(), _ => true } }
        { match v { Tagged16::A(x) => 2 + x.size(), _ => 2 } }
        |w| { match (v, w) { (Tagged16::A(a), Tagged16::A(b)) => a.same(&b), (Tagged16::B, Tagged16::B) => true, _ => false } }
        { match v { Tagged16::A(x) => x.lemma_size(e), _ => () } }
    [T: Encoding] Tagged64<T>, 8 + if T::least() <= 1 { T::least() } else { 1 }, |v, e|
        { match v { Tagged64::A(x) => 0u64.enc(e) + x.enc(e), Tagged64::B(x) => 0x1_0000_0000u64.enc(e) + x.enc(e) } }
        { match v { Tagged64::A(x) => x.fits(), _ => true } }
        { match v { Tagged64::A(x) => 8 + x.size(), _ => 9 } }
        |w| { match (v, w) { (Tagged64::A(a), Tagged64::A(b)) => a.same(&b), (Tagged64::B(a), Tagged64::B(b)) => a == b, _ => false } }
        { match v { Tagged64::A(x) => x.lemma_size(e), _ => () } }
    [] Discriminants, 4, |v, e|
        { match v { Discriminants::A => 5u32.enc(e), Discriminants::B => 6u32.enc(e), Discriminants::C => 1u32.enc(e) } }
        { true } { 4 }
        |w| { match (v, w) { (Discriminants::A, Discriminants::A) => true, (Discriminants::B, Discriminants::B) => true, (Discriminants::C, Discriminants::C) => true, _ => false } }
        { }
    [T: Encoding] Missing<T>, T::least(), |v, e|
        { v.a.enc(e) + v.b.enc(e) }
        { v.a.fits() }
        { v.a.size() + 4 }
        |w| { v.a.same(&w.a) && v.b == w.b }
        { v.a.lemma_size(e); }
    [T: Encoding] Peeked<T>, 1 + if T::least() <= 2 { T::least() } else { 2 }, |v, e|
        { match v { Peeked::A(x, y) => x.enc(e) + y.enc(e), Peeked::B { x, y } => x.enc(e) + y.enc(e) } }
        { match v { Peeked::A(x, y) => x == 1 && y.fits(), Peeked::B { x, y } => x == 200 } }
        { match v { Peeked::A(x, y) => 1 + y.size(), Peeked::B { x, y } => 3 } }
        |w| { match (v, w) { (Peeked::A(x, y), Peeked::A(x2, y2)) => x == x2 && y.same(&y2), (Peeked::B { x, y }, Peeked::B { x: x2, y: y2 }) => x == x2 && y == y2, _ => false } }
        { match v { Peeked::A(x, y) => y.lemma_size(e), _ => () } }
}

}
