//! Types whose derived implementations, as the compiler expands them from /repo's macros, are verified in the units
//! `derive_write` and `derive_read`.
use speedy::{Readable, Writable};

/// Fields of any types.
#[derive(Readable, Writable)]
pub struct Named<T, U, V> {
    pub a: T,
    pub b: U,
    pub c: V,
}

#[derive(Readable, Writable)]
pub struct Unnamed<T, U>(pub T, pub U);

#[derive(Readable, Writable)]
pub struct Unit;

/// Fields which the macro treats on its own.
#[derive(Readable, Writable)]
pub struct Known<T> {
    pub a: Vec<T>,
    pub b: T,
}

#[derive(Readable, Writable)]
pub struct KnownOption<T> {
    pub a: Option<T>,
}

#[derive(Readable, Writable)]
pub struct KnownText<T> {
    pub a: String,
    pub b: (u16, T),
}

/// Every type of a length.
#[derive(Readable, Writable)]
pub struct Lengths<T> {
    #[speedy(length_type = u7)]
    pub a: Vec<T>,
    #[speedy(length_type = u8)]
    pub b: Vec<T>,
}

#[derive(Readable, Writable)]
pub struct Lengths2<T> {
    #[speedy(length_type = u16)]
    pub a: Vec<T>,
    #[speedy(length_type = u32)]
    pub b: Vec<T>,
}

#[derive(Readable, Writable)]
pub struct Lengths3<T> {
    #[speedy(length_type = u64)]
    pub a: Vec<T>,
    pub b: u8,
}

#[derive(Readable, Writable)]
pub struct Texts {
    #[speedy(length_type = u8)]
    pub a: String,
    pub b: u8,
    #[speedy(length_type = u64)]
    pub c: String,
}

/// A length which another field has.
#[derive(Readable, Writable)]
pub struct Measured<T> {
    pub n: u16,
    pub m: u8,
    #[speedy(length = n)]
    pub a: Vec<T>,
    #[speedy(length = m / 2)]
    pub b: Vec<T>,
    pub c: T,
}

#[derive(Readable, Writable)]
pub struct Skips<T> {
    pub a: T,
    #[speedy(skip)]
    pub b: u32,
    pub c: u16,
}

#[derive(Readable, Writable)]
pub struct Optional<T> {
    #[speedy(length_type = u16)]
    pub a: Option<Vec<T>>,
    pub b: u8,
}

#[derive(Readable, Writable)]
pub struct OptionalText {
    pub a: Option<String>,
    pub b: u8,
}

/// The tags follow each other, after the last explicit one.
#[derive(Readable, Writable)]
pub enum Tagged<T> {
    A,
    B(T),
    #[speedy(tag = 7)]
    C { x: u32, y: T },
    D(u8, T),
    #[speedy(tag = 3)]
    E,
    F,
}

#[derive(Readable, Writable)]
#[speedy(tag_type = u7)]
pub enum Tagged7<T> {
    A(T),
    #[speedy(tag = 127)]
    B,
}

#[derive(Readable, Writable)]
#[speedy(tag_type = u8)]
pub enum Tagged8<T> {
    A(T),
    #[speedy(tag = 255)]
    B,
}

#[derive(Readable, Writable)]
#[speedy(tag_type = u16)]
pub enum Tagged16<T> {
    A(T),
    #[speedy(tag = 65535)]
    B,
}

#[derive(Readable, Writable)]
#[speedy(tag_type = u64)]
pub enum Tagged64<T> {
    A(T),
    #[speedy(tag = 0x1_0000_0000)]
    B(u8),
}

/// Discriminants are tags.
#[derive(Readable, Writable)]
pub enum Discriminants {
    A = 5,
    B,
    C = 1,
}

/// The last field may be missing.
#[derive(Readable, Writable)]
pub struct Missing<T> {
    pub a: T,
    #[speedy(default_on_eof)]
    pub b: u32,
}

/// The tag is the first field.
#[derive(Readable, Writable)]
#[speedy(peek_tag)]
#[speedy(tag_type = u8)]
pub enum Peeked<T> {
    #[speedy(tag = 1)]
    A(u8, T),
    #[speedy(tag = 200)]
    B { x: u8, y: u16 },
}
