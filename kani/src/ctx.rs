//! The context the harnesses use: same behaviour as `Endianness`, but with an error type which only keeps the kind of
//! the error. `Context::Error` is a type parameter of every function under verification, so this drops nothing but the
//! destructor of `std::io::Error`.

use speedy::private::{get_error_kind, ErrorKind};
use speedy::{Context, Endianness, IsEof};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    InvalidChar,
    InvalidEnumVariant,
    InvalidUtf8,
    InvalidSystemTime,
    ZeroNonZero,
    OutOfRangeLength,
    OutOfRangeUsize,
    UnexpectedEndOfInput,
    UnexpectedEndOfOutputBuffer,
    InputBufferIsTooSmall,
    OutputBufferIsTooSmall,
    LengthIsNotTheSameAsLengthAttribute,
    ExpectedConstant,
    Unsized,
    EndiannessMismatch,
    UnalignedInput,
    IoEof,
    Io,
    Other,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct E {
    pub kind: Kind,
    pub eof: bool,
}

pub const EOF: E = E { kind: Kind::UnexpectedEndOfInput, eof: true };

impl From<speedy::Error> for E {
    #[inline(always)]
    fn from(error: speedy::Error) -> Self {
        let kind = match get_error_kind(&error) {
            ErrorKind::InvalidChar => Kind::InvalidChar,
            ErrorKind::InvalidEnumVariant => Kind::InvalidEnumVariant,
            ErrorKind::InvalidUtf8 => Kind::InvalidUtf8,
            ErrorKind::InvalidSystemTime => Kind::InvalidSystemTime,
            ErrorKind::ZeroNonZero => Kind::ZeroNonZero,
            ErrorKind::OutOfRangeLength => Kind::OutOfRangeLength,
            ErrorKind::OutOfRangeUsize => Kind::OutOfRangeUsize,
            ErrorKind::UnexpectedEndOfInput => Kind::UnexpectedEndOfInput,
            ErrorKind::UnexpectedEndOfOutputBuffer => Kind::UnexpectedEndOfOutputBuffer,
            ErrorKind::InputBufferIsTooSmall { .. } => Kind::InputBufferIsTooSmall,
            ErrorKind::OutputBufferIsTooSmall { .. } => Kind::OutputBufferIsTooSmall,
            ErrorKind::LengthIsNotTheSameAsLengthAttribute { .. } => Kind::LengthIsNotTheSameAsLengthAttribute,
            ErrorKind::ExpectedConstant { .. } => Kind::ExpectedConstant,
            ErrorKind::Unsized => Kind::Unsized,
            ErrorKind::EndiannessMismatch => Kind::EndiannessMismatch,
            ErrorKind::UnalignedInput => Kind::UnalignedInput,
            // Neither serializing into nor deserializing from memory can result in an I/O error.
            ErrorKind::IoError(_) => panic!("an I/O error without any I/O"),
            #[allow(unreachable_patterns)]
            _ => Kind::Other,
        };
        let eof = match kind { Kind::UnexpectedEndOfInput | Kind::UnexpectedEndOfOutputBuffer => true, _ => false };
        std::mem::forget(error);
        E { kind, eof }
    }
}

impl IsEof for E {
    #[inline(always)]
    fn is_eof(&self) -> bool {
        self.eof
    }
}

#[derive(Copy, Clone)]
pub struct Ctx(pub Endianness);

impl Context for Ctx {
    type Error = E;
    #[inline(always)]
    fn endianness(&self) -> Endianness {
        self.0
    }
}

pub const LE: Ctx = Ctx(Endianness::LittleEndian);
pub const BE: Ctx = Ctx(Endianness::BigEndian);

/// The context for harnesses which involve streams; its error type also keeps whether an I/O error is an end of file.
#[derive(Copy, Clone)]
pub struct IoCtx(pub Endianness);

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct IoE(pub E);

impl From<speedy::Error> for IoE {
    #[inline(always)]
    fn from(error: speedy::Error) -> Self {
        if let ErrorKind::IoError(inner) = get_error_kind(&error) {
            let kind = if inner.kind() == std::io::ErrorKind::UnexpectedEof { Kind::IoEof } else { Kind::Io };
            std::mem::forget(error);
            IoE(E { kind, eof: kind == Kind::IoEof })
        } else {
            IoE(error.into())
        }
    }
}

impl IsEof for IoE {
    #[inline(always)]
    fn is_eof(&self) -> bool {
        self.0.eof
    }
}

impl Context for IoCtx {
    type Error = IoE;
    #[inline(always)]
    fn endianness(&self) -> Endianness {
        self.0
    }
}
