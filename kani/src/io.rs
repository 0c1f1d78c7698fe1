//! Streams with symbolic behaviour, and types which drive a reader or writer from inside `read_from`/`write_to`.

use crate::nd;
use std::io;

/// A stream over `data` which hands it out in chunks: bit `i` of `splits` ends a chunk after byte `i`, bit `i` of
/// `interrupts` interrupts the first read at byte `i`. Harnesses enumerate the masks, so that they are concrete.
pub struct Chunked<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub splits: u32,
    pub interrupts: u32,
}

impl<'a> Chunked<'a> {
    pub fn new(data: &'a [u8], splits: u32, interrupts: u32) -> Self {
        Chunked { data, pos: 0, splits, interrupts }
    }
}

impl<'a> io::Read for Chunked<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if (self.interrupts >> self.pos) & 1 == 1 {
            self.interrupts &= !(1 << self.pos);
            return Err(crate::stubs::io_error(io::ErrorKind::Interrupted));
        }
        let mut n = 0;
        while n < buf.len() && self.pos < self.data.len() {
            buf[n] = self.data[self.pos];
            n += 1;
            self.pos += 1;
            if (self.splits >> (self.pos - 1)) & 1 == 1 {
                break;
            }
        }
        Ok(n)
    }

    /// As documented by the standard library (whose own implementation is a loop over `read`).
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let remaining = self.data.len() - self.pos;
        if remaining < buf.len() {
            self.pos = self.data.len();
            return Err(crate::stubs::io_error(io::ErrorKind::UnexpectedEof));
        }
        let mut i = 0;
        while i < buf.len() {
            buf[i] = self.data[self.pos + i];
            i += 1;
        }
        self.pos += buf.len();
        Ok(())
    }
}

/// Declares a type whose `read_from` runs the given code on the reader; this is how harnesses reach the readers, whose
/// types are private.
macro_rules! probe {
    ($name:ident($t:ty) |$r:ident| $body:expr) => {
        pub struct $name(pub $t);
        impl<'a> speedy::Readable<'a, crate::ctx::Ctx> for $name {
            #[inline]
            fn read_from<R: speedy::Reader<'a, crate::ctx::Ctx>>($r: &mut R) -> Result<Self, crate::ctx::E> {
                Ok($name($body))
            }
        }
    };
    (io $name:ident($t:ty) |$r:ident| $body:expr) => {
        pub struct $name(pub $t);
        impl<'a> speedy::Readable<'a, crate::ctx::IoCtx> for $name {
            #[inline]
            fn read_from<R: speedy::Reader<'a, crate::ctx::IoCtx>>($r: &mut R) -> Result<Self, crate::ctx::IoE> {
                Ok($name($body))
            }
        }
    };
}

/// A reader which implements exactly the contract of `Reader`. Types are checked against this contract, and the
/// readers of the library are checked to fulfill it (C04, C08, C09, C14). `KIND` selects what the trait leaves open:
/// 0 hands out borrowed data and knows how much there is left (like `BufferReader`), 1 does not hand out borrowed data
/// beyond its own lifetime (like `CopyingBufferReader`), 2 knows nothing about the rest of the input (like a stream).
pub struct Src<'a, const KIND: u8> {
    pub ctx: crate::ctx::Ctx,
    pub data: &'a [u8],
    pub pos: usize,
}

pub const BORROWING: u8 = 0;
pub const COPYING: u8 = 1;
pub const STREAM: u8 = 2;

impl<'a, const KIND: u8> Src<'a, KIND> {
    #[inline(always)]
    pub fn new(e: speedy::Endianness, data: &'a [u8]) -> Self {
        Src { ctx: crate::ctx::Ctx(e), data, pos: 0 }
    }

    #[inline(always)]
    fn take(&mut self, length: usize) -> Result<&'a [u8], crate::ctx::E> {
        if self.data.len() - self.pos < length {
            return Err(crate::ctx::EOF);
        }
        let start = self.pos;
        self.pos += length;
        Ok(&self.data[start..start + length])
    }
}

impl<'a, const KIND: u8> speedy::Reader<'a, crate::ctx::Ctx> for Src<'a, KIND> {
    #[inline(always)]
    fn read_bytes(&mut self, output: &mut [u8]) -> Result<(), crate::ctx::E> {
        let bytes = self.take(output.len())?;
        output.copy_from_slice(bytes);
        Ok(())
    }

    #[inline(always)]
    fn peek_bytes(&mut self, output: &mut [u8]) -> Result<(), crate::ctx::E> {
        let pos = self.pos;
        let bytes = self.take(output.len())?;
        self.pos = pos;
        output.copy_from_slice(bytes);
        Ok(())
    }

    #[inline(always)]
    fn can_read_at_least(&self, size: usize) -> Option<bool> {
        if KIND == STREAM {
            None
        } else {
            Some(self.data.len() - self.pos >= size)
        }
    }

    #[inline(always)]
    fn read_bytes_borrowed(&mut self, length: usize) -> Option<Result<&'a [u8], crate::ctx::E>> {
        if KIND != BORROWING {
            return None;
        }
        Some(self.take(length))
    }

    #[inline(always)]
    fn read_bytes_borrowed_from_reader<'r>(&'r mut self, length: usize) -> Option<Result<&'r [u8], crate::ctx::E>> {
        if KIND == STREAM {
            return None;
        }
        Some(self.take(length))
    }

    #[inline(always)]
    fn read_bytes_borrowed_until_eof(&mut self) -> Option<&'a [u8]> {
        if KIND != BORROWING {
            return None;
        }
        self.take(self.data.len() - self.pos).ok()
    }

    #[inline(always)]
    fn context(&self) -> &crate::ctx::Ctx {
        &self.ctx
    }

    #[inline(always)]
    fn context_mut(&mut self) -> &mut crate::ctx::Ctx {
        &mut self.ctx
    }
}

/// A writer which implements exactly the contract of `Writer`; see `Src`.
pub struct Dst<const N: usize> {
    pub ctx: crate::ctx::Ctx,
    pub d: [u8; N],
    pub n: usize,
}

impl<const N: usize> Dst<N> {
    #[inline(always)]
    pub fn new(e: speedy::Endianness) -> Self {
        Dst { ctx: crate::ctx::Ctx(e), d: [0; N], n: 0 }
    }
}

impl<const N: usize> speedy::Writer<crate::ctx::Ctx> for Dst<N> {
    #[inline(always)]
    fn write_bytes(&mut self, slice: &[u8]) -> Result<(), crate::ctx::E> {
        // A harness whose buffer is too small shows up as a failed check.
        self.d[self.n..self.n + slice.len()].copy_from_slice(slice);
        self.n += slice.len();
        Ok(())
    }

    #[inline(always)]
    fn context(&self) -> &crate::ctx::Ctx {
        &self.ctx
    }

    #[inline(always)]
    fn context_mut(&mut self) -> &mut crate::ctx::Ctx {
        &mut self.ctx
    }
}

/// A writer which only counts.
pub struct Counter {
    pub ctx: crate::ctx::Ctx,
    pub count: usize,
}

impl Counter {
    pub fn new(e: speedy::Endianness) -> Self {
        Counter { ctx: crate::ctx::Ctx(e), count: 0 }
    }
}

impl speedy::Writer<crate::ctx::Ctx> for Counter {
    #[inline(always)]
    fn write_bytes(&mut self, slice: &[u8]) -> Result<(), crate::ctx::E> {
        self.count += slice.len();
        Ok(())
    }

    #[inline(always)]
    fn context(&self) -> &crate::ctx::Ctx {
        &self.ctx
    }

    #[inline(always)]
    fn context_mut(&mut self) -> &mut crate::ctx::Ctx {
        &mut self.ctx
    }
}
