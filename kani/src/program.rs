//! Pseudo-random programs of reads and peeks on the real readers, against an oracle over the input. These are executed,
//! not verified: what they find is a counterexample, what they do not find proves nothing.
#![cfg(not(kani))]

use speedy::{Context, Endianness, IsEof, Readable, Reader};
use std::cell::RefCell;
use std::io;

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Op {
    /// An integer of so many bytes.
    Read(usize),
    Peek(usize),
    ReadVarint,
    PeekVarint,
    ReadBytes(usize),
    PeekBytes(usize),
    Skip(usize),
    /// A vector of so many u16.
    ReadVec(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Result_ {
    Number(u128),
    Bytes(Vec<u8>),
    Words(Vec<u16>),
    Nothing,
    End,
    Failed,
}

pub struct Random(u64);
impl Random {
    pub fn new(seed: u64) -> Self {
        Random(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0 >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

thread_local! {
    static OPS: RefCell<Vec<Op>> = RefCell::new(Vec::new());
}

pub struct Trace(pub Vec<Result_>);

fn outcome<E: IsEof>(r: Result<Result_, E>) -> Result_ {
    match r {
        Ok(r) => r,
        Err(e) => if e.is_eof() { Result_::End } else { Result_::Failed },
    }
}

impl<'a, C: Context> Readable<'a, C> for Trace {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let ops = OPS.with(|o| o.borrow().clone());
        let mut trace = Vec::new();
        for op in ops {
            let (seen, stop) = match op {
                Op::Read(1) => (r.read_u8().map(|v| Result_::Number(v as u128)), true),
                Op::Read(2) => (r.read_u16().map(|v| Result_::Number(v as u128)), true),
                Op::Read(4) => (r.read_u32().map(|v| Result_::Number(v as u128)), true),
                Op::Read(8) => (r.read_u64().map(|v| Result_::Number(v as u128)), true),
                Op::Read(_) => (r.read_u128().map(Result_::Number), true),
                Op::Peek(1) => (r.peek_u8().map(|v| Result_::Number(v as u128)), false),
                Op::Peek(2) => (r.peek_u16().map(|v| Result_::Number(v as u128)), false),
                Op::Peek(4) => (r.peek_u32().map(|v| Result_::Number(v as u128)), false),
                Op::Peek(8) => (r.peek_u64().map(|v| Result_::Number(v as u128)), false),
                Op::Peek(_) => (r.peek_u128().map(Result_::Number), false),
                Op::ReadVarint => (r.read_u64_varint().map(|v| Result_::Number(v as u128)), true),
                Op::PeekVarint => (r.peek_u64_varint().map(|v| Result_::Number(v as u128)), false),
                Op::ReadBytes(n) => {
                    let mut bytes = vec![0; n];
                    (r.read_bytes(&mut bytes).map(|_| Result_::Bytes(bytes)), true)
                }
                Op::PeekBytes(n) => {
                    let mut bytes = vec![0; n];
                    (r.peek_bytes(&mut bytes).map(|_| Result_::Bytes(bytes)), false)
                }
                Op::Skip(n) => (r.skip_bytes(n).map(|_| Result_::Nothing), true),
                Op::ReadVec(n) => (r.read_vec::<u16>(n).map(Result_::Words), true),
            };
            let seen = outcome(seen);
            let failed = matches!(seen, Result_::End | Result_::Failed);
            trace.push(seen);
            if failed && stop {
                break;
            }
        }
        Ok(Trace(trace))
    }
}

fn number(bytes: &[u8], e: Endianness) -> u128 {
    let mut value = 0;
    for i in 0..bytes.len() {
        let b = if e == Endianness::LittleEndian { bytes[bytes.len() - 1 - i] } else { bytes[i] };
        value = value << 8 | b as u128;
    }
    value
}

fn varint(data: &[u8]) -> Option<(u128, usize)> {
    let first = *data.first()?;
    let extra = first.leading_ones() as usize;
    if data.len() <= extra {
        return None;
    }
    let mut value = if extra >= 8 { 0 } else { (first & (0x7F >> extra)) as u128 };
    value <<= 8 * extra;
    for i in 0..extra {
        value |= (data[1 + i] as u128) << (8 * i);
    }
    Some((value & u64::MAX as u128, 1 + extra))
}

/// What the program results in, how much of the input the reads have taken, and how much was looked at.
fn expected(ops: &[Op], data: &[u8], e: Endianness) -> (Vec<Result_>, usize, usize, bool) {
    let mut pos = 0;
    let mut seen = 0;
    let mut trace = Vec::new();
    for &op in ops {
        let rest = &data[pos..];
        let (n, peek) = match op {
            Op::Read(n) | Op::ReadBytes(n) | Op::Skip(n) => (n, false),
            Op::Peek(n) | Op::PeekBytes(n) => (n, true),
            Op::ReadVec(n) => (2 * n, false),
            Op::ReadVarint => (varint(rest).map(|(_, n)| n).unwrap_or(usize::MAX), false),
            Op::PeekVarint => (varint(rest).map(|(_, n)| n).unwrap_or(usize::MAX), true),
        };
        if n > rest.len() {
            trace.push(Result_::End);
            seen = data.len();
            if peek {
                continue;
            }
            return (trace, pos, seen, true);
        }
        let bytes = &rest[..n];
        trace.push(match op {
            Op::Read(_) | Op::Peek(_) => Result_::Number(number(bytes, e)),
            Op::ReadVarint | Op::PeekVarint => Result_::Number(varint(rest).unwrap().0),
            Op::ReadBytes(_) | Op::PeekBytes(_) => Result_::Bytes(bytes.to_vec()),
            Op::Skip(_) => Result_::Nothing,
            Op::ReadVec(_) => Result_::Words(bytes.chunks(2).map(|c| number(c, e) as u16).collect()),
        });
        seen = seen.max(pos + n);
        if !peek {
            pos += n;
        }
    }
    (trace, pos, seen, false)
}

/// A stream which hands out pieces of up to `most` bytes and is interrupted now and then.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    most: usize,
    random: Random,
}
impl<'a> io::Read for Pieces<'a> {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
        if self.random.below(8) == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = buffer.len().min(self.data.len() - self.pos).min(1 + self.random.below(self.most));
        buffer[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn length(random: &mut Random, large: bool) -> usize {
    match random.below(if large { 6 } else { 3 }) {
        0 => random.below(4),
        1 => random.below(20),
        2 => random.below(40),
        3 => 8185 + random.below(14),
        4 => random.below(9000),
        _ => random.below(20000),
    }
}

/// `peeks`: whether the programs peek. `message` is what a difference violates.
pub fn run(seeds: std::ops::Range<u64>, peeks: bool, message: &str) {
    for seed in seeds {
        let mut random = Random::new(seed + 1);
        let large = seed % 4 == 0;
        let total = length(&mut random, large);
        let data: Vec<u8> = (0..total).map(|_| random.next() as u8).collect();
        let e = if seed % 2 == 0 { Endianness::LittleEndian } else { Endianness::BigEndian };
        let ops: Vec<Op> = (0..1 + random.below(12))
            .map(|_| {
                let width = 1 << random.below(5);
                match random.below(if peeks { 14 } else { 8 }) {
                    0 | 1 | 2 => Op::Read(width),
                    3 => Op::ReadVarint,
                    4 | 5 => Op::ReadBytes(length(&mut random, large)),
                    6 => Op::Skip(length(&mut random, large)),
                    7 => Op::ReadVec(length(&mut random, large) / 2),
                    8 | 9 | 10 => Op::Peek(width),
                    11 => Op::PeekVarint,
                    _ => Op::PeekBytes(length(&mut random, large)),
                }
            })
            .collect();
        let (trace, pos, seen, failed) = expected(&ops, &data, e);
        OPS.with(|o| *o.borrow_mut() = ops.clone());
        let mut check = |kind: &str, actual: Vec<Result_>| {
            if actual != trace {
                panic!("{message}: {kind} of seed {seed}: {ops:?} on {total} bytes");
            }
        };
        check("borrowing", Trace::read_from_buffer_with_ctx(e, &data).unwrap().0);
        check("copying", Trace::read_from_buffer_copying_data_with_ctx(e, &data).unwrap().0);
        for most in [1, 3, 17, 5000, 100000] {
            let mut stream = Pieces { data: &data, pos: 0, most, random: Random::new(seed ^ most as u64) };
            check("a buffered stream", Trace::read_from_stream_buffered_with_ctx(e, &mut stream).unwrap().0);
            let mut stream = Pieces { data: &data, pos: 0, most, random: Random::new(seed ^ most as u64) };
            check("an unbuffered stream", Trace::read_from_stream_unbuffered_with_ctx(e, &mut stream).unwrap().0);
            if !failed {
                assert!(stream.pos <= seen && stream.pos >= pos, "{message}: an unbuffered stream takes {} bytes instead of {pos}; seed {seed}: {ops:?}", stream.pos);
            }
        }
    }
}
