//! C07: the stream's internal buffer is a lossless FIFO. Every operation, from every state of buffers of the stated
//! capacities; proved for all capacities by the Verus unit `ring`.

use crate::nd;
use speedy::private::CircularBuffer;

const MOST: usize = 12;

/// What was appended and not yet consumed.
struct Model {
    d: [u8; MOST],
    n: usize,
}

/// A buffer of the given capacity in any state, with the bytes which it holds.
fn any_state(capacity: usize) -> (CircularBuffer, Model) {
    let contents: [u8; 8] = nd::any();
    let position = if capacity == 0 { 0 } else { nd::idx(capacity) };
    let length = nd::idx(capacity + 1);
    let storage: Box<[u8]> = contents[..capacity].into();
    let mut m = Model { d: [0; MOST], n: length };
    let mut i = 0;
    while i < capacity {
        if i < length {
            let at = position + i;
            m.d[i] = contents[if at < capacity { at } else { at - capacity }];
        }
        i += 1;
    }
    (CircularBuffer::verification_new(storage, position, length), m)
}

impl Model {
    fn consume(&mut self, n: usize) {
        let mut i = 0;
        while i + n < MOST {
            self.d[i] = self.d[i + n];
            i += 1;
        }
        self.n -= n;
    }

    /// Everything observable agrees.
    fn check(&self, b: &CircularBuffer) {
        assert!(b.len() == self.n, "C07: the length is what was appended minus what was consumed");
        assert!(b.capacity() >= self.n, "C07: the contents fit");
        self.check_prefix(b, self.n);
    }

    fn check_prefix(&self, b: &CircularBuffer, n: usize) {
        let (x, y) = b.as_slices_of_length(n);
        assert!(x.len() + y.map_or(0, |y| y.len()) == n, "C07: as many bytes as asked for");
        let mut i = 0;
        while i < n {
            let byte = if i < x.len() { x[i] } else { y.unwrap()[i - x.len()] };
            assert!(byte == self.d[i], "C07: the bytes which were appended, in order");
            i += 1;
        }
    }
}

fn append(b: &mut CircularBuffer, m: &mut Model, size: usize) {
    let bytes: [u8; 4] = nd::any();
    let give = nd::idx(size + 1);
    let fail: bool = nd::any();
    let before = b.capacity();
    let mut offered = 0;
    let r = b.try_append_with(size, |chunk| {
        assert!(chunk.len() <= size, "C07: no more room than asked for");
        assert!(chunk.len() > 0 || size == 0, "C07: some room, if any was asked for");
        offered = if give < chunk.len() { give } else { chunk.len() };
        let mut i = 0;
        // Even what isn't reported as written may have been scribbled over.
        while i < chunk.len() {
            chunk[i] = bytes[i];
            i += 1;
        }
        if fail {
            Err(7u8)
        } else {
            Ok(offered)
        }
    });
    match r {
        Ok(n) => {
            assert!(!fail && n == offered, "C07: reports what was written");
            let mut i = 0;
            while i < n {
                m.d[m.n + i] = bytes[i];
                i += 1;
            }
            m.n += n;
        }
        Err(e) => assert!(fail && e == 7, "C07: hands the error on"),
    }
    assert!(b.capacity() >= before && (b.capacity() == before || before < m.n + size), "C07: only grows when it has to");
    m.check(b);
}

fn consume(b: &mut CircularBuffer, m: &mut Model) {
    nd::assume(b.capacity() > 0);
    let n = nd::idx(m.n + 1);
    b.consume(n);
    m.consume(n);
    m.check(b);
}

fn consume_into(b: &mut CircularBuffer, m: &mut Model, most: usize) {
    let n = nd::idx(most + 1);
    nd::assume(n <= m.n);
    let mut out = [0u8; 8];
    b.consume_into(&mut out[..n]);
    let mut i = 0;
    while i < n {
        assert!(out[i] == m.d[i], "C07: consumes what was appended first");
        i += 1;
    }
    m.consume(n);
    m.check(b);
}

macro_rules! states {
    ($($capacity:literal $append:ident $peek:ident $consume:ident $consume_into:ident)*) => {
        harnesses! { $(
            #[bounded] [14] $append {
                let (mut b, mut m) = any_state($capacity);
                let size = nd::idx(4);
                nd::assume(size <= $capacity - m.n);
                append(&mut b, &mut m, size);
                std::mem::forget(b);
            }
            #[bounded] [14] $peek {
                let (b, m) = any_state($capacity);
                m.check(&b);
                let n = nd::idx(m.n + 1);
                m.check_prefix(&b, n);
                std::mem::forget(b);
            }
            #[bounded] [14] $consume {
                let (mut b, mut m) = any_state($capacity);
                consume(&mut b, &mut m);
                std::mem::forget(b);
            }
            #[bounded] [14] $consume_into {
                let (mut b, mut m) = any_state($capacity);
                consume_into(&mut b, &mut m, $capacity);
                std::mem::forget(b);
            }
        )* }
    };
}

states! {
    1 append_1 peek_1 consume_1 consume_into_1
    3 append_3 peek_3 consume_3 consume_into_3
    4 append_4 peek_4 consume_4 consume_into_4
}

/// Growing; position and length are the given ones.
pub mod growing {
    use super::*;
    fn state(capacity: usize, position: usize, length: usize) -> (CircularBuffer, Model) {
        let contents: [u8; 4] = nd::any();
        let mut m = Model { d: [0; MOST], n: length };
        let mut i = 0;
        while i < length {
            m.d[i] = contents[(position + i) % capacity];
            i += 1;
        }
        (CircularBuffer::verification_new(contents[..capacity].into(), position, length), m)
    }
    fn reserve(capacity: usize, position: usize, length: usize, size: usize) {
        let (mut b, m) = state(capacity, position, length);
        b.reserve(size);
        assert!(b.capacity() >= length + size, "C07: has the room which was reserved");
        m.check(&b);
        std::mem::forget(b);
    }
    fn grow(capacity: usize, position: usize, length: usize, size: usize) {
        let (mut b, mut m) = state(capacity, position, length);
        append(&mut b, &mut m, size);
        std::mem::forget(b);
    }
    harnesses! {
        #[bounded] [14] reserve_in_order { reserve(3, 0, 2, 3); }
        #[bounded] [14] reserve_wrapped { reserve(3, 2, 2, 3); }
        #[bounded] [14] reserve_wrapped_full { reserve(3, 1, 3, 1); }
        #[bounded] [14] reserve_empty { reserve(3, 0, 0, 4); }
        #[bounded] [14] append_in_order { grow(3, 0, 2, 3); }
        #[bounded] [14] append_wrapped { grow(3, 2, 2, 3); }
        #[bounded] [14] append_wrapped_full { grow(3, 1, 3, 1); }
    }
}

pub mod empty {
    use super::*;
    harnesses! {
        #[bounded] [14] starts_empty {
            let capacity = nd::idx(5);
            let b = CircularBuffer::with_capacity(capacity);
            assert!(b.capacity() == capacity, "C07: the capacity which was asked for");
            Model { d: [0; MOST], n: 0 }.check(&b);
            std::mem::forget(b);
        }
        #[bounded] [14] without_storage {
            let mut b = CircularBuffer::with_capacity(0);
            let mut m = Model { d: [0; MOST], n: 0 };
            let mut out = [0u8; 0];
            b.consume_into(&mut out);
            m.check(&b);
            append(&mut b, &mut m, 2);
            std::mem::forget(b);
        }
    }
}

pub mod histories {
    use super::*;
    harnesses! {
        #[native] [0] random {
            // Longer histories, for the search of a failing input.
            let mut seed: u64 = 0x9E37_79B9_7F4A_7C15;
            let mut next = move |n: u64| { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; (seed % n) as usize };
            for capacity in 0..9 {
                for _ in 0..40 {
                    let mut b = CircularBuffer::with_capacity(capacity);
                    let mut model = std::collections::VecDeque::new();
                    for _ in 0..200 {
                        match next(5) {
                            0 | 1 => {
                                let size = next(6);
                                let short = next(3);
                                let mut written = Vec::new();
                                let r = b.try_append_with(size, |chunk| {
                                    assert!(chunk.len() <= size && (chunk.len() > 0 || size == 0), "C07: room as asked for");
                                    if short == 2 { for c in chunk.iter_mut() { *c = 0xEE; } return Err(()); }
                                    let n = chunk.len() - if chunk.len() > 1 { short } else { 0 };
                                    for c in &mut chunk[..n] { *c = next(256) as u8; written.push(*c); }
                                    Ok(n)
                                });
                                if r.is_ok() { model.extend(written); }
                            }
                            2 => b.reserve(next(4)),
                            3 => {
                                let n = next(model.len() as u64 + 1);
                                if b.capacity() > 0 { b.consume(n); model.drain(..n); }
                            }
                            _ => {
                                let n = next(model.len() as u64 + 1);
                                let mut out = vec![0; n];
                                b.consume_into(&mut out);
                                assert!(out == model.drain(..n).collect::<Vec<u8>>(), "C07: consumes what was appended first");
                            }
                        }
                        assert!(b.len() == model.len(), "C07: the length is what was appended minus what was consumed");
                        let n = next(model.len() as u64 + 1);
                        let (x, y) = b.as_slices_of_length(n);
                        let seen: Vec<u8> = x.iter().chain(y.unwrap_or(&[])).copied().collect();
                        assert!(seen == model.iter().take(n).copied().collect::<Vec<u8>>(), "C07: the bytes which were appended, in order");
                    }
                }
            }
        }
    }
}
