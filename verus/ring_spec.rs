verus! {

//@ item src/circular_buffer.rs struct CircularBuffer

impl CircularBuffer {
    pub closed spec fn wf(&self) -> bool {
        &&& self.length <= self.buffer@.len() <= isize::MAX
        &&& self.position < self.buffer@.len() || self.position == 0
    }

    pub closed spec fn cap(&self) -> nat { self.buffer@.len() }

    /// The unread bytes, in order.
    pub closed spec fn view(&self) -> Seq<u8> {
        ring(self.buffer@, self.position as int, self.length as int)
    }
}

pub open spec fn ring(b: Seq<u8>, position: int, length: int) -> Seq<u8> {
    if position + length <= b.len() {
        b.subrange(position, position + length)
    } else {
        b.subrange(position, b.len() as int) + b.subrange(0, length - (b.len() - position))
    }
}

pub open spec fn joined(a: &[u8], b: Option<&[u8]>) -> Seq<u8> {
    match b { Some(b) => a@ + b@, None => a@ }
}

}
