verus! {

//@ fn src/circular_buffer.rs fn occupied
//@   returns r
//@   spec
    requires length <= capacity <= isize::MAX, position < capacity || position == 0
    ensures
        position + length <= capacity ==> r.0.start == position && r.0.end == position + length && r.1 is None,
        position + length > capacity ==> r.0.start == position && r.0.end == capacity && r.1 is Some && r.1->0.start == 0 && r.1->0.end == length - (capacity - position),
//@ end

//@ fn src/circular_buffer.rs fn empty
//@   returns r
//@   spec
    requires length <= capacity <= isize::MAX, position < capacity || position == 0
    ensures
        // The first free byte is the one behind the last occupied one, wherever that is.
        max > 0 && length < capacity ==> r.0.start < r.0.end,
        r.0.start <= r.0.end <= capacity,
        r.0.end - r.0.start <= max,
        r.0.start < r.0.end ==> r.0.start == (if position + length < capacity { position + length } else { position + length - capacity }),
        r.0.end - r.0.start <= capacity - length,
        // What is handed out doesn't overlap with what is occupied.
        r.0.start < r.0.end && position + length < capacity ==> r.0.end <= capacity,
        r.0.start < r.0.end && position + length >= capacity ==> r.0.end <= position,
        max >= capacity - length && r.1 is None ==> r.0.end - r.0.start == capacity - length,
        r.1 is Some ==> r.1->0.start == 0 && r.1->0.end <= position && r.0.end == capacity && r.1->0.end + (r.0.end - r.0.start) <= max,
//@ end

impl CircularBuffer {

//@ fn src/circular_buffer.rs impl CircularBuffer / fn with_capacity
//@   returns r
//@   spec
    requires capacity <= isize::MAX
    ensures r.wf(), r@.len() == 0, r.cap() == capacity
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn len
//@   returns r
//@   spec
    requires self.wf()
    ensures r == self@.len()
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn capacity
//@   returns r
//@   spec
    requires self.wf()
    ensures r == self.cap(), r >= self@.len()
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn reserve
//@   spec
    requires old(self).wf(), old(self)@.len() + size <= isize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@, final(self).cap() >= old(self)@.len() + size,
        old(self).cap() >= old(self)@.len() + size ==> final(self).cap() == old(self).cap()
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn reserve_impl
//@   spec
    requires old(self).wf(), old(self)@.len() + size <= isize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@, final(self).cap() >= old(self)@.len() + size,
        !is_exact && old(self).cap() >= old(self)@.len() + size ==> final(self).cap() == old(self).cap()
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn try_append_with
//@   returns r
//@   spec
    requires
        old(self).wf(),
        old(self)@.len() + size <= isize::MAX,
        forall|chunk: &mut [u8]| (*chunk)@.len() <= size ==> #[trigger] callback.requires((chunk,)),
        // What reads into the buffer doesn't claim to have read more than it was given room for.
        forall|chunk: &mut [u8], n: usize| #[trigger] callback.ensures((chunk,), Ok(n)) ==> n <= (*chunk)@.len(),
    ensures
        final(self).wf(),
        r is Err ==> final(self)@ =~= old(self)@,
        r is Ok ==> exists|chunk: &mut [u8]| {
            &&& #[trigger] callback.ensures((chunk,), r)
            &&& (*chunk)@.len() <= size && (size > 0 ==> (*chunk)@.len() > 0)
            &&& r->Ok_0 <= size
            &&& final(self)@ =~= old(self)@ + final(chunk)@.subrange(0, r->Ok_0 as int)
        },
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn as_slices
//@   returns r
//@   kinds Option
//@   spec
    requires self.wf()
    ensures joined(r.0, r.1) =~= self@
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn as_slices_of_length
//@   returns r
//@   kinds Option
//@   spec
    requires self.wf(), length <= self@.len()
    ensures joined(r.0, r.1) =~= self@.subrange(0, length as int), r.0@.len() <= length, r.1 is Some ==> r.0@.len() + r.1->0@.len() == length, r.1 is None ==> r.0@.len() == length
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn consume
//@   spec
    requires old(self).wf(), length <= old(self)@.len(), old(self).cap() > 0
    ensures final(self).wf(), final(self)@ =~= old(self)@.subrange(length as int, old(self)@.len() as int), final(self).cap() == old(self).cap()
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn consume_into
//@   spec
    requires old(self).wf(), old(buffer)@.len() <= old(self)@.len()
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(buffer)@.len() == old(buffer)@.len(),
        old(self)@ =~= final(buffer)@ + final(self)@
//@ end

//@ fn src/circular_buffer.rs impl CircularBuffer / fn consume_into_slow
//@   spec
    requires old(self).wf(), old(buffer)@.len() <= old(self)@.len()
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(buffer)@.len() == old(buffer)@.len(),
        old(self)@ =~= final(buffer)@ + final(self)@
//@ end

}

}
