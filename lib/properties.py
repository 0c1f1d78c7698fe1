"""What decides each property: the feature of the harness crate, the Verus units, and what is trusted."""

HOOKS = {
    "guard": "--cfg speedy_verification",
    "enable": "RUSTFLAGS='--cfg speedy_verification' (set by lib/kani.py for every build of the harness crate)",
    "source_commits": ["d8326c2302115c0c7a55d687f85d1592757ad299"],
}

TRUSTED = [
    "rustc, Kani 0.68 with CBMC 6.11 and its SAT solver; the standard library behaves as documented",
    "machine integers are bit-precise (not mathematical); 64-bit little-endian target",
]

KANI = "modular contract verification of the real code: Kani (CBMC) proof harnesses against the Reader/Writer contracts"

VERUS = "deductive verification with Verus of the functions extracted from the source on every run, under written contracts; Kani (CBMC) proof harnesses against the same contracts"

PROPERTIES = {
    "C01": dict(kani="c01", verus=["write", "collections", "read", "derive_write", "derive_read"], level="proof", technique=VERUS, level_note="Writing and reading of every built-in container whose functions the units list, for every value, length and nesting, by Verus, over the contracts of readers and writers; every value of every fixed-size type on the real readers and writers, and bounded lengths for containers, by Kani."),
    "C02": dict(kani="c02", verus=["write", "collections", "derive_write"], level="proof", technique=VERUS, level_note="What is written, for every value of every built-in container and length, by Verus (see the units for the types); every value of every fixed-size type, and bounded lengths for containers, by Kani."),
    "C03": dict(kani="c03", verus=["output", "write", "collections", "derive_write"], level="proof", technique=VERUS, level_note="Writing to a buffer or a vector and counting the bytes, for any value of any type which keeps the contract, and bytes_needed of every value of every built-in container and length, by Verus (see the units for the types); every value of every fixed-size type, and bounded lengths for containers, by Kani."),
    "C04": dict(kani="c04", verus=["read", "derive_read"], level="proof", technique=VERUS, level_note="Reading of the built-in types which the unit lists never panics or overflows and never reads past the end, for every input, by Verus, over the contract of readers; on the real readers by Kani: Every input of up to the stated length for each type; containers with bounded counts."),
    "C05": dict(kani="c05", verus=["read", "derive_read"], level="proof", technique=VERUS, level_note="Declared minimum against every value of the built-in types which the unit lists, by Verus; by Kani: Every value of every fixed-size type; the smallest value of each shape; bounded lengths for containers."),
    "C06": dict(kani="c06", level="proof", technique=KANI, level_note="All 2^64 values, all byte strings, both byte orders; no bound."),
    "C07": dict(kani="c07", verus=["ring"], level="proof", technique=VERUS, level_note="Every state and every operation, without bounds, by Verus; capacities of up to 4 by Kani, for counterexamples."),
    "C08": dict(kani="c08", verus=["stream"], level="proof", technique=VERUS, level_note="StreamReader's contract without bounds by Verus; every type against that contract by Kani, containers with bounded counts."),
    "C09": dict(kani="c09", verus=["stream"], level="proof", technique=VERUS, level_note="Every peek and read of every fixed-width type and the varint, all inputs; the peeking of stream readers without bounds by Verus."),
    "C10": dict(kani="c10", verus=["write", "derive_write", "derive_read"], level="proof", technique=VERUS, level_note="Every length against every length type when writing, by Verus; by Kani: All tags, scalars and prescribed lengths; overlong collections of each length type."),
    "C11": dict(kani="c11", verus=["write", "collections", "read"], level="proof", technique=VERUS, level_note="That sequences of any length are the concatenation of their elements, on either path, by Verus; the bytes behind a slice of primitives and the conversion of whole slices by Kani: Every value of the elements; 0 to 3 elements; every alignment class."),
    "C12": dict(kani="c12", level="proof", technique=KANI, level_note="Every position of the failure, for 1 to 10 elements, with elements which count their drops."),
    "C13": dict(kani="c13", verus=["derive_write", "derive_read"], level="proof", technique=VERUS, level_note="What the macros expand to for the types of verus/zoo, with fields of any type and without bounds, by Verus; by Kani: Every value of a zoo of derived types which covers the attributes and their combinations; bounded lengths for containers."),
    "C14": dict(kani="c14", level="proof", technique=KANI, level_note="Every alignment class and content, both byte orders; up to 3 elements."),
    "C15": dict(kani="c15", verus=["output"], level="proof", timeout=200, technique=VERUS, level_note="The sinks of this crate, without bounds, by Verus; by Kani: Every position of the failure and every kind of error, for each kind of value; real files are executed, not verified."),
    "C16": dict(kani="c16", level="proof", technique=KANI, level_note="Every value of every fixed-size type; timestamps of five days; small vectors of up to 2 elements; maps and sets are executed, not verified."),
}
