//! Replacements for standard-library functions which the verifier cannot cope with. The standard library is trusted
//! to behave as documented; the replacements implement that documentation.

/// `core::str::from_utf8`, written plainly (the original works on machine words). Which byte is reported as invalid
/// does not matter to the code under verification.
#[cfg(kani)]
pub fn from_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    if valid(v) {
        Ok(unsafe { core::str::from_utf8_unchecked(v) })
    } else {
        Err(unsafe { core::mem::zeroed() })
    }
}

/// The well-formed byte sequences of table 3-7 of the Unicode standard.
pub fn valid(v: &[u8]) -> bool {
    let mut ok = true;
    // The number of continuation bytes which have to follow, and the range in which the next one has to be.
    let mut left = 0u8;
    let mut low = 0x80u8;
    let mut high = 0xBFu8;
    let mut i = 0;
    while i < v.len() {
        let b = v[i];
        if left > 0 {
            ok &= b >= low && b <= high;
            left -= 1;
            low = 0x80;
            high = 0xBF;
        } else {
            ok &= b < 0x80 || (b >= 0xC2 && b < 0xF5);
            left = if b < 0xC2 { 0 } else if b < 0xE0 { 1 } else if b < 0xF0 { 2 } else { 3 };
            low = if b == 0xE0 { 0xA0 } else if b == 0xF0 { 0x90 } else { 0x80 };
            high = if b == 0xED { 0x9F } else if b == 0xF4 { 0x8F } else { 0xBF };
        }
        i += 1;
    }
    ok && left == 0
}

/// The kind of the last I/O error which a harness created; `std::io::Error` is a tagged pointer.
/// (Kani merges statics with constants of the same initial bytes, even if they are mutable; hence the odd number.)
static mut LAST_KIND: (u64, std::io::ErrorKind) = (0x5EED_1234_5678_9ABC, std::io::ErrorKind::Other);

pub fn io_error(kind: std::io::ErrorKind) -> std::io::Error {
    unsafe {
        LAST_KIND.1 = kind;
    }
    std::io::Error::from(kind)
}

#[cfg(kani)]
pub fn io_error_kind(_: &std::io::Error) -> std::io::ErrorKind {
    unsafe { LAST_KIND.1 }
}
