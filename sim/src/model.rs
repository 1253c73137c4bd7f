//! Reference models: what every operation means, written from the specifications and without a thought
//! for speed. Nothing here is shared with the code under test.

extern crate alloc;
use alloc::vec::Vec;

pub const B64_STD: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub const B64_URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub const B32: &[u8; 32] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
pub const B32HEX: &[u8; 32] = b"0123456789ABCDEFGHIJKLMNOPQRSTUV";

/// RFC 4648 encoding with `bits` bits per character; `pad` to a multiple of `group` characters.
fn encode(alphabet: &[u8], bits: u32, group: usize, pad: bool, src: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(src.len() * 8 / bits as usize + 8);
    let mut acc: u32 = 0;
    let mut have = 0;
    for &b in src {
        acc = (acc << 8 | b as u32) & 0xffff;
        have += 8;
        while have >= bits {
            have -= bits;
            out.push(alphabet[(acc >> have) as usize & ((1 << bits) - 1)]);
        }
    }
    if have > 0 {
        out.push(alphabet[(acc << (bits - have)) as usize & ((1 << bits) - 1)]);
    }
    if pad {
        while out.len() % group != 0 {
            out.push(b'=');
        }
    }
    out
}

fn reverse(alphabet: &[u8]) -> [u8; 256] {
    let mut t = [0xff; 256];
    for (i, &c) in alphabet.iter().enumerate() {
        t[c as usize] = i as u8;
    }
    t
}

/// Characters to bytes, dropping the left-over bits. `None` if a character is not in the alphabet.
fn collect(alphabet: &[u8], bits: u32, src: &[u8]) -> Option<Vec<u8>> {
    let rev = reverse(alphabet);
    let mut out = Vec::with_capacity(src.len());
    let mut acc: u32 = 0;
    let mut have = 0;
    for &c in src {
        let v = rev[c as usize];
        if v == 0xff {
            return None;
        }
        acc = (acc << bits | v as u32) & 0xffff;
        have += bits;
        if have >= 8 {
            have -= 8;
            out.push((acc >> have) as u8);
        }
    }
    Some(out)
}

fn strip_pad(src: &[u8]) -> &[u8] {
    let mut n = src.len();
    while n > 0 && src[n - 1] == b'=' {
        n -= 1;
    }
    &src[..n]
}

/// Strict decoding: the one byte string whose encoding is `src`, if there is one.
fn decode(alphabet: &[u8], bits: u32, group: usize, pad: bool, src: &[u8]) -> Option<Vec<u8>> {
    let body = if pad { strip_pad(src) } else { src };
    let out = collect(alphabet, bits, body)?;
    (encode(alphabet, bits, group, pad, &out) == src).then_some(out)
}

fn b64_of(variant: u8) -> (&'static [u8], bool) {
    match variant & 3 {
        0 => (B64_STD, true),
        1 => (B64_URL, true),
        2 => (B64_STD, false),
        _ => (B64_URL, false),
    }
}

pub fn b64_encode(variant: u8, src: &[u8]) -> Vec<u8> {
    let (a, pad) = b64_of(variant);
    encode(a, 6, 4, pad, src)
}

pub fn b64_decode(variant: u8, src: &[u8]) -> Option<Vec<u8>> {
    let (a, pad) = b64_of(variant);
    decode(a, 6, 4, pad, src)
}

fn b32_of(variant: u8) -> (&'static [u8], bool) {
    match variant & 3 {
        0 => (B32, true),
        1 => (B32HEX, true),
        2 => (B32, false),
        _ => (B32HEX, false),
    }
}

pub fn b32_encode(variant: u8, src: &[u8]) -> Vec<u8> {
    let (a, pad) = b32_of(variant);
    encode(a, 5, 8, pad, src)
}

pub fn b32_decode(variant: u8, src: &[u8]) -> Option<Vec<u8>> {
    let (a, pad) = b32_of(variant);
    decode(a, 5, 8, pad, src)
}

pub fn is_whitespace(c: u8) -> bool {
    matches!(c, 0x09 | 0x0a | 0x0c | 0x0d | 0x20)
}

/// <https://infra.spec.whatwg.org/#forgiving-base64-decode>
pub fn forgiving(src: &[u8]) -> Option<Vec<u8>> {
    let mut data: Vec<u8> = src.iter().copied().filter(|&c| !is_whitespace(c)).collect();
    if data.len() % 4 == 0 {
        for _ in 0..2 {
            if data.last() == Some(&b'=') {
                data.pop();
            }
        }
    }
    if data.len() % 4 == 1 {
        return None;
    }
    collect(B64_STD, 6, &data)
}

pub fn hex_encode(upper: bool, src: &[u8]) -> Vec<u8> {
    let digits: &[u8; 16] = if upper { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    src.iter().flat_map(|&b| [digits[b as usize / 16], digits[b as usize % 16]]).collect()
}

fn digit(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}

pub fn hex_check(src: &[u8]) -> bool {
    src.iter().all(|&c| digit(c).is_some())
}

pub fn hex_decode(src: &[u8]) -> Option<Vec<u8>> {
    if src.len() % 2 != 0 {
        return None;
    }
    src.chunks(2).map(|p| Some(digit(p[0])? * 16 + digit(p[1])?)).collect()
}

pub fn uuid_simple(src: &[u8]) -> Option<Vec<u8>> {
    (src.len() == 32).then(|| hex_decode(src)).flatten()
}

pub fn uuid_hyphenated(src: &[u8]) -> Option<Vec<u8>> {
    if src.len() != 36 {
        return None;
    }
    let mut digits = Vec::new();
    for (i, &c) in src.iter().enumerate() {
        if matches!(i, 8 | 13 | 18 | 23) {
            if c != b'-' {
                return None;
            }
        } else {
            digits.push(c);
        }
    }
    hex_decode(&digits)
}

pub fn uuid_parse(src: &[u8]) -> Option<Vec<u8>> {
    match src.len() {
        32 => uuid_simple(src),
        36 => uuid_hyphenated(src),
        38 if src[0] == b'{' && src[37] == b'}' => uuid_hyphenated(&src[1..37]),
        45 if &src[..9] == b"urn:uuid:" => uuid_hyphenated(&src[9..]),
        _ => None,
    }
}

pub fn uuid_format(hyphens: bool, upper: bool, src: &[u8]) -> Vec<u8> {
    let digits = hex_encode(upper, &src[..16]);
    if !hyphens {
        return digits;
    }
    let mut out = Vec::new();
    for (i, d) in digits.into_iter().enumerate() {
        if matches!(i, 8 | 12 | 16 | 20) {
            out.push(b'-');
        }
        out.push(d);
    }
    out
}

pub fn is_utf32(units: &[u32]) -> bool {
    units.iter().all(|&u| char::from_u32(u).is_some())
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn rfc4648() {
        for (p, b64, b32, b32h) in [
            ("", "", "", ""),
            ("f", "Zg==", "MY======", "CO======"),
            ("fo", "Zm8=", "MZXQ====", "CPNG===="),
            ("foo", "Zm9v", "MZXW6===", "CPNMU==="),
            ("foob", "Zm9vYg==", "MZXW6YQ=", "CPNMUOG="),
            ("fooba", "Zm9vYmE=", "MZXW6YTB", "CPNMUOJ1"),
            ("foobar", "Zm9vYmFy", "MZXW6YTBOI======", "CPNMUOJ1E8======"),
        ] {
            assert_eq!(b64_encode(0, p.as_bytes()), b64.as_bytes());
            assert_eq!(b64_decode(0, b64.as_bytes()).unwrap(), p.as_bytes());
            assert_eq!(b32_encode(0, p.as_bytes()), b32.as_bytes());
            assert_eq!(b32_encode(1, p.as_bytes()), b32h.as_bytes());
            assert_eq!(b32_decode(1, b32h.as_bytes()).unwrap(), p.as_bytes());
        }
        assert!(b64_decode(0, b"Zh==").is_none());
        assert!(b64_decode(0, b"Zg=").is_none());
        assert!(b64_decode(0, b"====").is_none());
        assert_eq!(forgiving(b" Z h = =").unwrap(), b"f");
        assert_eq!(forgiving(b"Zh").unwrap(), b"f");
        assert!(forgiving(b"Z=").is_none());
    }
}
