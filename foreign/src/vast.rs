//! Sizes beyond those that memory really has: inputs and results of gigabytes lie in windows that show the same few megabytes over
//! and over (their content is periodic, so the result is too), with pages of their own at chosen places; blocks of such sizes are
//! refused or given from such a window; and lengths up to the largest number.

use crate::embedded::{bad, expect, Expect, Grant, GRANT};
use crate::model;
use crate::rng::Rng;
use alloc::format;
use alloc::string::String;
use alloc::vec;
use alloc::vec::Vec;
use base32_simd::{Base32, BASE32, BASE32HEX, BASE32HEX_NO_PAD, BASE32_NO_PAD};
use base64_simd::{AsOut, Base64, STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD};
use core::hint::black_box;
use core::mem::MaybeUninit;
use hex_simd::AsciiCase;

/// Period of both windows, and of what is encoded.
pub const PERIOD: usize = 15 << 20;
const PAYLOAD: usize = 15 << 16;
const PAGE: usize = 4096;
const MOST: usize = isize::MAX as usize;
/// more than this is a vast block
pub const VAST: usize = 32 << 20;

#[cfg(sim_embedded)]
mod windows {
    use super::*;
    extern "C" {
        fn host_window(which: usize, bytes: usize, write: usize) -> usize;
        fn host_flat(which: usize) -> usize;
        fn host_page(at: usize, content: *const u8);
        fn host_read_only(at: usize);
    }
    pub const CONTENT: bool = true;
    pub const ROOM: u64 = if SLOW { (if usize::BITS == 64 { 5 } else { 2 }) << 30 } else if usize::BITS == 64 { 9 << 30 } else { 2700 << 20 };
    pub fn flat(k: usize) -> &'static mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(host_flat(k) as *mut u8, PERIOD) }
    }
    /// `access` 0: none, 1: read, 2: write
    pub fn window(k: usize, bytes: usize, access: usize) -> *mut u8 {
        unsafe { host_window(k, bytes, access) as *mut u8 }
    }
    pub fn page(at: *mut u8, content: &[u8; PAGE], read_only: bool) {
        unsafe {
            host_page(at as usize, content.as_ptr());
            if read_only {
                host_read_only(at as usize)
            }
        }
    }
}
#[cfg(target_arch = "wasm32")]
mod windows {
    use super::*;
    /// the memory is what it is, and zero
    pub const CONTENT: bool = false;
    pub const ROOM: u64 = 2047 << 20;
    pub fn flat(_k: usize) -> &'static mut [u8] {
        &mut []
    }
    pub fn window(_k: usize, _bytes: usize, _access: usize) -> *mut u8 {
        (crate::embedded::HEAP_TO + 65536) as *mut u8
    }
    pub fn page(_at: *mut u8, _content: &[u8; PAGE], _read_only: bool) {}
}
use windows::{CONTENT, ROOM};

/// its vectors are not the host's
const SLOW: bool = cfg!(any(target_arch = "aarch64", target_arch = "arm"));

macro_rules! ops {
    ($($id:ident = $name:literal;)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum Op { $($id),* }
        const OPS: &[(Op, &str)] = &[$((Op::$id, $name)),*];
    };
}
ops! {
    B64Len = "b64.encoded_length";
    B32Len = "b32.encoded_length";
    HexLen = "hex.encoded_length";
    B64Est = "b64.estimated_decoded_length";
    B32Est = "b32.estimated_decoded_length";
    HexDecLen = "hex.decoded_length";
    B64DecLen = "b64.decoded_length";
    B32DecLen = "b32.decoded_length";
    B64Enc = "b64.encode";
    B32Enc = "b32.encode";
    HexEnc = "hex.encode";
    B64Dec = "b64.decode";
    B32Dec = "b32.decode";
    HexDec = "hex.decode";
    Forg = "b64.forgiving";
    B64Check = "b64.check";
    B32Check = "b32.check";
    HexCheck = "hex.check";
    Ascii = "uni.is_ascii";
    Utf32 = "uni.is_utf32le";
    Swap16 = "uni.swap16";
    Swap32 = "uni.swap32";
    B64ToString = "b64.encode_to_string";
    B32ToString = "b32.encode_to_string";
    HexToString = "hex.encode_to_string";
    B64AppE = "b64.encode_append";
    B32AppE = "b32.encode_append";
    HexAppE = "hex.encode_append";
    B64ToVec = "b64.decode_to_vec";
    B32ToVec = "b32.decode_to_vec";
    HexToVec = "hex.decode_to_vec";
    ForgVec = "b64.forgiving_to_vec";
    B64AppD = "b64.decode_append";
    B32AppD = "b32.decode_append";
    HexAppD = "hex.decode_append";
}

/// What becomes of the block an operation asks for.
const REFUSE: u8 = 0;
const GIVE: u8 = 1;

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub variant: u8,
    /// length of the source (or the number asked about)
    pub n: usize,
    /// of the destination, relative to the length that suffices
    pub slack: i32,
    /// 1: the buffers end at an unmapped page, 0: they start at one; 2: the block is given
    pub place: u8,
    /// offset of the buffer in its first page
    pub shift: u16,
    /// a character that is wrong, and where
    pub wrong: Option<(usize, u8)>,
}

impl Step {
    pub fn name(&self) -> &'static str {
        OPS[self.op as usize].1
    }
    pub fn text(&self) -> String {
        let (at, c) = self.wrong.unwrap_or((usize::MAX, 0));
        format!("{},{},{},{},{},{},{},{};", OPS[self.op as usize].1, self.variant, self.n, self.slack, self.place, self.shift, at, c)
    }
    fn parse(s: &str) -> Option<Step> {
        let f: Vec<&str> = s.split(',').collect();
        let at: usize = f.get(6)?.parse().ok()?;
        if at != usize::MAX && at.checked_add(5)? > f[2].parse().ok()? {
            return None;
        }
        Some(Step {
            op: OPS.iter().find(|o| o.1 == f[0])?.0,
            variant: f[1].parse().ok()?,
            n: f[2].parse().ok()?,
            slack: f[3].parse().ok()?,
            place: f[4].parse().ok()?,
            shift: f[5].parse().ok()?,
            wrong: if at == usize::MAX { None } else { Some((at, f.get(7)?.parse().ok()?)) },
        })
    }
}

pub fn text(steps: &[Step]) -> String {
    let mut s = String::from("vast|");
    steps.iter().for_each(|x| s.push_str(&x.text()));
    s
}
pub fn parse(s: &str) -> Option<Vec<Step>> {
    s.strip_prefix("vast|")?.split(';').filter(|x| !x.is_empty()).map(Step::parse).collect()
}

fn b64(v: u8) -> &'static Base64 {
    [&STANDARD, &URL_SAFE, &STANDARD_NO_PAD, &URL_SAFE_NO_PAD][v as usize & 3]
}
fn b32(v: u8) -> &'static Base32 {
    [&BASE32, &BASE32HEX, &BASE32_NO_PAD, &BASE32HEX_NO_PAD][v as usize & 3]
}
fn case(v: u8) -> AsciiCase {
    if v & 1 == 0 {
        AsciiCase::Lower
    } else {
        AsciiCase::Upper
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Codec {
    B64,
    B32,
    Hex,
    Plain,
}

impl Op {
    fn codec(self) -> Codec {
        match OPS[self as usize].1.as_bytes()[1] {
            b'6' => Codec::B64,
            b'3' => Codec::B32,
            b'e' => Codec::Hex,
            _ => Codec::Plain,
        }
    }
    fn arithmetic(self) -> bool {
        (self as usize) <= Op::HexDecLen as usize
    }
    fn encodes(self) -> bool {
        use Op::*;
        matches!(self, B64Enc | B32Enc | HexEnc | B64ToString | B32ToString | HexToString | B64AppE | B32AppE | HexAppE)
    }
    fn allocates(self) -> bool {
        self as usize >= Op::B64ToString as usize
    }
    fn fills(self) -> bool {
        use Op::*;
        matches!(self, B64Enc | B32Enc | HexEnc | B64Dec | B32Dec | HexDec | Forg | Swap16 | Swap32)
    }
}

/// Exact lengths, by groups.
fn encoded(c: Codec, v: u8, n: u64) -> u64 {
    let pad = v & 2 == 0;
    match c {
        Codec::B64 => n / 3 * 4 + [0, [2, 4][pad as usize], [3, 4][pad as usize]][(n % 3) as usize],
        Codec::B32 => n / 5 * 8 + if pad { [0, 8, 8, 8, 8] } else { [0, 2, 4, 5, 7] }[(n % 5) as usize],
        _ => n * 2,
    }
}
/// of the text of `encoded` length `n`; None if no text has that length
fn decoded(c: Codec, v: u8, n: u64) -> Option<u64> {
    let r = match c {
        Codec::B64 => [Some(0), None, Some(1), Some(2)][(n % 4) as usize].map(|x| n / 4 * 3 + x),
        Codec::B32 => [Some(0), None, Some(1), None, Some(2), Some(3), None, Some(4)][(n % 8) as usize].map(|x| n / 8 * 5 + x),
        _ => [Some(n / 2), None][(n % 2) as usize],
    };
    let whole = match c {
        Codec::B64 => n % 4 == 0,
        Codec::B32 => n % 8 == 0,
        _ => true,
    };
    r.filter(|_| whole || v & 2 != 0)
}

// ---- generation ----------------------------------------------------------------------------------------------------------------

/// A number near something that matters.
fn number(r: &mut Rng) -> usize {
    let edges = [
        MOST,
        MOST / 2,
        MOST / 4 * 3,
        MOST / 8 * 5,
        usize::MAX,
        usize::MAX / 8 * 5,
        usize::MAX / 4 * 3,
        usize::MAX / 5,
        usize::MAX / 8,
        usize::MAX / 3,
        usize::MAX / 4,
        u32::MAX as usize,
        u32::MAX as usize / 2,
        u16::MAX as usize,
    ];
    match r.us(4) {
        0 => r.next() as usize >> r.us(usize::BITS as usize),
        1 => (1usize << r.us(usize::BITS as usize)).wrapping_add(r.us(24)).wrapping_sub(12),
        _ => edges[r.us(edges.len())].wrapping_add(r.us(24)).wrapping_sub(12),
    }
}

/// A source length for which it or its result is near a power of two, or near what can be at all.
fn length(r: &mut Rng, op: Op, real: bool) -> usize {
    let wide = usize::BITS == 64;
    let t: u64 = if real {
        if wide {
            [1 << 31, 1 << 32, 1 << 32, 1 << 32, 1 << 32, (1 << 32) + (1 << 31)][r.us(6)]
        } else {
            [1 << 30, 1 << 30, 3 << 29, 1 << 29][r.us(4)]
        }
    } else if wide {
        [1 << 31, 1 << 32, 3 << 31, 1 << 33][r.us(4)]
    } else {
        [1 << 31, 1 << 31, 1 << 31, 1 << 30, 1 << 29, 3 << 29][r.us(6)]
    };
    let t = match r.us(4) {
        0 => t + r.us(1 << 20) as u64,
        1 => t - r.us(1 << 20) as u64,
        2 => t + r.us(120) as u64,
        _ => t + r.us(80) as u64 - 40,
    };
    // as the length of the result or of the source
    let n = if r.one_in(if real { 3 } else { 2 }) {
        match (op.codec(), op.encodes()) {
            (Codec::B64, true) => t / 4 * 3 + r.us(3) as u64,
            (Codec::B32, true) => t / 8 * 5 + r.us(5) as u64,
            (Codec::Hex, true) => t / 2,
            (Codec::B64, false) => t / 3 * 4,
            (Codec::B32, false) => t / 5 * 8,
            (Codec::Hex, false) => t * 2,
            _ => t,
        }
    } else {
        t
    };
    let n = n.min(MOST as u64);
    if !op.encodes() {
        // a length that a text can have
        let down = match op.codec() {
            Codec::B64 => n / 4 * 4,
            Codec::B32 => n / 8 * 8,
            Codec::Hex => n / 2 * 2,
            _ => n,
        };
        return down as usize;
    }
    n as usize
}

pub fn scenario(seed: u64, i: u32) -> Vec<Step> {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let real = CONTENT && i % 8 == 3;
    if !real && r.one_in(2) {
        let mut v = vec![];
        for _ in 0..r.range(1, 40) {
            let op = OPS[r.us(Op::HexDecLen as usize + 1)].0;
            let mut n = number(r);
            if matches!(op, Op::B64Est | Op::B32Est) {
                n &= MOST;
            }
            v.push(Step { op, variant: r.next() as u8 & 3, n, slack: 0, place: 0, shift: 0, wrong: None });
        }
        return v;
    }
    let group = [0, 0, 0, 0, 1, 1, 1, 2][r.us(8)];
    let mut op;
    loop {
        op = OPS[Op::B64DecLen as usize + r.us(OPS.len() - Op::B64DecLen as usize)].0;
        // those which only look, fill, or allocate
        let kind = if op.allocates() { 2 } else { op.fills() as usize };
        if real && (kind != group || matches!(op, Op::B64DecLen | Op::B32DecLen)) {
            continue;
        }
        if real || op.allocates() || op.fills() || matches!(op, Op::B64DecLen | Op::B32DecLen) {
            break;
        }
    }
    let mut st = Step { op, variant: r.next() as u8 & 3, n: 0, slack: 0, place: r.us(2) as u8, shift: r.us(PAGE) as u16, wrong: None };
    loop {
        st.n = length(r, op, real);
        let (n, m) = st.sizes();
        let total = n + if op.allocates() && !real { 0 } else { m };
        if total + (8 << 20) <= ROOM && m <= MOST as u64 || !real && op.allocates() && n + (8 << 20) <= ROOM {
            break;
        }
        // a shorter one
        if r.one_in(3) {
            st.n = 1 << 29;
            break;
        }
    }
    if matches!(op, Op::Swap32 | Op::Utf32) {
        st.shift &= !3;
        st.n &= !3;
    } else if op == Op::Swap16 {
        st.shift &= !1;
        st.n &= !1;
    }
    if op.fills() {
        st.slack = if !real { -(r.range(1, 40) as i32) } else { [0, 0, 0, 1, 17][r.us(5)] };
        if matches!(op, Op::Swap16 | Op::Swap32) {
            st.slack = 0;
        }
    }
    if op.allocates() && real {
        st.place |= 2;
    }
    let looks = !op.fills() && !op.allocates();
    if real && !op.encodes() && r.us(6) < if looks { 5 } else { 2 } && !matches!(op, Op::Swap16 | Op::Swap32 | Op::B64DecLen | Op::B32DecLen) {
        let at = match r.us(4) {
            0 => r.us(70),
            1 => (1usize << 31).wrapping_add(r.us(100)),
            2 if usize::BITS == 64 => (1u64 << 32) as usize + r.us(100),
            _ => st.n - 70 + r.us(64),
        };
        st.wrong = Some((at.min(st.n - 5), [0x80, 0xff, b'!', b'@'][r.us(4)]));
    }
    if matches!(op, Op::Swap16 | Op::Swap32) && !real {
        st.op = Op::B64DecLen;
    }
    vec![st]
}

// ---- execution -----------------------------------------------------------------------------------------------------------------

impl Step {
    /// lengths of source and result
    fn sizes(&self) -> (u64, u64) {
        let n = self.n as u64;
        let c = self.op.codec();
        if self.op.encodes() {
            return (n, encoded(c, self.variant, n));
        }
        match (c, self.op) {
            (_, Op::Forg) => (n, n),
            (Codec::Plain, Op::Ascii | Op::Utf32) => (n, 0),
            (Codec::Plain, _) => (n, n),
            (_, Op::B64Check | Op::B32Check | Op::HexCheck | Op::B64DecLen | Op::B32DecLen) => (n, 0),
            _ => (n, decoded(c, self.variant, n).unwrap_or(0)),
        }
    }

    /// One period of the source, and of the result.
    fn periods(&self) -> (Vec<u8>, Vec<u8>) {
        let mut r = Rng::new(self.n as u64 ^ 77);
        let mut p: Vec<u8> = (0..PAYLOAD / 8).flat_map(|_| r.next().to_le_bytes()).collect();
        let v = self.variant;
        match self.op {
            Op::Ascii => p.iter_mut().for_each(|b| *b &= 0x7f),
            Op::Utf32 => p.chunks_exact_mut(4).for_each(|c| {
                c[3] = 0;
                c[2] &= 0x0f;
                if c[2] == 0 {
                    c[1] &= 0x7f;
                }
            }),
            _ => {}
        }
        let e = match self.op.codec() {
            Codec::B64 => model::b64_encode(if matches!(self.op, Op::Forg | Op::ForgVec) { 0 } else { v }, &p),
            Codec::B32 => model::b32_encode(v, &p),
            Codec::Hex => model::hex_encode(v & 1 == 1, &p),
            Codec::Plain => {
                let mut q = p.clone();
                match self.op {
                    Op::Swap16 => q.chunks_exact_mut(2).for_each(|c| c.reverse()),
                    _ => q.chunks_exact_mut(4).for_each(|c| c.reverse()),
                }
                return (p, q);
            }
        };
        if self.op.encodes() {
            (p, e)
        } else {
            (e, p)
        }
    }
}

/// A buffer in window `k`.
struct Area {
    k: usize,
    base: *mut u8,
    p: *mut u8,
    bytes: usize,
    len: usize,
    own: Vec<usize>,
}

const MARK: u8 = 0xb7;

impl Area {
    /// `content`: one period of what is to lie there; none: marks
    fn new(k: usize, len: usize, place: u8, shift: usize, content: Option<&[u8]>, access: usize) -> Area {
        let shift = if place & 1 == 1 { 0 } else { shift };
        let bytes = (len + shift + PAGE - 1) & !(PAGE - 1);
        let off = if place & 1 == 1 { bytes - len } else { shift };
        let base = windows::window(k, bytes, access);
        let mut a = Area { k, base, p: base.wrapping_add(off), bytes, len, own: vec![] };
        if !CONTENT || access == 0 || access == 1 && content.is_none() {
            return a;
        }
        let flat = windows::flat(k);
        match content {
            Some(c) => {
                // the byte of the window at offset w is that of the buffer at w - off
                let mut j = (c.len() - off % c.len()) % c.len();
                for b in flat.iter_mut() {
                    *b = c[j];
                    j += 1;
                    if j == c.len() {
                        j = 0;
                    }
                }
            }
            None => flat.fill(MARK),
        }
        // pages which lie in no other place
        let mut at = vec![0, bytes - PAGE, bytes.saturating_sub(2 * PAGE)];
        for t in [1u64 << 29, 1 << 30, 1 << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33] {
            let t = t.wrapping_add(off as u64);
            if t < bytes as u64 {
                at.push(t as usize & !(PAGE - 1));
                at.push((t as usize - 1) & !(PAGE - 1));
                at.push((t as usize + 128).min(bytes - 1) & !(PAGE - 1));
            }
        }
        at.push((len / 3 * 2 + len % 1000 * 5000) % bytes & !(PAGE - 1));
        at.sort_unstable();
        at.dedup();
        for w in at {
            let mut page = [MARK; PAGE];
            if content.is_some() {
                for (i, b) in page.iter_mut().enumerate() {
                    *b = flat[(w + i) % PERIOD];
                }
            }
            windows::page(base.wrapping_add(w), &page, access == 1);
            a.own.push(w);
        }
        a
    }
    fn slice(&self) -> &[u8] {
        unsafe { core::slice::from_raw_parts(self.p, self.len) }
    }
    fn slice_mut(&mut self) -> &mut [MaybeUninit<u8>] {
        unsafe { core::slice::from_raw_parts_mut(self.p.cast(), self.len) }
    }
    /// Whether the first `m` bytes of the buffer are a repetition of `c` with `tail` at the end, and the rest of it as before.
    fn judge(&self, m: usize, c: &[u8], tail: &[u8]) -> Result<(), String> {
        let off = self.p as usize - self.base as usize;
        let flat = windows::flat(self.k);
        let mut j = (c.len() - off % c.len()) % c.len();
        for (f, b) in flat.iter().enumerate() {
            if *b != c[j] {
                return Err(format!("wrong result: {b:02x} instead of {:02x} at {} modulo {PERIOD}", c[j], (f + PERIOD - off % PERIOD) % PERIOD));
            }
            j += 1;
            if j == c.len() {
                j = 0;
            }
        }
        for &w in &self.own {
            for i in 0..PAGE {
                let x = unsafe { self.base.add(w + i).read_volatile() };
                let want = match (w + i).checked_sub(off) {
                    Some(j) if j < m - tail.len() => c[j % c.len()],
                    Some(j) if j < m => tail[j - (m - tail.len())],
                    _ => MARK,
                };
                if x != want {
                    return Err(format!("{x:02x} instead of {want:02x} at {} of {m}", (w + i) as i64 - off as i64));
                }
            }
        }
        Ok(())
    }
}

static mut GIVEN: Option<(Area, usize)> = None;

/// The allocator asks for a vast block.
pub fn give(size: usize) -> *mut u8 {
    unsafe {
        let (place, shift) = match GRANT {
            Grant::Give(p, s) => (p, s),
            _ => return core::ptr::null_mut(),
        };
        GRANT = Grant::Refuse;
        let a = Area::new(1, size, place, shift, None, 2);
        let p = a.p;
        GIVEN = Some((a, size));
        p
    }
}
/// Whether the block was a vast one; its layout is checked.
pub fn take_back(p: *mut u8, size: usize, align: usize) -> bool {
    unsafe {
        match &*(&raw const GIVEN) {
            Some((a, n)) if a.p == p => {
                if *n != size || align != 1 {
                    bad(format!("the block of {n} bytes was released as one of {size}"));
                }
                (*(&raw mut GIVEN)).take();
                true
            }
            _ => false,
        }
    }
}

fn must(b: bool, what: &str) -> Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(String::from(what))
    }
}

fn arithmetic(st: &Step) -> Result<u64, String> {
    let (n, v) = (black_box(st.n), st.variant);
    let c = st.op.codec();
    let exact = || encoded(c, v, n as u64);
    let max = n > usize::MAX / 2;
    let got = match st.op {
        Op::B64Len | Op::B32Len | Op::HexLen => {
            if max {
                expect(Expect::Panic);
            }
            let x = match st.op {
                Op::B64Len => b64(v).encoded_length(n),
                Op::B32Len => b32(v).encoded_length(n),
                _ => hex_simd::encoded_length(n),
            };
            if max {
                return Err(format!("encoded_length({n}) is {x}, must panic"));
            }
            if x as u64 != exact() {
                return Err(format!("encoded_length({n}) is {x}, must be {}", exact()));
            }
            x
        }
        Op::B64Est | Op::B32Est => {
            let (x, bound) = match st.op {
                Op::B64Est => (b64(v).estimated_decoded_length(n), n / 4 * 3 + n % 4),
                _ => (b32(v).estimated_decoded_length(n), n / 8 * 5 + n % 8),
            };
            // what the longest text of that length decodes to
            let least = match n % if c == Codec::B64 { 4 } else { 8 } {
                0 => bound,
                k => bound - k + if c == Codec::B64 { k * 3 / 4 } else { k * 5 / 8 },
            };
            if x < least || x > n + 8 {
                return Err(format!("estimated_decoded_length({n}) is {x}, must be at least {least}"));
            }
            // any bound will do
            0
        }
        _ => {
            let x = hex_simd::decoded_length(n).ok();
            if x != (n % 2 == 0).then_some(n / 2) {
                return Err(format!("decoded_length({n}) is {x:?}"));
            }
            x.unwrap_or(1)
        }
    };
    Ok(got as u64)
}

pub fn run(st: &Step) -> Result<u64, String> {
    if st.op.arithmetic() {
        return arithmetic(st);
    }
    let v = st.variant;
    let (_, m) = st.sizes();
    let real = st.place & 2 != 0 || st.op.fills() && st.slack >= 0 || !st.op.fills() && !st.op.allocates();
    let touched = CONTENT && (real || !st.op.encodes());
    unsafe { crate::embedded::COUNTS[2] += (real && touched && !matches!(st.op, Op::B64DecLen | Op::B32DecLen)) as u32 };
    let (sp, dp) = if touched { st.periods() } else { (vec![0; 16], vec![]) };
    let mut src = Area::new(0, st.n, st.place, st.shift as usize, touched.then_some(&sp[..]), 1 + (st.wrong.is_some() as usize));
    if let (Some((at, c)), true) = (st.wrong, CONTENT) {
        // in a page of its own
        let w = src.p as usize - src.base as usize + at;
        let w0 = w & !(PAGE - 1);
        if !src.own.contains(&w0) {
            let mut page = [0; PAGE];
            for (i, b) in page.iter_mut().enumerate() {
                *b = windows::flat(0)[(w0 + i) % PERIOD];
            }
            windows::page(src.base.wrapping_add(w0), &page, false);
            src.own.push(w0);
        }
        unsafe { *src.base.add(w) = c };
    }
    // the last group of a source that is not whole
    let rest = match st.op.codec() {
        Codec::B64 if st.op.encodes() => st.n % 3,
        Codec::B32 if st.op.encodes() => st.n % 5,
        _ => 0,
    };
    let tail = if rest == 0 || !touched {
        vec![]
    } else {
        let last: Vec<u8> = (st.n - rest..st.n).map(|i| sp[i % sp.len()]).collect();
        match st.op.codec() {
            Codec::B64 => model::b64_encode(v, &last),
            _ => model::b32_encode(v, &last),
        }
    };
    let s = src.slice();
    let valid_with = |wrong: Option<(usize, u8)>| match (st.op, wrong) {
        (_, None) => true,
        (Op::Utf32, Some((at, c))) => {
            let mut u = [0; 4];
            for (i, b) in u.iter_mut().enumerate() {
                *b = sp[((at & !3) + i) % sp.len()];
            }
            u[at & 3] = c;
            char::from_u32(u32::from_le_bytes(u)).is_some()
        }
        (Op::Ascii, Some((_, c))) => c < 128,
        _ => false,
    };
    let valid = valid_with(st.wrong);
    let look = |valid: bool| match st.op {
        Op::B64Check => must(b64(v).check(s).is_ok() == valid, "check is wrong"),
        Op::B32Check => must(b32(v).check(s).is_ok() == valid, "check is wrong"),
        Op::HexCheck => must(hex_simd::check(s).is_ok() == valid, "check is wrong"),
        Op::Ascii => must(unicode_simd::is_ascii(s) == valid, "is_ascii is wrong"),
        _ => {
            let u = unsafe { core::slice::from_raw_parts(s.as_ptr().cast::<u32>(), s.len() / 4) };
            must(src.p as usize % 4 == 0, "harness: not aligned")?;
            must(unicode_simd::is_utf32le(u) == valid, "is_utf32le is wrong")
        }
    };
    let grant = if st.place & 2 != 0 { GIVE } else { REFUSE };
    if st.op.allocates() {
        unsafe { GRANT = if grant == GIVE { Grant::Give(st.place & 1, st.shift as usize) } else { Grant::Refuse } };
        if grant == REFUSE && (st.op.encodes() || valid && CONTENT && !matches!(st.op, Op::B64ToVec | Op::B32ToVec | Op::HexToVec | Op::ForgVec | Op::B64AppD | Op::B32AppD | Op::HexAppD)) {
            expect(Expect::Refusal);
        } else if grant == REFUSE {
            // an implementation may look at the text first
            expect(Expect::MayRefuse);
        }
    }
    match st.op {
        Op::B64DecLen | Op::B32DecLen => {
            let want = decoded(st.op.codec(), v, st.n as u64);
            let got = match st.op {
                Op::B64DecLen => b64(v).decoded_length(s).ok(),
                _ => b32(v).decoded_length(s).ok(),
            };
            if !(got.map(|x| x as u64) == want || !CONTENT && got.is_none()) {
                return Err(format!("decoded_length of {} characters is {got:?}, must be {want:?}", st.n));
            }
            return Ok(3);
        }
        Op::B64Check | Op::B32Check | Op::HexCheck | Op::Ascii | Op::Utf32 => {
            look(valid)?;
            if let (Some((first, c)), true) = (st.wrong, CONTENT) {
                // the same character in other pages
                let off = src.p as usize - src.base as usize;
                let set = |at: usize, c: u8| unsafe { src.base.add(off + at).write_volatile(c) };
                let get = |at: usize| unsafe { src.base.add(off + at).read_volatile() };
                set(first, sp[first % sp.len()]);
                let mut r = Rng::new(st.n as u64 ^ first as u64);
                for _ in 0..if SLOW { 1 } else { 5 } {
                    let at = (src.own[r.us(src.own.len())] + r.us(PAGE)).saturating_sub(off).min(st.n - 5);
                    // the page may be shared with other places
                    if !src.own.contains(&((off + at) & !(PAGE - 1))) {
                        continue;
                    }
                    let was = get(at);
                    set(at, c);
                    let ok = valid_with(Some((at, c)));
                    if let Err(e) = look(ok) {
                        return Err(format!("{e} with {c:02x} at {at}"));
                    }
                    set(at, was);
                }
            }
        }
        _ if st.op.fills() => {
            let n = (m as i64 + st.slack as i64) as usize;
            let mut dst = Area::new(1, n, st.place, st.shift as usize, None, if real { 2 } else { 0 });
            let d = dst.slice_mut();
            let got = match st.op {
                Op::B64Enc => b64(v).encode(s, d.as_out()).ok().map(|x| x.len()),
                Op::B32Enc => b32(v).encode(s, d.as_out()).ok().map(|x| x.len()),
                Op::HexEnc => hex_simd::encode(s, d.as_out(), case(v)).ok().map(|x| x.len()),
                Op::B64Dec => b64(v).decode(s, d.as_out()).ok().map(|x| x.len()),
                Op::B32Dec => b32(v).decode(s, d.as_out()).ok().map(|x| x.len()),
                Op::HexDec => hex_simd::decode(s, d.as_out()).ok().map(|x| x.len()),
                Op::Forg => base64_simd::forgiving_decode(s, d.as_out()).ok().map(|x| x.len()),
                Op::Swap16 => unsafe {
                    let a = core::slice::from_raw_parts(s.as_ptr().cast::<u16>(), s.len() / 2);
                    let b = core::slice::from_raw_parts_mut(d.as_mut_ptr().cast::<MaybeUninit<u16>>(), d.len() / 2);
                    Some(unicode_simd::utf16_swap_endianness(a, b.as_out()).len() * 2)
                },
                _ => unsafe {
                    let a = core::slice::from_raw_parts(s.as_ptr().cast::<u32>(), s.len() / 4);
                    let b = core::slice::from_raw_parts_mut(d.as_mut_ptr().cast::<MaybeUninit<u32>>(), d.len() / 4);
                    Some(unicode_simd::utf32_swap_endianness(a, b.as_out()).len() * 4)
                },
            };
            let full = if st.op == Op::Forg { decoded(Codec::B64, 0, st.n as u64).unwrap_or(0) } else { m };
            let want = (valid && st.slack >= 0).then_some(full as usize);
            if got != want {
                return Err(format!("the result has {got:?} bytes, must have {want:?}"));
            }
            if let (Some(m), true) = (got, CONTENT) {
                dst.judge(m, &dp, &tail)?;
            }
        }
        _ => {
            let vec = |b: Vec<u8>| (b.as_ptr() as usize, b.len(), b);
            let mut target = Vec::with_capacity(v as usize * 3);
            target.extend_from_slice(&b"before"[..v as usize]);
            let ok = match st.op {
                Op::B64ToString => Some(b64(v).encode_to_string(s).into_bytes()),
                Op::B32ToString => Some(b32(v).encode_to_string(s).into_bytes()),
                Op::HexToString => Some(hex_simd::encode_to_string(s, case(v)).into_bytes()),
                Op::B64ToVec => b64(v).decode_to_vec(s).ok(),
                Op::B32ToVec => b32(v).decode_to_vec(s).ok(),
                Op::HexToVec => hex_simd::decode_to_vec(s).ok(),
                Op::ForgVec => base64_simd::forgiving_decode_to_vec(s).ok(),
                Op::B64AppE => {
                    b64(v).encode_append(s, &mut target);
                    None
                }
                Op::B32AppE => {
                    b32(v).encode_append(s, &mut target);
                    None
                }
                Op::HexAppE => {
                    hex_simd::encode_append(s, &mut target, case(v));
                    None
                }
                Op::B64AppD => b64(v).decode_append(s, &mut target).ok().map(|_| vec![]),
                Op::B32AppD => b32(v).decode_append(s, &mut target).ok().map(|_| vec![]),
                _ => hex_simd::decode_append(s, &mut target).ok().map(|_| vec![]),
            };
            if grant == REFUSE && (ok.is_some() || st.op.encodes()) {
                return Err(String::from("the call returned though the block for its result was refused"));
            }
            if grant == REFUSE {
                if CONTENT && valid {
                    return Err(String::from("a valid text was rejected"));
                }
                expect(Expect::Nothing);
                return Ok(11);
            }
            let append = matches!(st.op, Op::B64AppE | Op::B32AppE | Op::HexAppE | Op::B64AppD | Op::B32AppD | Op::HexAppD);
            let succeeded = ok.is_some() || append && st.op.encodes();
            if succeeded != valid {
                return Err(String::from(if valid { "a valid text was rejected" } else { "a wrong character was accepted" }));
            }
            if append {
                must(target.get(..v as usize) == Some(&b"before"[..v as usize]), "what was there before has changed")?;
            }
            if !valid {
                must(!append || target.len() == v as usize, "the target changed though the append failed")?;
                return Ok(13);
            }
            let (at, len, held) = if append { vec(target) } else { vec(ok.unwrap_or_default()) };
            let skip = if append { v as usize } else { 0 };
            if (len - skip) as u64 != m {
                return Err(format!("the result has {} bytes, must have {m}", len - skip));
            }
            unsafe {
                let Some((a, _)) = &mut *(&raw mut GIVEN) else {
                    return Err(String::from("harness: no block was given"));
                };
                must(a.p as usize == at, "the result lies elsewhere")?;
                // the old content comes before the result
                if skip > 0 {
                    for (i, b) in b"before"[..skip].iter().enumerate() {
                        let x = a.p.add(i);
                        must(*x == *b, "what was there before has changed")?;
                        // as the marks before a buffer
                        *x = MARK;
                    }
                }
                a.p = a.p.add(skip);
                let r = a.judge(m as usize, &dp, &tail);
                a.p = a.p.sub(skip);
                r?;
            }
            drop(held);
            must(unsafe { (*(&raw const GIVEN)).is_none() }, "the block was not released")?;
        }
    }
    if CONTENT && st.wrong.is_none() {
        let sum = |b: &[u8]| b.iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64));
        return Ok(sum(windows::flat(0)) ^ m);
    }
    Ok(m)
}
