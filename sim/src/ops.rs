//! The operations of the library: how each is called, what it must do, and how the outcome is judged.

use crate::heap;
use crate::mem::{self, Buf, Place};
use crate::model;
use crate::rng::{mix, Rng};
use crate::rt::{self, count, event, log, log_on, sh, ts, violate, Class, Ctr, Outside, TState};
use crate::scen::{Base, OpSpec};
use std::any::Any;
use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

use outref::Out;
use uuid_simd::UuidExt;

macro_rules! kinds {
    ($($name:ident = $text:literal,)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum Kind { $($name),* }
        pub const KINDS: &[Kind] = &[$(Kind::$name),*];
        pub const KIND_NAMES: &[&str] = &[$($text),*];
    };
}

kinds! {
    B64Enc = "b64.enc",
    B64EncStr = "b64.enc_str",
    B64Dec = "b64.dec",
    B64DecIn = "b64.dec_inplace",
    B64Check = "b64.check",
    B64Len = "b64.decoded_length",
    B64ToString = "b64.enc.String",
    B64ToVecE = "b64.enc.Vec",
    B64ToBoxStr = "b64.enc.BoxStr",
    B64ToBoxE = "b64.enc.Box",
    B64EncodeToString = "b64.encode_to_string",
    B64ToVecD = "b64.dec.Vec",
    B64ToBoxD = "b64.dec.Box",
    B64DecodeToVec = "b64.decode_to_vec",
    B64AppEncVec = "b64.enc_append.Vec",
    B64AppEncStr = "b64.enc_append.String",
    B64AppDecVec = "b64.dec_append.Vec",
    B64Forg = "b64.forgiving",
    B64ForgIn = "b64.forgiving_inplace",
    B64ForgVec = "b64.forgiving_to_vec",
    B64Par = "b64.par_encode",
    B32Enc = "b32.enc",
    B32EncStr = "b32.enc_str",
    B32Dec = "b32.dec",
    B32DecIn = "b32.dec_inplace",
    B32Check = "b32.check",
    B32Len = "b32.decoded_length",
    B32ToString = "b32.enc.String",
    B32ToVecE = "b32.enc.Vec",
    B32ToBoxStr = "b32.enc.BoxStr",
    B32ToBoxE = "b32.enc.Box",
    B32EncodeToString = "b32.encode_to_string",
    B32ToVecD = "b32.dec.Vec",
    B32ToBoxD = "b32.dec.Box",
    B32DecodeToVec = "b32.decode_to_vec",
    B32AppEncVec = "b32.enc_append.Vec",
    B32AppEncStr = "b32.enc_append.String",
    B32AppDecVec = "b32.dec_append.Vec",
    HexEnc = "hex.enc",
    HexEncStr = "hex.enc_str",
    HexEncRaw = "hex.enc_raw",
    HexDec = "hex.dec",
    HexDecIn = "hex.dec_inplace",
    HexDecRaw = "hex.dec_raw",
    HexDecRawIn = "hex.dec_raw_inplace",
    HexCheck = "hex.check",
    HexCheckRaw = "hex.check_raw",
    HexToString = "hex.enc.String",
    HexToVecE = "hex.enc.Vec",
    HexToBoxStr = "hex.enc.BoxStr",
    HexToBoxE = "hex.enc.Box",
    HexEncodeToString = "hex.encode_to_string",
    HexToVecD = "hex.dec.Vec",
    HexToBoxD = "hex.dec.Box",
    HexDecodeToVec = "hex.decode_to_vec",
    HexAppEncVec = "hex.enc_append.Vec",
    HexAppEncStr = "hex.enc_append.String",
    HexAppDecVec = "hex.dec_append.Vec",
    UuidParse = "uuid.parse",
    UuidParseSimple = "uuid.parse_simple",
    UuidParseHyph = "uuid.parse_hyphenated",
    UuidFmtSimple = "uuid.format_simple",
    UuidFmtHyph = "uuid.format_hyphenated",
    UuidExtParse = "uuid.ext.parse",
    UuidExtParseSimple = "uuid.ext.parse_simple",
    UuidExtParseHyph = "uuid.ext.parse_hyphenated",
    UuidExtFmt = "uuid.ext.fmt",
    UniAscii = "uni.is_ascii",
    UniFromAscii = "uni.from_ascii",
    UniUtf32 = "uni.is_utf32le",
    UniSwap16 = "uni.swap16",
    UniSwap16In = "uni.swap16_inplace",
    UniSwap32 = "uni.swap32",
    UniSwap32In = "uni.swap32_inplace",
    NatExec = "native.exec",
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Codec {
    B64,
    B32,
    Hex,
    Uuid,
    Uni,
    Nat,
}

/// What kind of input an operation takes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Takes {
    Payload,
    Text,
    Uuid16,
    Units16,
    Units32,
}

impl Kind {
    pub fn name(self) -> &'static str {
        KIND_NAMES[self as usize]
    }
    pub fn from_name(s: &str) -> Option<Kind> {
        KIND_NAMES.iter().position(|n| *n == s).map(|i| KINDS[i])
    }
    pub fn codec(self) -> Codec {
        use Kind::*;
        if self <= B64Par {
            Codec::B64
        } else if self <= B32AppDecVec {
            Codec::B32
        } else if self <= HexAppDecVec {
            Codec::Hex
        } else if self <= UuidExtFmt {
            Codec::Uuid
        } else if self <= UniSwap32In {
            Codec::Uni
        } else {
            Codec::Nat
        }
    }
    pub fn takes(self) -> Takes {
        use Kind::*;
        match self {
            B64Enc | B64EncStr | B64ToString | B64ToVecE | B64ToBoxStr | B64ToBoxE | B64EncodeToString | B64AppEncVec
            | B64AppEncStr | B64Par | B32Enc | B32EncStr | B32ToString | B32ToVecE | B32ToBoxStr | B32ToBoxE
            | B32EncodeToString | B32AppEncVec | B32AppEncStr | HexEnc | HexEncStr | HexEncRaw | HexToString | HexToVecE
            | HexToBoxStr | HexToBoxE | HexEncodeToString | HexAppEncVec | HexAppEncStr | UniAscii | UniFromAscii
            | NatExec => Takes::Payload,
            UuidFmtSimple | UuidFmtHyph | UuidExtFmt => Takes::Uuid16,
            UniUtf32 | UniSwap32 | UniSwap32In => Takes::Units32,
            UniSwap16 | UniSwap16In => Takes::Units16,
            _ => Takes::Text,
        }
    }
    pub fn inplace(self) -> bool {
        use Kind::*;
        matches!(
            self,
            B64DecIn | B64ForgIn | B32DecIn | HexDecIn | HexDecRawIn | UniSwap16In | UniSwap32In
        )
    }
    /// has a destination slice
    pub fn has_dst(self) -> bool {
        use Kind::*;
        matches!(
            self,
            B64Enc | B64EncStr | B64Dec | B64Forg | B64Par | B32Enc | B32EncStr | B32Dec | HexEnc | HexEncStr | HexEncRaw
                | HexDec | HexDecRaw | UuidParse | UuidParseSimple | UuidParseHyph | UuidFmtSimple | UuidFmtHyph | UniSwap16
                | UniSwap32
        )
    }
    pub fn owned(self) -> bool {
        use Kind::*;
        matches!(
            self,
            B64ToString | B64ToVecE | B64ToBoxStr | B64ToBoxE | B64EncodeToString | B64ToVecD | B64ToBoxD | B64DecodeToVec
                | B64ForgVec | B32ToString | B32ToVecE | B32ToBoxStr | B32ToBoxE | B32EncodeToString | B32ToVecD | B32ToBoxD
                | B32DecodeToVec | HexToString | HexToVecE | HexToBoxStr | HexToBoxE | HexEncodeToString | HexToVecD
                | HexToBoxD | HexDecodeToVec
        )
    }
    pub fn appends(self) -> bool {
        use Kind::*;
        matches!(
            self,
            B64AppEncVec | B64AppEncStr | B64AppDecVec | B32AppEncVec | B32AppEncStr | B32AppDecVec | HexAppEncVec
                | HexAppEncStr | HexAppDecVec
        )
    }
    pub fn allocates(self) -> bool {
        self.owned() || self.appends()
    }
    pub fn to_string_target(self) -> bool {
        matches!(self, Kind::B64AppEncStr | Kind::B32AppEncStr | Kind::HexAppEncStr)
    }
    /// takes its input through AsRef
    pub fn as_ref(self) -> bool {
        use Kind::*;
        (self.owned() && self != B64ForgVec) || self.appends() || matches!(self, UuidExtParse | UuidExtParseSimple | UuidExtParseHyph)
    }
    fn fixed_dst(self) -> Option<usize> {
        use Kind::*;
        match self {
            UuidParse | UuidParseSimple | UuidParseHyph => Some(16),
            UuidFmtSimple => Some(32),
            UuidFmtHyph => Some(36),
            _ => None,
        }
    }
    pub fn align(self) -> usize {
        match self.takes() {
            Takes::Units16 => 2,
            Takes::Units32 => 4,
            _ => 1,
        }
    }
}

// ------------------------------------------------------------------------------------------ expectation

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Bytes(Vec<u8>),
    Unit,
    Bool(bool),
    Len(usize),
    /// no statement about this input
    Any,
    Err,
    Panic,
}

pub fn meaning(kind: Kind, var: u8, src: &[u8]) -> Exp {
    use Kind::*;
    let bytes = |o: Option<Vec<u8>>| o.map_or(Exp::Err, Exp::Bytes);
    let unit = |b: bool| if b { Exp::Unit } else { Exp::Err };
    match kind {
        B64Enc | B64EncStr | B64ToString | B64ToVecE | B64ToBoxStr | B64ToBoxE | B64EncodeToString | B64AppEncVec
        | B64AppEncStr | B64Par => Exp::Bytes(model::b64_encode(var, src)),
        B64Dec | B64DecIn | B64ToVecD | B64ToBoxD | B64DecodeToVec | B64AppDecVec => bytes(model::b64_decode(var, src)),
        B64Check => unit(model::b64_decode(var, src).is_some()),
        B64Len => model::b64_decode(var, src).map_or(Exp::Any, |v| Exp::Len(v.len())),
        B64Forg | B64ForgIn | B64ForgVec => bytes(model::forgiving(src)),
        B32Enc | B32EncStr | B32ToString | B32ToVecE | B32ToBoxStr | B32ToBoxE | B32EncodeToString | B32AppEncVec
        | B32AppEncStr => Exp::Bytes(model::b32_encode(var, src)),
        B32Dec | B32DecIn | B32ToVecD | B32ToBoxD | B32DecodeToVec | B32AppDecVec => bytes(model::b32_decode(var, src)),
        B32Check => unit(model::b32_decode(var, src).is_some()),
        B32Len => model::b32_decode(var, src).map_or(Exp::Any, |v| Exp::Len(v.len())),
        HexEnc | HexEncStr | HexEncRaw | HexToString | HexToVecE | HexToBoxStr | HexToBoxE | HexEncodeToString
        | HexAppEncVec | HexAppEncStr => Exp::Bytes(model::hex_encode(var & 1 == 1, src)),
        HexDec | HexDecIn | HexDecRaw | HexDecRawIn | HexToVecD | HexToBoxD | HexDecodeToVec | HexAppDecVec => {
            bytes(model::hex_decode(src))
        }
        HexCheck | HexCheckRaw => unit(model::hex_check(src)),
        UuidParse | UuidExtParse => bytes(model::uuid_parse(src)),
        UuidParseSimple | UuidExtParseSimple => bytes(model::uuid_simple(src)),
        UuidParseHyph | UuidExtParseHyph => bytes(model::uuid_hyphenated(src)),
        UuidFmtSimple => Exp::Bytes(model::uuid_format(false, var & 1 == 1, src)),
        UuidFmtHyph => Exp::Bytes(model::uuid_format(true, var & 1 == 1, src)),
        UuidExtFmt => Exp::Unit,
        UniAscii => Exp::Bool(src.iter().all(|&b| b < 0x80)),
        UniFromAscii => Exp::Bool(src.iter().all(|&b| b < 0x80)),
        UniUtf32 => {
            let u: Vec<u32> = src.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
            Exp::Bool(model::is_utf32(&u))
        }
        UniSwap16 | UniSwap16In => Exp::Bytes(src.chunks_exact(2).flat_map(|c| [c[1], c[0]]).collect()),
        UniSwap32 | UniSwap32In => Exp::Bytes(src.chunks_exact(4).flat_map(|c| [c[3], c[2], c[1], c[0]]).collect()),
        NatExec => {
            let mut s = 0u64;
            for (i, &b) in src.iter().enumerate() {
                s = s.wrapping_add((b as u64) ^ (i as u64 & 0xff));
            }
            Exp::Len(s as usize)
        }
    }
}

/// How long the destination must be (for invalid input: a length of the same magnitude).
fn needed(kind: Kind, src: &[u8], m: &Exp) -> usize {
    use Kind::*;
    if let Some(n) = kind.fixed_dst() {
        return n;
    }
    match kind {
        B64Forg => src.len(),
        _ => match m {
            Exp::Bytes(b) => b.len(),
            _ => {
                let pad = src.iter().rev().take(6).take_while(|&&c| c == b'=').count();
                match kind.codec() {
                    Codec::B64 => (src.len() - pad.min(2)) * 6 / 8,
                    Codec::B32 => (src.len() - pad.min(6)) * 5 / 8,
                    _ => src.len() / 2,
                }
            }
        },
    }
}

/// An operation with its input expanded and its meaning computed.
pub struct Prep {
    pub spec: *const OpSpec,
    pub src: Vec<u8>,
    pub alt: Vec<u8>,
    pub meaning: Exp,
    pub exp: Exp,
    pub dst_len: usize,
    /// place in the shared arena
    pub shared: Option<(*mut u8, *mut u8)>,
    pub out: Vec<u8>,
}

pub fn expand(spec: &OpSpec) -> Vec<u8> {
    let mut v = match &spec.input.base {
        Base::Lit(b) => b.clone(),
        Base::Mail(i) => {
            let m = &sh().mail[*i as usize % rt::MAIL];
            m.data[..m.len as usize].to_vec()
        }
        Base::Splice(a, b, cut) => {
            let m = |i: u8| {
                let m = &sh().mail[i as usize % rt::MAIL];
                &m.data[..m.len as usize]
            };
            let (x, y) = (m(*a), m(*b));
            let c = *cut as usize % (x.len() + 1);
            [&x[..c], &y[c.min(y.len())..]].concat()
        }
        Base::Gen { kind, enc, seed, len } => {
            let p = payload(*kind, *seed, *len as usize);
            if *enc == 0 {
                p
            } else {
                let t = encode_for(spec.kind, spec.var, &p, *seed);
                if *enc >= 2 {
                    sprinkle(t, *seed, *enc)
                } else {
                    t
                }
            }
        }
    };
    for e in &spec.input.edits {
        crate::scen::apply_edit(&mut v, e);
    }
    // white space can make a text several times longer; the buffers must hold it
    v.truncate(11_000_000);
    match spec.kind.takes() {
        Takes::Units16 => v.truncate(v.len() / 2 * 2),
        Takes::Units32 => v.truncate(v.len() / 4 * 4),
        Takes::Uuid16 => v.resize(16, 0x3c),
        _ => {}
    }
    v
}

/// The text form a decoding operation accepts.
pub fn encode_for(kind: Kind, var: u8, p: &[u8], seed: u64) -> Vec<u8> {
    use Kind::*;
    match kind.codec() {
        Codec::B64 if matches!(kind, B64Forg | B64ForgIn | B64ForgVec) => model::b64_encode(if seed & 1 == 0 { 0 } else { 2 }, p),
        Codec::B64 => model::b64_encode(var, p),
        Codec::B32 => model::b32_encode(var, p),
        Codec::Hex => {
            let mut t = model::hex_encode(seed & 1 == 1, p);
            if seed & 6 == 6 {
                // mixed case
                for (i, c) in t.iter_mut().enumerate() {
                    if mix(seed ^ i as u64) & 1 == 1 {
                        c.make_ascii_uppercase();
                    }
                }
            }
            t
        }
        Codec::Uuid => {
            let mut id = p.to_vec();
            id.resize(16, 0xc3);
            let upper = seed & 1 == 1;
            let form = match kind {
                UuidParseSimple | UuidExtParseSimple => 0,
                UuidParseHyph | UuidExtParseHyph => 1,
                _ => seed >> 1 & 3,
            };
            let mut t = match form {
                0 => model::uuid_format(false, upper, &id),
                1 => model::uuid_format(true, upper, &id),
                2 => [b"{".as_slice(), &model::uuid_format(true, upper, &id), b"}"].concat(),
                _ => [b"urn:uuid:".as_slice(), &model::uuid_format(true, upper, &id)].concat(),
            };
            if seed & 24 == 24 && form < 2 {
                for (i, c) in t.iter_mut().enumerate() {
                    if mix(seed ^ i as u64) & 1 == 1 {
                        c.make_ascii_uppercase();
                    }
                }
            }
            t
        }
        _ => p.to_vec(),
    }
}

fn sprinkle(t: Vec<u8>, seed: u64, how: u8) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x5b);
    let mut out = Vec::new();
    // chances in 80 of a whitespace byte at each place
    let rate = match how {
        2 => [20, 20, 40, 64][r.us(4)],
        3 => 2,
        _ => 1,
    };
    for i in 0..=t.len() {
        while r.below(80) < rate {
            out.push(r.pick(&[b' ', b'\n', b'\r', b'\t', 0x0c]));
        }
        if i < t.len() {
            out.push(t[i]);
        }
    }
    if r.one_in(6) {
        out.push(r.pick(&[b' ', b'\n', b'\r', b'\t', 0x0c]));
    }
    out
}

pub fn payload(kind: u8, seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(len + 8);
    match kind {
        1 => v.resize(len, seed as u8),
        2 => (0..len).for_each(|i| v.push((i as u64).wrapping_mul(seed | 1) as u8)),
        3 => (0..len).for_each(|_| v.push(r.range(0x20, 0x7e) as u8)),
        4 => {
            v.resize(len, 0);
            for _ in 0..1 + len / 16 {
                if len > 0 {
                    let i = r.us(len);
                    v[i] = 1 << r.us(8);
                }
            }
        }
        5 => (0..len).for_each(|_| v.push(r.pick(&[0x7f, 0x80, 0xff, 0x00, 0x3f, 0xc0, 0xfb, 0xfe]))),
        6 => (0..len).for_each(|_| v.push(r.us(0x80) as u8)),
        // UTF-32 scalar values near the boundaries
        7 => {
            while v.len() < len {
                let u: u32 = r.pick(&[0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0xd7fe]);
                let e = edge_unit(&mut r);
                let u = if seed & 1 == 1 && char::from_u32(e).is_some() { e } else { u };
                v.extend_from_slice(&u.to_le_bytes());
            }
            v.truncate(len);
        }
        8 => {
            while v.len() < len {
                let u = r.below(0x110000) as u32;
                let u = if (0xd800..0xe000).contains(&u) { u - 0x800 } else { u };
                v.extend_from_slice(&u.to_le_bytes());
            }
            v.truncate(len);
        }
        _ => {
            while v.len() < len {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(len);
        }
    }
    v
}

/// A 32-bit unit beside a border of the scalar values, or beside one of what an arithmetic test makes of them.
pub fn edge_unit(r: &mut Rng) -> u32 {
    let b: u32 = r.pick(&[0, 0x800, 0xd800, 0xdc00, 0xe000, 0x1_0000, 0x10_f800, 0x11_0000, 0x11_d800, 0x10_2800, 0x8000_0000]);
    let d = match r.below(3) {
        0 => r.us(0x201) as u32,
        1 => 1 << r.us(32),
        _ => r.us(3) as u32,
    };
    let u = if r.one_in(2) { b.wrapping_add(d) } else { b.wrapping_sub(d) };
    if r.one_in(3) { u ^ 0xd800 } else { u }
}

pub fn prepare(spec: &OpSpec) -> Prep {
    let src = expand(spec);
    let m = meaning(spec.kind, spec.var, &src);
    let need = needed(spec.kind, &src, &m);
    let dst_len = if spec.kind.fixed_dst().is_some() || spec.kind == Kind::HexEncRaw || spec.kind == Kind::HexDecRaw {
        need
    } else {
        (need as i64 + spec.dlen as i64 * spec.kind.align() as i64).max(0) as usize
    };
    let mut exp = m.clone();
    if spec.kind.has_dst() && dst_len < need {
        exp = match spec.kind {
            Kind::UniSwap16 | Kind::UniSwap32 => Exp::Panic,
            _ => Exp::Err,
        };
    }
    let alt = if spec.asref != 0 { payload(0, 7, src.len() / 2 + 3) } else { Vec::new() };
    Prep { spec, src, alt, meaning: m, exp, dst_len, shared: None, out: Vec::new() }
}

// ------------------------------------------------------------------------------------------ outcome

pub enum Owned {
    S(String),
    V(Vec<u8>),
    Bs(Box<str>),
    Bb(Box<[u8]>),
}

impl Owned {
    pub fn bytes(&self) -> &[u8] {
        match self {
            Owned::S(s) => s.as_bytes(),
            Owned::V(v) => v,
            Owned::Bs(s) => s.as_bytes(),
            Owned::Bb(b) => b,
        }
    }
    fn blocks(&self) -> i64 {
        (match self {
            Owned::S(s) => s.capacity(),
            Owned::V(v) => v.capacity(),
            Owned::Bs(s) => s.len(),
            Owned::Bb(b) => b.len(),
        } > 0) as i64
    }
}

enum Got {
    Slice(*const u8, usize),
    Owned(Owned),
    Arr([u8; 16]),
    Unit,
    Bool(bool),
    Len(usize),
    Err,
}

pub struct HookPanic(pub &'static str);

fn panic_text(e: &(dyn Any + Send)) -> &str {
    if let Some(h) = e.downcast_ref::<HookPanic>() {
        h.0
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s
    } else if let Some(s) = e.downcast_ref::<String>() {
        s
    } else {
        "?"
    }
}

/// Runs library code: stepping, the simulated heap and fault attribution are on inside only.
#[inline(never)]
fn in_op<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    let ts = unsafe { &mut *ts() };
    ts.steps = 0;
    ts.lib = 0;
    ts.alloc_no = 0;
    ts.fails = 0;
    ts.waits = 0;
    ts.panic_len = 0;
    let step = !ts.nested && rt::need_steps(ts);
    ts.stepping = step;
    ts.in_op = true;
    ts.heap_on = true;
    let r = catch_unwind(AssertUnwindSafe(|| {
        if step {
            rt::tf_on();
        }
        let r = f();
        if step {
            rt::tf_off();
        }
        r
    }));
    ts.stepping = false;
    ts.heap_on = false;
    ts.in_op = false;
    ts.first_call = false;
    if r.is_err() {
        count(Ctr::Unwinds);
    }
    r
}

fn uninit<'a>(b: &Buf) -> Out<'a, [u8]> {
    unsafe { Out::from_uninit_slice(std::slice::from_raw_parts_mut(b.p as *mut MaybeUninit<u8>, b.len)) }
}

fn got_slice<E>(r: Result<&mut [u8], E>) -> Got {
    match r {
        Ok(s) => Got::Slice(s.as_ptr(), s.len()),
        Err(_) => Got::Err,
    }
}

fn got_str<E>(r: Result<&mut str, E>) -> Got {
    match r {
        Ok(s) => Got::Slice(s.as_ptr(), s.len()),
        Err(_) => Got::Err,
    }
}

fn got_owned<E>(r: Result<Owned, E>) -> Got {
    match r {
        Ok(o) => Got::Owned(o),
        Err(_) => Got::Err,
    }
}

fn got_unit<E>(r: Result<(), E>) -> Got {
    match r {
        Ok(()) => Got::Unit,
        Err(_) => Got::Err,
    }
}

// ------------------------------------------------------------------------------------------ callbacks

pub struct Arg {
    a: &'static [u8],
    b: &'static [u8],
    mode: u8,
    calls: Cell<u32>,
}

impl AsRef<[u8]> for Arg {
    fn as_ref(&self) -> &[u8] {
        let o = Outside::enter();
        let n = self.calls.get() + 1;
        self.calls.set(n);
        match self.mode {
            1 if n > 1 => {
                count(Ctr::AsRefChange);
                self.b
            }
            1 => {
                count(Ctr::AsRefChange);
                self.a
            }
            2 | 4 if n == (self.mode / 2) as u32 => {
                count(Ctr::AsRefPanic);
                std::mem::forget(o);
                rt::op_unwinding();
                std::panic::resume_unwind(Box::new(HookPanic("conversion")));
            }
            3 => {
                count(Ctr::AsRefReenter);
                reenter();
                self.a
            }
            _ => self.a,
        }
    }
}

/// A few library calls from inside a callback.
fn reenter() {
    let src = [0x5au8; 70];
    let mut buf = [0u8; 160];
    let e = base64_simd::STANDARD.encode(&src, Out::from_slice(&mut buf)).unwrap().to_vec();
    if e != model::b64_encode(0, &src) {
        violate(Class::Result, format_args!("a re-entrant base64 encode is wrong"));
    }
    if base64_simd::STANDARD.decode_to_vec(&e).ok().as_deref() != Some(&src[..]) {
        violate(Class::Result, format_args!("a re-entrant base64 decode is wrong"));
    }
    let e = base32_simd::BASE32.encode_to_string(&src[..33]);
    if e.as_bytes() != model::b32_encode(0, &src[..33]) {
        violate(Class::Result, format_args!("a re-entrant base32 encode is wrong"));
    }
    let e = hex_simd::encode_to_string(&src[..40], hex_simd::AsciiCase::Lower);
    if e.as_bytes() != model::hex_encode(false, &src[..40]) {
        violate(Class::Result, format_args!("a re-entrant hex encode is wrong"));
    }
}

struct Sink {
    buf: [u8; 700],
    len: usize,
    calls: u32,
    /// 0 never fails, 1 fails after n bytes (short write) and from then on, 2 fails at the n-th call only, 3 panics at
    /// the n-th call, 4 fails at the n-th call and from then on, 5 as 1, but accepts again what comes later
    mode: i32,
    n: i32,
    fired: bool,
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let o = Outside::enter();
        self.calls += 1;
        let mut take = s.len().min(self.buf.len() - self.len);
        let mut fails = self.fired && self.mode != 2 && self.mode != 5;
        if fails && self.mode == 4 {
            return Err(fmt::Error);
        }
        match self.mode {
            1 | 5 if !(self.mode == 5 && self.fired) => {
                let room = (self.n.max(0) as usize).saturating_sub(self.len);
                if take > room {
                    take = room;
                    self.fired = true;
                    fails = true;
                    count(Ctr::SinkFail);
                }
            }
            2 | 4 if self.calls as i32 == self.n => {
                self.fired = true;
                count(Ctr::SinkFail);
                return Err(fmt::Error);
            }
            3 if self.calls as i32 == self.n => {
                self.fired = true;
                count(Ctr::SinkPanic);
                std::mem::forget(o);
                rt::op_unwinding();
                std::panic::resume_unwind(Box::new(HookPanic("sink")));
            }
            _ => {}
        }
        self.buf[self.len..self.len + take].copy_from_slice(&s.as_bytes()[..take]);
        self.len += take;
        if fails {
            Err(fmt::Error)
        } else {
            Ok(())
        }
    }
}

macro_rules! fmt_with {
    ($w:expr, $style:expr, $width:expr, $prec:expr, $x:expr, $t:literal) => {
        match $style {
            0 => write!($w, concat!("{:", $t, "}"), $x),
            1 => write!($w, concat!("{:1$", $t, "}"), $x, $width),
            2 => write!($w, concat!("{:<1$", $t, "}"), $x, $width),
            3 => write!($w, concat!("{:>1$", $t, "}"), $x, $width),
            4 => write!($w, concat!("{:^1$", $t, "}"), $x, $width),
            5 => write!($w, concat!("{:*^1$", $t, "}"), $x, $width),
            6 => write!($w, concat!("{:.1$", $t, "}"), $x, $prec),
            7 => write!($w, concat!("{:é>1$.2$", $t, "}"), $x, $width, $prec),
            8 => write!($w, concat!("{:#01$", $t, "}"), $x, $width),
            _ => write!($w, concat!("{:+.1$", $t, "}"), $x, $prec),
        }
    };
}

// ------------------------------------------------------------------------------------------ threads

pub struct Target {
    v: Vec<u8>,
    s: String,
    is_str: bool,
    model: Vec<u8>,
    failed: bool,
}

pub struct Ctx {
    pub targets: Vec<Target>,
    pub held: Vec<(Owned, Vec<u8>)>,
    pub leaks: u32,
}

impl Ctx {
    pub fn new() -> Ctx {
        let t = |is_str| Target { v: Vec::new(), s: String::new(), is_str, model: Vec::new(), failed: false };
        Ctx { targets: vec![t(false), t(false), t(true)], held: Vec::new(), leaks: 0 }
    }

    /// Drops everything the thread owns; every block must be gone afterwards.
    pub fn finish(&mut self) {
        self.recheck();
        self.held.clear();
        for t in &mut self.targets {
            t.v = Vec::new();
            t.s = String::new();
        }
    }

    fn recheck(&mut self) {
        for (o, want) in &self.held {
            count(Ctr::HeldChecks);
            if o.bytes() != &want[..] {
                violate(Class::Held, format_args!("a value handed out earlier has changed"));
            }
        }
    }
}

impl Target {
    fn blocks(&self) -> i64 {
        ((if self.is_str { self.s.capacity() } else { self.v.capacity() }) > 0) as i64
    }
    fn bytes(&self) -> &[u8] {
        if self.is_str {
            self.s.as_bytes()
        } else {
            &self.v
        }
    }
    fn check(&self, what: &str) {
        if self.bytes() != &self.model[..] {
            violate(
                Class::Target,
                format_args!("append target {what}: {} bytes instead of {}", self.bytes().len(), self.model.len()),
            );
        }
        if self.is_str && std::str::from_utf8(self.s.as_bytes()).is_err() {
            violate(Class::Target, format_args!("String target is not UTF-8 {what}"));
        }
    }
}

fn owner_alloc<R>(f: impl FnOnce() -> R) -> R {
    // allocations of the simulated caller: on the simulated heap, never failing
    let ts = unsafe { &mut *ts() };
    let (a, b) = (ts.fail_from, ts.heap_on);
    ts.fail_from = 0;
    ts.heap_on = true;
    let r = f();
    ts.heap_on = b;
    ts.fail_from = a;
    r
}

const TEXT: &str = "préfixe-\u{20ac}\u{1d11e}-0123456789abcdefghijklmnopqrstuvwxyz";

fn reset_target(t: &mut Target, cap: usize, prefix: usize) {
    if t.is_str {
        let mut want = String::new();
        while want.len() < prefix {
            want.push_str(TEXT);
        }
        let mut n = prefix;
        while !want.is_char_boundary(n) {
            n -= 1;
        }
        want.truncate(n);
        t.model = want.as_bytes().to_vec();
        t.s = owner_alloc(|| {
            let mut s = String::with_capacity(cap.max(n));
            s.push_str(&want);
            s
        });
    } else {
        let want: Vec<u8> = (0..prefix).map(|i| mix(i as u64) as u8).collect();
        t.v = owner_alloc(|| {
            let mut v = Vec::with_capacity(cap.max(prefix));
            v.extend_from_slice(&want);
            v
        });
        t.model = want;
    }
    t.failed = false;
}

// ------------------------------------------------------------------------------------------ execution

struct Env<'a> {
    spec: &'a OpSpec,
    src: &'static [u8],
    srcbuf: Buf,
    dst: Buf,
    arg: Arg,
}

macro_rules! b_ops {
    ($kind:expr, $obj:expr, $env:expr, $t:expr,
     $Enc:ident $EncStr:ident $Dec:ident $DecIn:ident $Check:ident $Len:ident $TS:ident $TVE:ident $TBS:ident $TBE:ident $ETS:ident
     $TVD:ident $TBD:ident $DTV:ident $AEV:ident $AES:ident $ADV:ident) => {{
        let (o, e) = ($obj, $env);
        match $kind {
            Kind::$Enc => in_op(|| got_slice(o.encode(e.src, uninit(&e.dst)))),
            Kind::$EncStr => in_op(|| got_str(o.encode_as_str(e.src, uninit(&e.dst)))),
            Kind::$Dec => in_op(|| got_slice(o.decode(e.src, uninit(&e.dst)))),
            Kind::$DecIn => in_op(|| got_slice(o.decode_inplace(e.srcbuf.bytes()))),
            Kind::$Check => in_op(|| got_unit(o.check(e.src))),
            Kind::$Len => in_op(|| o.decoded_length(e.src).map_or(Got::Err, Got::Len)),
            Kind::$TS => in_op(|| Got::Owned(Owned::S(o.encode_type(&e.arg)))),
            Kind::$TVE => in_op(|| Got::Owned(Owned::V(o.encode_type(&e.arg)))),
            Kind::$TBS => in_op(|| Got::Owned(Owned::Bs(o.encode_type(&e.arg)))),
            Kind::$TBE => in_op(|| Got::Owned(Owned::Bb(o.encode_type(&e.arg)))),
            Kind::$ETS => in_op(|| Got::Owned(Owned::S(o.encode_to_string(&e.arg)))),
            Kind::$TVD => in_op(|| got_owned(o.decode_type(&e.arg).map(Owned::V))),
            Kind::$TBD => in_op(|| got_owned(o.decode_type(&e.arg).map(Owned::Bb))),
            Kind::$DTV => in_op(|| got_owned(o.decode_to_vec(&e.arg).map(Owned::V))),
            Kind::$AEV => {
                let v = &mut $t.unwrap().v;
                in_op(|| {
                    o.encode_append(&e.arg, v);
                    Got::Unit
                })
            }
            Kind::$AES => {
                let s = &mut $t.unwrap().s;
                in_op(|| {
                    o.encode_append(&e.arg, s);
                    Got::Unit
                })
            }
            Kind::$ADV => {
                let v = &mut $t.unwrap().v;
                in_op(|| got_unit(o.decode_append(&e.arg, v)))
            }
            _ => unreachable!(),
        }
    }};
}

#[inline(never)]
fn exec_b64(e: &Env, t: Option<&mut Target>) -> Result<Got, Box<dyn Any + Send>> {
    let o = match e.spec.var & 3 {
        0 => &base64_simd::STANDARD,
        1 => &base64_simd::URL_SAFE,
        2 => &base64_simd::STANDARD_NO_PAD,
        _ => &base64_simd::URL_SAFE_NO_PAD,
    };
    match e.spec.kind {
        Kind::B64Forg => in_op(|| got_slice(base64_simd::forgiving_decode(e.src, uninit(&e.dst)))),
        Kind::B64ForgIn => in_op(|| got_slice(base64_simd::forgiving_decode_inplace(e.srcbuf.bytes()))),
        Kind::B64ForgVec => in_op(|| got_owned(base64_simd::forgiving_decode_to_vec(e.src).map(Owned::V))),
        #[cfg(feature = "parallel")]
        Kind::B64Par => in_op(|| got_slice(o.par_encode(e.src, uninit(&e.dst)))),
        #[cfg(not(feature = "parallel"))]
        Kind::B64Par => in_op(|| got_slice(o.encode(e.src, uninit(&e.dst)))),
        k => b_ops!(k, o, e, t,
            B64Enc B64EncStr B64Dec B64DecIn B64Check B64Len B64ToString B64ToVecE B64ToBoxStr B64ToBoxE B64EncodeToString
            B64ToVecD B64ToBoxD B64DecodeToVec B64AppEncVec B64AppEncStr B64AppDecVec),
    }
}

#[inline(never)]
fn exec_b32(e: &Env, t: Option<&mut Target>) -> Result<Got, Box<dyn Any + Send>> {
    let o = match e.spec.var & 3 {
        0 => &base32_simd::BASE32,
        1 => &base32_simd::BASE32HEX,
        2 => &base32_simd::BASE32_NO_PAD,
        _ => &base32_simd::BASE32HEX_NO_PAD,
    };
    b_ops!(e.spec.kind, o, e, t,
        B32Enc B32EncStr B32Dec B32DecIn B32Check B32Len B32ToString B32ToVecE B32ToBoxStr B32ToBoxE B32EncodeToString
        B32ToVecD B32ToBoxD B32DecodeToVec B32AppEncVec B32AppEncStr B32AppDecVec)
}

#[inline(never)]
fn exec_hex(e: &Env, t: Option<&mut Target>) -> Result<Got, Box<dyn Any + Send>> {
    use hex_simd::AsciiCase;
    let case = if e.spec.var & 1 == 1 { AsciiCase::Upper } else { AsciiCase::Lower };
    match e.spec.kind {
        Kind::HexEnc => in_op(|| got_slice(hex_simd::encode(e.src, uninit(&e.dst), case))),
        Kind::HexEncStr => in_op(|| got_str(hex_simd::encode_as_str(e.src, uninit(&e.dst), case))),
        Kind::HexEncRaw => in_op(|| {
            let n = unsafe { hex_simd::encode_raw(e.src.as_ptr(), e.src.len(), e.dst.p, case) };
            Got::Slice(e.dst.p, n)
        }),
        Kind::HexDec => in_op(|| got_slice(hex_simd::decode(e.src, uninit(&e.dst)))),
        Kind::HexDecIn => in_op(|| got_slice(hex_simd::decode_inplace(e.srcbuf.bytes()))),
        Kind::HexDecRaw => in_op(|| match unsafe { hex_simd::decode_raw(e.src.as_ptr(), e.src.len(), e.dst.p) } {
            Ok(n) => Got::Slice(e.dst.p, n),
            Err(_) => Got::Err,
        }),
        Kind::HexDecRawIn => in_op(|| match unsafe { hex_simd::decode_raw(e.srcbuf.p, e.srcbuf.len, e.srcbuf.p) } {
            Ok(n) => Got::Slice(e.srcbuf.p, n),
            Err(_) => Got::Err,
        }),
        Kind::HexCheck => in_op(|| got_unit(hex_simd::check(e.src))),
        Kind::HexCheckRaw => in_op(|| got_unit(unsafe { hex_simd::check_raw(e.src.as_ptr(), e.src.len()) })),
        Kind::HexToString => in_op(|| Got::Owned(Owned::S(hex_simd::encode_type(&e.arg, case)))),
        Kind::HexToVecE => in_op(|| Got::Owned(Owned::V(hex_simd::encode_type(&e.arg, case)))),
        Kind::HexToBoxStr => in_op(|| Got::Owned(Owned::Bs(hex_simd::encode_type(&e.arg, case)))),
        Kind::HexToBoxE => in_op(|| Got::Owned(Owned::Bb(hex_simd::encode_type(&e.arg, case)))),
        Kind::HexEncodeToString => in_op(|| Got::Owned(Owned::S(hex_simd::encode_to_string(&e.arg, case)))),
        Kind::HexToVecD => in_op(|| got_owned(hex_simd::decode_type(&e.arg).map(Owned::V))),
        Kind::HexToBoxD => in_op(|| got_owned(hex_simd::decode_type(&e.arg).map(Owned::Bb))),
        Kind::HexDecodeToVec => in_op(|| got_owned(hex_simd::decode_to_vec(&e.arg).map(Owned::V))),
        Kind::HexAppEncVec => {
            let v = &mut t.unwrap().v;
            in_op(|| {
                hex_simd::encode_append(&e.arg, v, case);
                Got::Unit
            })
        }
        Kind::HexAppEncStr => {
            let s = &mut t.unwrap().s;
            in_op(|| {
                hex_simd::encode_append(&e.arg, s, case);
                Got::Unit
            })
        }
        Kind::HexAppDecVec => {
            let v = &mut t.unwrap().v;
            in_op(|| got_unit(hex_simd::decode_append(&e.arg, v)))
        }
        _ => unreachable!(),
    }
}

#[inline(never)]
fn exec_uuid(e: &Env) -> Result<Got, Box<dyn Any + Send>> {
    use uuid_simd::AsciiCase;
    let case = if e.spec.var & 1 == 1 { AsciiCase::Upper } else { AsciiCase::Lower };
    fn arr<const N: usize, E>(r: Result<&mut [u8; N], E>) -> Got {
        match r {
            Ok(s) => Got::Slice(s.as_ptr(), N),
            Err(_) => Got::Err,
        }
    }
    fn out<'a, const N: usize>(b: &Buf) -> Out<'a, [u8; N]> {
        assert!(b.len == N);
        unsafe { Out::new(b.p.cast()) }
    }
    fn id<E>(r: Result<uuid::Uuid, E>) -> Got {
        match r {
            Ok(u) => Got::Arr(*u.as_bytes()),
            Err(_) => Got::Err,
        }
    }
    match e.spec.kind {
        Kind::UuidParse => in_op(|| arr(uuid_simd::parse(e.src, out(&e.dst)))),
        Kind::UuidParseSimple => in_op(|| arr(uuid_simd::parse_simple(e.src, out(&e.dst)))),
        Kind::UuidParseHyph => in_op(|| arr(uuid_simd::parse_hyphenated(e.src, out(&e.dst)))),
        Kind::UuidFmtSimple => in_op(|| {
            let s: &[u8; 16] = unsafe { &*(e.src.as_ptr() as *const [u8; 16]) };
            Got::Slice(uuid_simd::format_simple(s, out(&e.dst), case).as_ptr(), 32)
        }),
        Kind::UuidFmtHyph => in_op(|| {
            let s: &[u8; 16] = unsafe { &*(e.src.as_ptr() as *const [u8; 16]) };
            Got::Slice(uuid_simd::format_hyphenated(s, out(&e.dst), case).as_ptr(), 36)
        }),
        Kind::UuidExtParse => in_op(|| id(<uuid::Uuid as UuidExt>::parse(&e.arg))),
        Kind::UuidExtParseSimple => in_op(|| id(<uuid::Uuid as UuidExt>::parse_simple(&e.arg))),
        Kind::UuidExtParseHyph => in_op(|| id(<uuid::Uuid as UuidExt>::parse_hyphenated(&e.arg))),
        _ => unreachable!(),
    }
}

#[inline(never)]
fn exec_uuid_fmt(e: &Env) -> Result<Got, Box<dyn Any + Send>> {
    let x = &e.spec.x;
    let hyph = x[0] & 1 == 1;
    let tr = x[1] % 3; // Display, LowerHex, UpperHex
    let (style, width, prec) = (x[2] % 10, x[3].clamp(0, 80) as usize, x[4].clamp(0, 80) as usize);
    let (mode, n) = (x[5] % 6, x[6]);
    let text = String::from_utf8(model::uuid_format(hyph, tr == 2, e.src)).unwrap();
    let mut want = String::new();
    fmt_with!(want, style, width, prec, text, "").unwrap();
    let mut sink = Sink { buf: [0; 700], len: 0, calls: 0, mode, n, fired: false };
    // the Uuid lies in guarded memory
    let u: &uuid::Uuid = unsafe { &*(e.src.as_ptr() as *const uuid::Uuid) };
    let r = {
        let s = &mut sink;
        if hyph {
            in_op(move || {
                let h = UuidExt::format_hyphenated(u);
                match tr {
                    0 => fmt_with!(s, style, width, prec, h, ""),
                    1 => fmt_with!(s, style, width, prec, h, "x"),
                    _ => fmt_with!(s, style, width, prec, h, "X"),
                }
            })
        } else {
            in_op(move || {
                let h = UuidExt::format_simple(u);
                match tr {
                    0 => fmt_with!(s, style, width, prec, h, ""),
                    1 => fmt_with!(s, style, width, prec, h, "x"),
                    _ => fmt_with!(s, style, width, prec, h, "X"),
                }
            })
        }
    };
    let acc = &sink.buf[..sink.len];
    if !want.as_bytes().starts_with(acc) {
        violate(Class::Sink, format_args!("the sink received {:?}, not a prefix of {want:?}", String::from_utf8_lossy(acc)));
    }
    match (r, sink.fired) {
        (Err(p), true) if sink.mode == 3 && panic_text(&*p) == "sink" => {}
        (Err(p), _) => return Err(p),
        (Ok(Ok(())), true) => violate(Class::Sink, format_args!("the sink failed and the formatter reports success")),
        (Ok(Err(_)), false) => violate(Class::Sink, format_args!("the formatter fails although the sink did not")),
        (Ok(Err(_)), true) => {
            if sink.mode == 3 {
                violate(Class::NoPanic, format_args!("a panic of the sink was swallowed"));
            }
        }
        (Ok(Ok(())), false) => {
            if acc != want.as_bytes() {
                violate(Class::Sink, format_args!("the sink received {:?} instead of {want:?}", String::from_utf8_lossy(acc)));
            }
        }
    }
    Ok(Got::Unit)
}

#[inline(never)]
fn exec_uni(e: &Env) -> Result<Got, Box<dyn Any + Send>> {
    let (p, n) = (e.src.as_ptr(), e.src.len());
    unsafe {
        let s16 = || std::slice::from_raw_parts(if n == 0 { 2 as *const u16 } else { p.cast::<u16>() }, n / 2);
        let s32 = || std::slice::from_raw_parts(if n == 0 { 4 as *const u32 } else { p.cast::<u32>() }, n / 4);
        let d16 = || Out::from_uninit_slice(std::slice::from_raw_parts_mut(e.dst.p as *mut MaybeUninit<u16>, e.dst.len / 2));
        let d32 = || Out::from_uninit_slice(std::slice::from_raw_parts_mut(e.dst.p as *mut MaybeUninit<u32>, e.dst.len / 4));
        match e.spec.kind {
            Kind::UniAscii => in_op(|| Got::Bool(unicode_simd::is_ascii(e.src))),
            Kind::UniFromAscii => in_op(|| match unicode_simd::from_ascii(e.src) {
                Some(s) => Got::Bool(s.as_ptr() == p && s.len() == n),
                None => Got::Bool(false),
            }),
            Kind::UniUtf32 => in_op(|| Got::Bool(unicode_simd::is_utf32le(s32()))),
            Kind::UniSwap16 => in_op(|| {
                let s = unicode_simd::utf16_swap_endianness(s16(), d16());
                Got::Slice(s.as_ptr().cast(), s.len() * 2)
            }),
            Kind::UniSwap32 => in_op(|| {
                let s = unicode_simd::utf32_swap_endianness(s32(), d32());
                Got::Slice(s.as_ptr().cast(), s.len() * 4)
            }),
            Kind::UniSwap16In => in_op(|| {
                let s = std::slice::from_raw_parts_mut(e.srcbuf.p as *mut u16, n / 2);
                unicode_simd::utf16_swap_endianness_inplace(s);
                Got::Slice(e.srcbuf.p, n)
            }),
            Kind::UniSwap32In => in_op(|| {
                let s = std::slice::from_raw_parts_mut(e.srcbuf.p as *mut u32, n / 4);
                unicode_simd::utf32_swap_endianness_inplace(s);
                Got::Slice(e.srcbuf.p, n)
            }),
            _ => unreachable!(),
        }
    }
}

#[inline(always)]
fn work(src: &[u8]) -> usize {
    let mut s = 0u64;
    for (i, &b) in src.iter().enumerate() {
        s = s.wrapping_add((b as u64) ^ (i as u64 & 0xff));
    }
    s as usize
}

#[inline(never)]
fn exec_nat(e: &Env) -> Result<Got, Box<dyn Any + Send>> {
    use vsimd::native::Native;
    let runs = Cell::new(0u32);
    let src = e.src;
    let r = match e.spec.var % 4 {
        0 => in_op(|| {
            Got::Len(Native::detect().exec(|| {
                runs.set(runs.get() + 1);
                work(src)
            }))
        }),
        1 => in_op(|| {
            Native::detect().exec(|| {
                runs.set(runs.get() + 1);
                if src.len() < 1 << 40 {
                    rt::op_unwinding();
                    std::panic::resume_unwind(Box::new(HookPanic("closure")));
                }
            });
            Got::Unit
        }),
        2 => in_op(|| {
            let n = Native::detect();
            Got::Len(n.exec(|| {
                n.exec(|| {
                    runs.set(runs.get() + 1);
                    work(src)
                })
            }))
        }),
        _ => in_op(|| {
            let owned = (src, runs.get());
            let (s, r): (&[u8], u32) = Native::detect().exec(move || (owned.0, owned.1 + 1));
            runs.set(r);
            Got::Len(work(s))
        }),
    };
    if runs.get() != 1 {
        violate(Class::Exec, format_args!("the closure ran {} times", runs.get()));
    }
    match r {
        Err(p) if e.spec.var % 4 == 1 && panic_text(&*p) == "closure" => Ok(Got::Len(work(src))),
        Ok(Got::Unit) => violate(Class::NoPanic, format_args!("the panic of the closure was swallowed")),
        r => r,
    }
}

fn exec(e: &Env, t: Option<&mut Target>) -> Result<Got, Box<dyn Any + Send>> {
    match e.spec.kind.codec() {
        Codec::B64 => exec_b64(e, t),
        Codec::B32 => exec_b32(e, t),
        Codec::Hex => exec_hex(e, t),
        Codec::Uuid if e.spec.kind == Kind::UuidExtFmt => exec_uuid_fmt(e),
        Codec::Uuid => exec_uuid(e),
        Codec::Uni => exec_uni(e),
        Codec::Nat => exec_nat(e),
    }
}

fn show(b: &[u8]) -> String {
    let n = b.len().min(48);
    format!("{}{} ({} bytes)", crate::json::hex(&b[..n]), if n < b.len() { ".." } else { "" }, b.len())
}

pub fn name_of(spec: &OpSpec) -> String {
    format!("{} variant {}", spec.kind.name(), spec.var)
}

fn wrong(spec: &OpSpec, src: &[u8], exp: &Exp, got: &str) -> ! {
    let e = match exp {
        Exp::Bytes(b) => format!("Ok({})", show(b)),
        x => format!("{x:?}"),
    };
    violate(Class::Result, format_args!("{} of {}: got {got}, expected {e}", name_of(spec), show(src)))
}

/// Runs one operation and judges it.
pub fn run(cx: &mut Ctx, p: &Prep, arena: usize) -> Option<Vec<u8>> {
    run_once(cx, p, arena, true)
}

fn run_once(cx: &mut Ctx, p: &Prep, arena: usize, first: bool) -> Option<Vec<u8>> {
    let spec = unsafe { &*p.spec };
    let kind = spec.kind;
    let tsr = unsafe { &mut *ts() };
    count(Ctr::Ops);
    let (sp, dp) = (Place::from_code(spec.sp), Place::from_code(spec.dp));
    let align = kind.align();
    let seed = spec.poison;

    // memory
    let n = p.src.len();
    let (srcbuf, dst) = match p.shared {
        Some((s, d)) => {
            count(Ctr::SharedOps);
            (mem::bare(s, n), mem::bare(d, if kind.has_dst() { p.dst_len } else { 0 }))
        }
        None => {
            let a = arena as u64 * mem::STRIDE;
            let d = if kind.has_dst() { p.dst_len } else { 0 };
            (
                mem::place(mem::SRC_BASE + a, n, sp, align, seed),
                mem::place(mem::DST_BASE + a, d, dp, align, seed),
            )
        }
    };
    if sp == Place::End || dp == Place::End {
        count(Ctr::GuardedEnd);
    }
    if sp == Place::Start || dp == Place::Start {
        count(Ctr::GuardedStart);
    }
    if n > 65536 {
        count(Ctr::BigOps);
    }
    srcbuf.bytes().copy_from_slice(&p.src);
    if p.shared.is_none() {
        let d = dst.bytes();
        if d.len() <= 8192 {
            d.fill(seed);
        } else {
            let k = d.len() - 4096;
            d[..4096].fill(seed);
            d[k..].fill(seed);
        }
    }
    let ro = spec.ro && !kind.inplace() && p.shared.is_none();
    if ro {
        count(Ctr::ReadOnlySrc);
        srcbuf.protect(false);
    }
    if matches!(p.exp, Exp::Err) && !matches!(p.meaning, Exp::Err) {
        count(Ctr::ShortDst);
    }
    let alt: &'static [u8] = unsafe { &*(p.alt.as_slice() as *const [u8]) };
    let src: &'static [u8] = unsafe { std::slice::from_raw_parts(srcbuf.p, n) };
    let env = Env { spec, src, srcbuf, dst, arg: Arg { a: src, b: alt, mode: spec.asref, calls: Cell::new(0) } };

    // append target
    let ti = if kind.to_string_target() { 2 } else { spec.slot as usize % 2 };
    let mut tb = 0;
    if kind.appends() {
        let t = &mut cx.targets[ti];
        if spec.fresh >= 0 && first {
            reset_target(t, spec.fresh as usize, spec.prefix as usize);
        }
        t.check("before the call");
        tb = t.blocks();
        if t.failed {
            count(Ctr::AppendAfterErr);
        }
    }

    // the call
    tsr.fail_from = spec.fail.0;
    tsr.fail_to = spec.fail.1;
    // measured: at most 16 n + 600 instructions (the formatter of a uuid 3500), and next to none in libc
    tsr.bound = 30_000 + 128 * n as u64 + if kind == Kind::B64Par { 300_000 } else { 0 };
    tsr.lib_bound = 20_000 + 12 * n as u64 + if kind == Kind::B64Par { 300_000 } else { 0 };
    let live0 = tsr.live;
    let dlen = dst.len;
    tsr.may = [(srcbuf.p as u64, srcbuf.p as u64 + n as u64, kind.inplace()), (dst.p as u64, dst.p as u64 + dlen as u64, true)];
    tsr.shadow = dlen <= rt::SHADOW && kind.has_dst() && kind != Kind::B64Par;
    tsr.in_libc = false;
    if tsr.shadow && rt::sched().watch {
        tsr.written[..dlen].fill(0);
    }
    let target = if kind.appends() { Some(&mut cx.targets[ti]) } else { None };
    let r = exec(&env, target);
    let fails = tsr.fails;
    if std::env::var_os("SIM_STEPS").is_some() && tsr.steps > 0 { eprintln!("STEPS {} {} {} {} {}", name_of(spec), rt::sched().machine, n, tsr.steps, tsr.lib); }
    let steps = tsr.steps;
    tsr.fail_from = 0;
    if ro {
        srcbuf.protect(true);
    }
    if tsr.survivors {
        count(Ctr::NowaitSurvivors);
    }

    // conversions
    let calls = env.arg.calls.get();
    if kind.as_ref() && calls != 1 {
        violate(Class::AsRefCalls, format_args!("{}: the conversion was called {calls} times", name_of(spec)));
    }

    // memory afterwards
    if !kind.inplace() && srcbuf.bytes() != &p.src[..] {
        violate(Class::Source, format_args!("{} has modified its source", name_of(spec)));
    }
    if p.shared.is_none() {
        if let Some(o) = srcbuf.broken() {
            violate(Class::Canary, format_args!("{}: byte {o} relative to the source of {n} bytes was written", name_of(spec)));
        }
        if let Some(o) = dst.broken() {
            violate(
                Class::Canary,
                format_args!("{}: byte {o} relative to the destination of {} bytes was written", name_of(spec), dst.len),
            );
        }
    }

    // the answer
    let mut owned: Option<Owned> = None;
    let mut outcome = 0u64;
    let mut out: Option<Vec<u8>> = None;
    let mut alloc_failed = false;
    match r {
        Err(p0) => {
            let text = panic_text(&*p0);
            if text == "allocation" && fails > 0 {
                outcome = 3;
                alloc_failed = true;
            } else if text == "conversion" && matches!(spec.asref, 2 | 4) {
                outcome = 4;
            } else if p.exp == Exp::Panic {
                outcome = 5;
            } else {
                let m = String::from_utf8_lossy(&tsr.panic_msg[..tsr.panic_len]).into_owned();
                violate(Class::Panic, format_args!("{} of {} panicked: {text} {m}", name_of(spec), show(&p.src)));
            }
        }
        Ok(got) => {
            if matches!(spec.asref, 2) && kind.as_ref() {
                violate(Class::NoPanic, format_args!("{}: a panic of the conversion was swallowed", name_of(spec)));
            }
            // an append answers with its target
            let exp = match (&p.exp, kind.appends()) {
                (Exp::Bytes(_), true) => &Exp::Unit,
                (e, _) => e,
            };
            match (&got, exp) {
                (Got::Err, Exp::Err) => {
                    count(Ctr::Rejects);
                    outcome = 1;
                }
                (Got::Err, Exp::Any) => outcome = 1,
                (Got::Len(m), Exp::Any) => {
                    if *m > n {
                        wrong(spec, &p.src, exp, &format!("Len({m})"));
                    }
                }
                (Got::Unit, Exp::Unit) => outcome = 2,
                (Got::Bool(a), Exp::Bool(b)) if a == b => outcome = *a as u64 + 6,
                (Got::Len(a), Exp::Len(b)) if a == b => outcome = 2,
                (Got::Slice(q, m), Exp::Bytes(b)) => {
                    let at = if kind.inplace() { srcbuf.p } else { dst.p };
                    if *q != at as *const u8 && !(*m == 0 && b.is_empty()) {
                        violate(Class::Result, format_args!("{}: the result does not lie in the destination", name_of(spec)));
                    }
                    if *m != b.len() {
                        wrong(spec, &p.src, exp, &format!("a slice of {m} bytes"));
                    }
                    let s = unsafe { std::slice::from_raw_parts(at, *m) };
                    if s != &b[..] {
                        wrong(spec, &p.src, exp, &format!("Ok({})", show(s)));
                    }
                    out = Some(s.to_vec());
                    outcome = 2;
                }
                (Got::Arr(a), Exp::Bytes(b)) if a[..] == b[..] => outcome = 2,
                (Got::Owned(o), Exp::Bytes(b)) => {
                    if o.bytes() != &b[..] {
                        wrong(spec, &p.src, exp, &format!("Ok({})", show(o.bytes())));
                    }
                    out = Some(b.clone());
                    outcome = 2;
                }
                (g, _) => {
                    let s = match g {
                        Got::Slice(q, m) => {
                            let ok = *q == srcbuf.p as *const u8 || *q == dst.p as *const u8;
                            if ok && *m <= n.max(dst.len) {
                                format!("Ok({})", show(unsafe { std::slice::from_raw_parts(*q, *m) }))
                            } else {
                                "Ok(a slice elsewhere)".to_string()
                            }
                        }
                        Got::Owned(o) => format!("Ok({})", show(o.bytes())),
                        Got::Arr(a) => format!("Ok({})", show(a)),
                        Got::Unit => "Ok".into(),
                        Got::Bool(b) => format!("{b}"),
                        Got::Len(n) => format!("Len({n})"),
                        Got::Err => "Err".into(),
                    };
                    wrong(spec, &p.src, exp, &s);
                }
            }
            if let Got::Owned(o) = got {
                owned = Some(o);
            }
        }
    }

    // append target
    let mut tb1 = 0;
    if kind.appends() {
        let t = &mut cx.targets[ti];
        match (outcome, &p.exp) {
            (2, Exp::Bytes(b)) => {
                t.model.extend_from_slice(b);
                t.check("after a successful append");
                t.failed = false;
            }
            _ => {
                t.check("after an append that failed");
                t.failed = true;
            }
        }
        tb1 = t.blocks();
    }

    // heap
    let ob = owned.as_ref().map_or(0, |o| o.blocks());
    let leaked = tsr.live - live0 - (tb1 - tb) - ob;
    if kind != Kind::B64Par && leaked != 0 && !tsr.nested {
        if leaked < 0 {
            violate(Class::HeapFree, format_args!("{} released {} blocks that are not its own", name_of(spec), -leaked));
        }
        // keep something once (a cache) and it is no leak; do it again and it is
        cx.leaks += 1;
        if !first || cx.leaks > 64 {
            violate(Class::Leak, format_args!("{} leaks {leaked} heap blocks", name_of(spec)));
        }
        if first {
            drop(owned.take());
            run_once(cx, p, arena, false);
        }
    }

    let len_class = if n <= 160 { n as u64 } else { 1000 + (n as u64).ilog2() as u64 * 8 + n as u64 % 8 };
    let place_class = (sp.code().min(0) * 3 + dp.code().min(0)) as u64;
    let mach = rt::sched().machine as u64;
    rt::state(mix(mix(kind as u64 | (spec.var as u64) << 8 | mach << 16 | outcome << 24) ^ len_class) ^ place_class);
    let d = out.as_ref().map_or(0, |b| rt::digest(b));
    event(10, (kind as u64) | (outcome << 8) | (steps << 16), d);
    if log_on() {
        log(format_args!(
            "thread {} op {} {} len {n} -> {} steps {steps}{}",
            tsr.tid,
            tsr.op,
            name_of(spec),
            ["ok", "err", "ok", "allocation error", "conversion panic", "panic", "false", "true"][outcome as usize],
            if fails > 0 { " (allocation failed)" } else { "" }
        ));
    }

    // what becomes of a value handed out
    if let Some(o) = owned {
        let want = match &p.exp {
            Exp::Bytes(b) => b.clone(),
            _ => Vec::new(),
        };
        dispose(cx, o, want, spec.post);
    }
    if !cx.held.is_empty() && spec.post % 2 == 1 {
        cx.recheck();
    }

    // once memory is available the same call succeeds
    if alloc_failed && first && spec.retry {
        count(Ctr::Retries);
        let again = OpSpec { fail: (0, 0), fresh: -1, retry: false, ..spec.clone() };
        let q = Prep {
            spec: &again,
            src: p.src.clone(),
            alt: p.alt.clone(),
            meaning: p.meaning.clone(),
            exp: p.exp.clone(),
            dst_len: p.dst_len,
            shared: None,
            out: Vec::new(),
        };
        let saved = tsr.quantum;
        run_once(cx, &q, arena, false);
        tsr.quantum = saved;
    }
    out
}

fn dispose(cx: &mut Ctx, o: Owned, mut want: Vec<u8>, post: u8) {
    let o = match post % 6 {
        0 => return drop(o),
        1 => o,
        2 => owner_alloc(|| match o {
            Owned::S(mut s) => {
                s.push_str("tail");
                want.extend_from_slice(b"tail");
                Owned::S(s)
            }
            Owned::V(mut v) => {
                v.extend_from_slice(b"tail");
                want.extend_from_slice(b"tail");
                Owned::V(v)
            }
            o => o,
        }),
        3 => owner_alloc(|| match o {
            Owned::S(s) => Owned::Bs(s.into_boxed_str()),
            Owned::V(v) => Owned::Bb(v.into_boxed_slice()),
            Owned::Bs(s) => Owned::S(s.into_string()),
            Owned::Bb(b) => Owned::V(b.into_vec()),
        }),
        4 => owner_alloc(|| match o {
            Owned::S(mut s) => {
                s.truncate(want.len() / 2);
                s.shrink_to_fit();
                want.truncate(want.len() / 2);
                Owned::S(s)
            }
            Owned::V(mut v) => {
                v.truncate(want.len() / 2);
                v.shrink_to_fit();
                want.truncate(want.len() / 2);
                Owned::V(v)
            }
            o => o,
        }),
        _ => owner_alloc(|| match o {
            Owned::S(s) => Owned::V(s.into_bytes()),
            Owned::Bs(s) => Owned::Bb(s.into_boxed_bytes()),
            o => o,
        }),
    };
    if o.bytes() != &want[..] {
        violate(Class::Held, format_args!("a value handed out changed when it was converted"));
    }
    if cx.held.len() >= 6 {
        cx.held.remove(0);
    }
    cx.held.push((o, want));
}

/// An operation run by a signal handler on top of another one.
///
/// Takes a raw pointer: the state of the thread is reached through the thread-local as well meanwhile.
pub unsafe fn run_nested(ts: *mut TState, spec: &OpSpec) {
    let keep = std::ptr::read(ts);
    let flag = move |b: bool| {
        (&raw mut (*ts).nested).write_volatile(b);
        std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
    };
    flag(true);
    (*ts).stepping = false;
    (*ts).in_op = false;
    (*ts).heap_on = false;
    let p = prepare(spec);
    let mut cx = Ctx::new();
    run(&mut cx, &p, keep.tid + 12);
    cx.finish();
    drop(cx);
    // what the interrupted operation goes on with; blocks are counted for the thread as a whole
    let (live, live_bytes, survivors) = ((*ts).live, (*ts).live_bytes, (*ts).survivors);
    std::ptr::write(ts, keep);
    (*ts).live = live;
    (*ts).live_bytes = live_bytes;
    (*ts).survivors = survivors;
    flag(false);
}

pub fn install_panic_hooks() {
    std::panic::set_hook(Box::new(|info| {
        rt::op_unwinding();
        let p = ts();
        if !p.is_null() {
            let ts = unsafe { &mut *p };
            struct W<'a>(&'a mut TState);
            impl fmt::Write for W<'_> {
                fn write_str(&mut self, s: &str) -> fmt::Result {
                    let n = s.len().min(self.0.panic_msg.len() - self.0.panic_len);
                    let at = self.0.panic_len;
                    self.0.panic_msg[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
                    self.0.panic_len += n;
                    Ok(())
                }
            }
            ts.panic_len = 0;
            let mut w = W(ts);
            let _ = match info.location() {
                Some(l) => write!(w, "at {}:{}", l.file(), l.line()),
                None => Ok(()),
            };
            if !w.0.in_op {
                let m = info.payload().downcast_ref::<&str>().copied().or(info.payload().downcast_ref::<String>().map(|s| s.as_str()));
                violate(Class::Panic, format_args!("panic outside of an operation: {} {}", m.unwrap_or("?"), info.location().unwrap()));
            }
        } else {
            eprintln!("harness: {info}");
        }
    }));
    std::alloc::set_alloc_error_hook(|_layout| {
        rt::op_unwinding();
        std::panic::resume_unwind(Box::new(HookPanic("allocation")));
    });
}

pub fn check_heap() {
    heap::check_all();
}
