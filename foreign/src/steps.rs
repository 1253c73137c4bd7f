//! One step: an operation of the library with its input and destination, and the judgement of its outcome.

use crate::mem::{Dst, Src};
use crate::{model, Env};
use alloc::boxed::Box;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use base32_simd::{Base32, BASE32, BASE32HEX, BASE32HEX_NO_PAD, BASE32_NO_PAD};
use base64_simd::{Base64, STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD};
use hex_simd::AsciiCase;
use core::mem::MaybeUninit;
use outref_as::AsOut as _;
#[cfg(not(any(target_arch = "wasm32", sim_embedded)))]
use uuid_simd::UuidExt;

mod outref_as {
    pub use base64_simd::AsOut;
}

macro_rules! ops {
    ($($id:ident = $name:literal, $kind:ident;)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum Op { $($id),* }
        pub const OPS: &[(Op, &str, Kind)] = &[$((Op::$id, $name, Kind::$kind)),*];
    };
}

/// What kind of input an operation takes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Bytes,
    B64,
    Forg,
    B32,
    Hex,
    Uuid,
    Sixteen,
    Ascii,
    Units,
}

ops! {
    B64Enc = "b64.encode", Bytes;
    B64EncStr = "b64.encode_as_str", Bytes;
    B64Dec = "b64.decode", B64;
    B64DecIn = "b64.decode_inplace", B64;
    B64Check = "b64.check", B64;
    B64Len = "b64.decoded_length", B64;
    B64ToString = "b64.encode_to_string", Bytes;
    B64ToBox = "b64.encode.Box", Bytes;
    B64ToVec = "b64.decode_to_vec", B64;
    B64AppE = "b64.encode_append", Bytes;
    B64AppD = "b64.decode_append", B64;
    Forg = "b64.forgiving", Forg;
    ForgIn = "b64.forgiving_inplace", Forg;
    ForgVec = "b64.forgiving_to_vec", Forg;
    B32Enc = "b32.encode", Bytes;
    B32EncStr = "b32.encode_as_str", Bytes;
    B32Dec = "b32.decode", B32;
    B32DecIn = "b32.decode_inplace", B32;
    B32Check = "b32.check", B32;
    B32Len = "b32.decoded_length", B32;
    B32ToString = "b32.encode_to_string", Bytes;
    B32ToVec = "b32.decode_to_vec", B32;
    B32AppE = "b32.encode_append", Bytes;
    B32AppD = "b32.decode_append", B32;
    HexEnc = "hex.encode", Bytes;
    HexEncStr = "hex.encode_as_str", Bytes;
    HexDec = "hex.decode", Hex;
    HexDecIn = "hex.decode_inplace", Hex;
    HexCheck = "hex.check", Hex;
    HexToString = "hex.encode_to_string", Bytes;
    HexToVec = "hex.decode_to_vec", Hex;
    HexAppE = "hex.encode_append", Bytes;
    HexAppD = "hex.decode_append", Hex;
    UuidParse = "uuid.parse", Uuid;
    UuidParseS = "uuid.parse_simple", Uuid;
    UuidParseH = "uuid.parse_hyphenated", Uuid;
    UuidFmtS = "uuid.format_simple", Sixteen;
    UuidFmtH = "uuid.format_hyphenated", Sixteen;
    UuidExt = "uuid.ext.parse", Uuid;
    UuidExtFmt = "uuid.ext.fmt", Sixteen;
    Ascii = "uni.is_ascii", Ascii;
    FromAscii = "uni.from_ascii", Ascii;
    Utf32 = "uni.is_utf32le", Units;
    Swap16 = "uni.swap16", Bytes;
    Swap16In = "uni.swap16_inplace", Bytes;
    Swap32 = "uni.swap32", Bytes;
    Swap32In = "uni.swap32_inplace", Bytes;
}

impl Op {
    /// Whether the caller lends it a destination.
    pub fn takes_a_destination(self) -> bool {
        use Op::*;
        matches!(self, B64Enc | B64EncStr | B64Dec | Forg | B32Enc | B32EncStr | B32Dec | HexEnc | HexEncStr | HexDec)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Step {
    pub op: usize,
    pub variant: u8,
    /// difference between the length of the destination and the length that suffices
    pub slack: i32,
    /// allocation that fails, 0 for none
    pub fail: u32,
    /// where source and destination lie, if the machine has a choice
    pub place: u8,
    pub input: Vec<u8>,
    /// how long a destination has to be, for operations that take one
    pub room: Option<usize>,
    /// the right result; no bytes for a bare yes
    pub want: Option<Vec<u8>>,
}

fn b64(v: u8) -> &'static Base64 {
    [&STANDARD, &URL_SAFE, &STANDARD_NO_PAD, &URL_SAFE_NO_PAD][v as usize & 3]
}
fn b32(v: u8) -> &'static Base32 {
    [&BASE32, &BASE32HEX, &BASE32_NO_PAD, &BASE32HEX_NO_PAD][v as usize & 3]
}
fn case(v: u8) -> AsciiCase {
    if v & 1 == 0 {
        AsciiCase::Lower
    } else {
        AsciiCase::Upper
    }
}

/// Same length, different content: what an in-place operation leaves behind is only judged up to its answer.
type Judge = Result<u64, String>;

pub fn shown(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

fn same(got: Option<&[u8]>, want: Option<&[u8]>) -> Judge {
    if got == want {
        return Ok(got.map_or(1, |b| b.len() as u64 + 2));
    }
    Err(format!(
        "wrong result: got {}, must be {}",
        got.map_or("Err".to_string(), shown),
        want.map_or("Err".to_string(), shown)
    ))
}

/// A step with a destination slice. `room` bytes suffice.
fn with_dst(
    st: &Step,
    lent: Option<&mut [MaybeUninit<u8>]>,
    f: impl FnOnce(&[u8], &mut [MaybeUninit<u8>]) -> Option<Vec<u8>>,
) -> Judge {
    let src = Src::new(&st.input, st.place);
    let room = st.room.unwrap_or(0);
    let n = (room as i64 + st.slack as i64).max(0) as usize;
    let want = st.want.as_deref().filter(|_| n >= room);
    let got = match lent {
        Some(d) => f(src.get(), &mut d[..n]),
        None => {
            let mut dst = Dst::new(n, st.place);
            let r = f(src.get(), dst.get());
            dst.intact()?;
            r
        }
    };
    if src.get() != &st.input[..] {
        return Err("the source was written".to_string());
    }
    same(got.as_deref(), want)
}

/// An operation on one buffer.
fn in_place(st: &Step, f: impl FnOnce(&mut [u8]) -> Option<Vec<u8>>) -> Judge {
    let mut d = Dst::new(st.input.len(), st.place);
    let b = d.get();
    for (x, y) in b.iter_mut().zip(&st.input) {
        x.write(*y);
    }
    let b = unsafe { &mut *(b as *mut [MaybeUninit<u8>] as *mut [u8]) };
    let got = f(b);
    d.intact()?;
    same(got.as_deref(), st.want.as_deref())
}

fn yes(b: bool) -> Option<Vec<u8>> {
    b.then(Vec::new)
}

fn only_src(st: &Step, f: impl FnOnce(&[u8]) -> Option<Vec<u8>>) -> Judge {
    let src = Src::new(&st.input, st.place);
    let got = f(src.get());
    same(got.as_deref(), st.want.as_deref())
}

/// An operation that allocates its result; tried with a failing allocation first, if the step says so.
fn allocating(env: &dyn Env, st: &Step, f: impl Fn(&[u8]) -> Option<Vec<u8>>) -> Judge {
    let src = Src::new(&st.input, st.place);
    let want = &st.want;
    let mut h = 0;
    if st.fail > 0 {
        let mut got = None;
        let (panicked, fired) = env.failing(st.fail, &mut || got = Some(f(src.get())));
        match (panicked, fired) {
            (true, false) => return Err("panicked".to_string()),
            (true, true) => h = 7,
            (false, _) => h = same(got.flatten().as_deref(), want.as_deref())?,
        }
    }
    let got = f(src.get());
    Ok(h ^ same(got.as_deref(), want.as_deref())?)
}

/// An append to a target that already holds something.
fn appending(env: &dyn Env, st: &Step, f: impl Fn(&[u8], &mut Vec<u8>) -> bool) -> Judge {
    let src = Src::new(&st.input, st.place);
    let want = &st.want;
    let before: Vec<u8> = (0..st.variant as usize / 4 % 23).map(|i| (i * 5 + 40) as u8).collect();
    let mut target = Vec::with_capacity(before.len() + st.slack.unsigned_abs() as usize);
    target.extend_from_slice(&before);
    if st.fail > 0 {
        let mut got = None;
        let (panicked, fired) = env.failing(st.fail, &mut || got = Some(f(src.get(), &mut target)));
        match (panicked, fired) {
            (true, false) => return Err("panicked".to_string()),
            (true, true) | (false, true) if got != Some(true) => {
                if target != before {
                    return Err(format!("the target changed to {} though the append failed", shown(&target)));
                }
            }
            _ => {}
        }
        target.clear();
        target.extend_from_slice(&before);
    }
    let ok = f(src.get(), &mut target);
    if ok != want.is_some() {
        return Err(format!("append returned {}", if ok { "Ok" } else { "Err" }));
    }
    let mut all = before;
    all.extend_from_slice(want.as_deref().unwrap_or(&[]));
    same(Some(&target), Some(&all))
}

fn units<const N: usize>(b: &[u8]) -> Vec<[u8; N]> {
    b.chunks_exact(N).map(|c| c.try_into().unwrap()).collect()
}

/// `b` as units, if it lies well.
fn aligned<T>(b: &[u8]) -> Option<&[T]> {
    let well = cfg!(any(target_arch = "wasm32", sim_embedded)) && b.as_ptr() as usize % core::mem::align_of::<T>() == 0;
    well.then(|| unsafe { core::slice::from_raw_parts(b.as_ptr().cast(), b.len() / core::mem::size_of::<T>()) })
}
fn aligned_mut<T>(b: &mut [MaybeUninit<u8>]) -> Option<&mut [MaybeUninit<T>]> {
    let well = cfg!(any(target_arch = "wasm32", sim_embedded)) && b.as_ptr() as usize % core::mem::align_of::<T>() == 0;
    well.then(|| unsafe { core::slice::from_raw_parts_mut(b.as_mut_ptr().cast(), b.len() / core::mem::size_of::<T>()) })
}

macro_rules! swap {
    ($st:expr, $t:ty, $n:literal, $f:expr, $inplace:expr) => {{
        let src: Box<[$t]> = units::<$n>(&$st.input).into_iter().map(<$t>::from_le_bytes).collect();
        let want: Vec<$t> = src.iter().map(|x| x.swap_bytes()).collect();
        let n = src.len() * $n;
        let mut placed = Dst::new(n, $st.place);
        let mut boxed: Box<[MaybeUninit<$t>]> = (0..src.len()).map(|_| MaybeUninit::uninit()).collect();
        let dst = match aligned_mut::<$t>(placed.get()) {
            Some(d) => d,
            None => &mut boxed,
        };
        if $inplace {
            for (x, y) in dst.iter_mut().zip(src.iter()) {
                x.write(*y);
            }
            let b = unsafe { &mut *(dst as *mut [MaybeUninit<$t>] as *mut [$t]) };
            $f.1(b);
            if b[..] != want[..] {
                return Err("wrong result".to_string());
            }
        } else {
            let placed = Src::new(&$st.input[..n], $st.place);
            let ans = $f.0(aligned::<$t>(placed.get()).unwrap_or(&src), dst.as_out());
            if ans[..] != want[..] {
                return Err("wrong result".to_string());
            }
        }
        placed.intact()?;
        Ok(5)
    }};
}

impl Step {
    pub fn kind(&self) -> Kind {
        OPS[self.op].2
    }

    /// Fills in what the model says.
    pub fn complete(mut self) -> Self {
        let i = &self.input;
        let v = self.variant;
        let op = OPS[self.op].0;
        let want = match op {
            Op::B64Enc | Op::B64EncStr | Op::B64ToString | Op::B64ToBox | Op::B64AppE => Some(model::b64_encode(v, i)),
            Op::B64Dec | Op::B64DecIn | Op::B64ToVec | Op::B64AppD => model::b64_decode(v, i),
            Op::B64Check => yes(model::b64_decode(v, i).is_some()),
            Op::B64Len => model::b64_decode(v, i),
            Op::B32Len => model::b32_decode(v, i),
            Op::Forg | Op::ForgIn | Op::ForgVec => model::forgiving(i),
            Op::B32Enc | Op::B32EncStr | Op::B32ToString | Op::B32AppE => Some(model::b32_encode(v, i)),
            Op::B32Dec | Op::B32DecIn | Op::B32ToVec | Op::B32AppD => model::b32_decode(v, i),
            Op::B32Check => yes(model::b32_decode(v, i).is_some()),
            Op::HexEnc | Op::HexEncStr | Op::HexToString | Op::HexAppE => Some(model::hex_encode(v & 1 == 1, i)),
            Op::HexDec | Op::HexDecIn | Op::HexToVec | Op::HexAppD => model::hex_decode(i),
            Op::HexCheck => yes(model::hex_check(i)),
            Op::UuidParse | Op::UuidExt => model::uuid_parse(i),
            Op::UuidParseS => model::uuid_simple(i),
            Op::UuidParseH => model::uuid_hyphenated(i),
            Op::UuidFmtS => Some(model::uuid_format(false, v & 1 == 1, i)),
            Op::UuidFmtH => Some(model::uuid_format(true, v & 1 == 1, i)),
            Op::UuidExtFmt => Some(model::uuid_format(v & 2 != 0, v & 1 == 1, i)),
            Op::Ascii => yes(i.iter().all(|b| *b < 128)),
            Op::FromAscii => i.iter().all(|b| *b < 128).then(|| i.clone()),
            Op::Utf32 => yes(model::is_utf32(&units::<4>(i).into_iter().map(u32::from_le_bytes).collect::<Vec<_>>())),
            Op::Swap16 | Op::Swap16In | Op::Swap32 | Op::Swap32In => None,
        };
        let room = match op {
            Op::B64Enc | Op::B64EncStr => Some(model::b64_encode(v, i).len()),
            Op::B64Dec => Some(model::b64_decode(v, i).map_or(i.len() / 4 * 3 + 3, |d| d.len())),
            Op::Forg => Some(i.len()),
            Op::B32Enc | Op::B32EncStr => Some(model::b32_encode(v, i).len()),
            Op::B32Dec => Some(model::b32_decode(v, i).map_or(i.len() / 8 * 5 + 5, |d| d.len())),
            Op::HexEnc | Op::HexEncStr => Some(i.len() * 2),
            Op::HexDec => Some(i.len() / 2),
            _ => None,
        };
        self.want = want;
        self.room = room;
        self
    }

    pub fn run(&self, env: &dyn Env, lent: Option<&mut [MaybeUninit<u8>]>) -> Judge {
        let st = self;
        let v = st.variant;
        let i = &st.input;
        let own = |r: Result<&mut [u8], _>| r.ok().map(|b: &mut [u8]| b.to_vec());
        match OPS[st.op].0 {
            Op::B64Enc => with_dst(st, lent, |s, d| {
                b64(v).encode(s, d.as_out()).ok().map(|b| b.to_vec())
            }),
            Op::B64EncStr => with_dst(st, lent, |s, d| {
                b64(v).encode_as_str(s, d.as_out()).ok().map(|b| b.as_bytes().to_vec())
            }),
            Op::B64Dec => with_dst(st, lent, |s, d| {
                b64(v).decode(s, d.as_out()).ok().map(|b| b.to_vec())
            }),
            Op::B64DecIn => in_place(st, |b| b64(v).decode_inplace(b).ok().map(|b| b.to_vec())),
            Op::B64Check => only_src(st, |s| yes(b64(v).check(s).is_ok())),
            Op::B64Len => only_src(st, |s| match (b64(v).decoded_length(s), &st.want) {
                // exact for valid input; nothing is said about anything else
                (Ok(n), Some(d)) if n == d.len() => st.want.clone(),
                (_, None) => None,
                (r, _) => Some(format!("decoded_length gives {:?}", r.ok()).into_bytes()),
            }),
            Op::B64ToString => allocating(env, st, |s| {
                Some(b64(v).encode_to_string(s).into_bytes())
            }),
            Op::B64ToBox => allocating(env, st, |s| {
                Some(b64(v).encode_type::<Box<str>>(s).into_string().into_bytes())
            }),
            Op::B64ToVec => allocating(env, st, |s| b64(v).decode_to_vec(s).ok()),
            Op::B64AppE => appending(env, st, |s, t| {
                b64(v).encode_append(s, t);
                true
            }),
            Op::B64AppD => appending(env, st, |s, t| b64(v).decode_append(s, t).is_ok()),
            Op::Forg => with_dst(st, lent, |s, d| {
                base64_simd::forgiving_decode(s, d.as_out()).ok().map(|b| b.to_vec())
            }),
            Op::ForgIn => in_place(st, |b| {
                base64_simd::forgiving_decode_inplace(b).ok().map(|b| b.to_vec())
            }),
            Op::ForgVec => allocating(env, st, |s| base64_simd::forgiving_decode_to_vec(s).ok()),
            Op::B32Enc => with_dst(st, lent, |s, d| {
                b32(v).encode(s, d.as_out()).ok().map(|b| b.to_vec())
            }),
            Op::B32EncStr => with_dst(st, lent, |s, d| {
                b32(v).encode_as_str(s, d.as_out()).ok().map(|b| b.as_bytes().to_vec())
            }),
            Op::B32Dec => with_dst(st, lent, |s, d| {
                b32(v).decode(s, d.as_out()).ok().map(|b| b.to_vec())
            }),
            Op::B32DecIn => in_place(st, |b| b32(v).decode_inplace(b).ok().map(|b| b.to_vec())),
            Op::B32Check => only_src(st, |s| yes(b32(v).check(s).is_ok())),
            Op::B32Len => only_src(st, |s| match (b32(v).decoded_length(s), &st.want) {
                // exact for valid input; nothing is said about anything else
                (Ok(n), Some(d)) if n == d.len() => st.want.clone(),
                (_, None) => None,
                (r, _) => Some(format!("decoded_length gives {:?}", r.ok()).into_bytes()),
            }),
            Op::B32ToString => allocating(env, st, |s| {
                Some(b32(v).encode_to_string(s).into_bytes())
            }),
            Op::B32ToVec => allocating(env, st, |s| b32(v).decode_to_vec(s).ok()),
            Op::B32AppE => appending(env, st, |s, t| {
                b32(v).encode_append(s, t);
                true
            }),
            Op::B32AppD => appending(env, st, |s, t| b32(v).decode_append(s, t).is_ok()),
            Op::HexEnc => with_dst(st, lent, |s, d| {
                own(hex_simd::encode(s, d.as_out(), case(v)))
            }),
            Op::HexEncStr => with_dst(st, lent, |s, d| {
                hex_simd::encode_as_str(s, d.as_out(), case(v)).ok().map(|b| b.as_bytes().to_vec())
            }),
            Op::HexDec => with_dst(st, lent, |s, d| own(hex_simd::decode(s, d.as_out()))),
            Op::HexDecIn => in_place(st, |b| own(hex_simd::decode_inplace(b))),
            Op::HexCheck => only_src(st, |s| yes(hex_simd::check(s).is_ok())),
            Op::HexToString => allocating(env, st, |s| {
                Some(hex_simd::encode_to_string(s, case(v)).into_bytes())
            }),
            Op::HexToVec => allocating(env, st, |s| hex_simd::decode_to_vec(s).ok()),
            Op::HexAppE => appending(env, st, |s, t| {
                hex_simd::encode_append(s, t, case(v));
                true
            }),
            Op::HexAppD => appending(env, st, |s, t| hex_simd::decode_append(s, t).is_ok()),
            Op::UuidParse => only_src(st, |s| {
                let mut d = MaybeUninit::<[u8; 16]>::uninit();
                uuid_simd::parse(s, d.as_out()).ok().map(|b| b.to_vec())
            }),
            Op::UuidParseS => only_src(st, |s| {
                let mut d = MaybeUninit::<[u8; 16]>::uninit();
                uuid_simd::parse_simple(s, d.as_out()).ok().map(|b| b.to_vec())
            }),
            Op::UuidParseH => only_src(st, |s| {
                let mut d = MaybeUninit::<[u8; 16]>::uninit();
                uuid_simd::parse_hyphenated(s, d.as_out()).ok().map(|b| b.to_vec())
            }),
            Op::UuidFmtS => only_src(st, |s| {
                let mut d = MaybeUninit::<[u8; 32]>::uninit();
                Some(uuid_simd::format_simple(s.try_into().unwrap(), d.as_out(), case(v)).to_vec())
            }),
            Op::UuidFmtH => only_src(st, |s| {
                let mut d = MaybeUninit::<[u8; 36]>::uninit();
                Some(uuid_simd::format_hyphenated(s.try_into().unwrap(), d.as_out(), case(v)).to_vec())
            }),
            #[cfg(any(target_arch = "wasm32", sim_embedded))]
            Op::UuidExt | Op::UuidExtFmt => Ok(0),
            #[cfg(not(any(target_arch = "wasm32", sim_embedded)))]
            Op::UuidExt => only_src(st, |s| {
                <uuid::Uuid as UuidExt>::parse(s).ok().map(|u| u.as_bytes().to_vec())
            }),
            #[cfg(not(any(target_arch = "wasm32", sim_embedded)))]
            Op::UuidExtFmt => only_src(st, |s| {
                let u = uuid::Uuid::from_bytes(s.try_into().unwrap());
                Some(
                    match v & 3 {
                        0 => format!("{:x}", u.format_simple()),
                        1 => format!("{:X}", u.format_simple()),
                        2 => format!("{}", u.format_hyphenated()),
                        _ => format!("{:X}", u.format_hyphenated()),
                    }
                    .into_bytes(),
                )
            }),
            Op::Ascii => only_src(st, |s| yes(unicode_simd::is_ascii(s))),
            Op::FromAscii => only_src(st, |s| {
                unicode_simd::from_ascii(s).map(|t| t.as_bytes().to_vec())
            }),
            Op::Utf32 => {
                let u: Box<[u32]> = units::<4>(i).into_iter().map(u32::from_le_bytes).collect();
                let placed = Src::new(&i[..u.len() * 4], st.place);
                same(yes(unicode_simd::is_utf32le(aligned(placed.get()).unwrap_or(&u))).as_deref(), st.want.as_deref())
            }
            Op::Swap16 | Op::Swap16In => {
                let f = (|a: &[u16], d| unicode_simd::utf16_swap_endianness(a, d).to_vec(), |b: &mut [u16]| unicode_simd::utf16_swap_endianness_inplace(b));
                swap!(st, u16, 2, f, OPS[st.op].0 == Op::Swap16In)
            }
            Op::Swap32 | Op::Swap32In => {
                let f = (|a: &[u32], d| unicode_simd::utf32_swap_endianness(a, d).to_vec(), |b: &mut [u32]| unicode_simd::utf32_swap_endianness_inplace(b));
                swap!(st, u32, 4, f, OPS[st.op].0 == Op::Swap32In)
            }
        }
    }
}
