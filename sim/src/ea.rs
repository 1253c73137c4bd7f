//! Which memory does the instruction at `p` access? A decoder for the memory operands of x86-64 code as
//! compilers generate it (legacy SSE and VEX encodings).
//!
//! Answers `None` for instructions without an explicit memory operand, for operands relative to the
//! instruction pointer or a segment, and for the few forms whose extent depends on more than the
//! encoding (masked moves, gathers, bit-string addressing): those are not checked.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    R,
    W,
    RW,
}

#[derive(Clone, Copy, Debug)]
pub struct Access {
    pub addr: u64,
    pub size: u32,
    pub op: Op,
}

#[derive(Clone, Copy)]
pub struct Decoded {
    pub size: u32,
    pub op: Op,
    /// base, index (16: none), scale shift, displacement
    pub base: u8,
    pub index: u8,
    pub shift: u8,
    pub disp: i32,
}

/// String instructions.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Form {
    None,
    Mem(u32, Op),
    Movs(u32),
    Stos(u32),
    Lods(u32),
    /// a memory operand whose extent is not known
    Unknown,
}

pub struct Insn {
    pub form: Form,
    pub mem: Option<(u8, u8, u8, i32)>,
    pub rip_relative: bool,
    pub segment: bool,
    pub rep: bool,
}

/// # Safety
/// `p` must point at an instruction followed by at least 15 readable bytes.
pub unsafe fn decode(p: *const u8) -> Insn {
    use Form::*;
    let mut p = p;
    let mut next = || {
        let b = *p;
        p = p.add(1);
        b
    };
    let (mut p66, mut rep, mut segment) = (false, 0u8, false);
    let mut b = next();
    loop {
        match b {
            0x66 => p66 = true,
            0xf2 | 0xf3 => rep = b,
            0x64 | 0x65 => segment = true,
            0x2e | 0x36 | 0x3e | 0x26 | 0x67 | 0xf0 => {}
            _ => break,
        }
        b = next();
    }
    let (mut w, mut r_, mut x, mut bb) = (false, 0u8, 0u8, 0u8);
    let _ = &mut r_;
    let mut map = 0u8;
    let mut vl = 16u32;
    let mut vex = false;
    // the mandatory prefix: 0, 0x66, 0xf3, 0xf2
    let mut pp = 0u8;
    match b {
        0xc5 => {
            vex = true;
            let v = next();
            vl = if v & 4 != 0 { 32 } else { 16 };
            pp = [0, 0x66, 0xf3, 0xf2][(v & 3) as usize];
            map = 1;
            b = next();
        }
        0xc4 => {
            vex = true;
            let v1 = next();
            let v2 = next();
            x = (!v1 >> 6 & 1) * 8;
            bb = (!v1 >> 5 & 1) * 8;
            w = v2 & 0x80 != 0;
            vl = if v2 & 4 != 0 { 32 } else { 16 };
            pp = [0, 0x66, 0xf3, 0xf2][(v2 & 3) as usize];
            map = v1 & 0x1f;
            b = next();
        }
        0x62 => return Insn { form: Unknown, mem: Option::None, rip_relative: false, segment, rep: false },
        _ => {
            if b & 0xf0 == 0x40 {
                w = b & 8 != 0;
                x = (b >> 1 & 1) * 8;
                bb = (b & 1) * 8;
                b = next();
            }
            if b == 0x0f {
                map = 1;
                b = next();
                if b == 0x38 {
                    map = 2;
                    b = next();
                } else if b == 0x3a {
                    map = 3;
                    b = next();
                }
            }
            if rep != 0 {
                pp = rep;
            } else if p66 {
                pp = 0x66;
            }
        }
    }
    let osz = if w { 8 } else if p66 { 2 } else { 4 };
    let wd = if w { 8u32 } else { 4 };
    let none = |form| Insn { form, mem: Option::None, rip_relative: false, segment, rep: rep != 0 };

    // instructions without a ModRM byte
    if map == 0 {
        let sz = if b & 1 == 0 { 1 } else { osz };
        match b {
            0xa4 | 0xa5 => return none(Movs(sz)),
            0xaa | 0xab => return none(Stos(sz)),
            0xac | 0xad => return none(Lods(sz)),
            0xa6 | 0xa7 | 0xae | 0xaf | 0xa0..=0xa3 | 0x6c..=0x6f => return none(Unknown),
            0x00..=0x3f if b & 7 >= 4 => return none(None),
            0x00..=0x3f | 0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6
            | 0xf7 | 0xfe | 0xff => {}
            _ => return none(None),
        }
    } else if map == 1 {
        match b {
            0x05 | 0x0b | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf | 0x06 | 0x08 | 0x09 | 0x0e => {
                return none(None)
            }
            _ => {}
        }
    }

    let modrm = next();
    let (md, reg, rm) = (modrm >> 6, modrm >> 3 & 7, modrm & 7);
    if md == 3 {
        return none(None);
    }
    let (mut base, mut index, mut shift) = (rm + bb, 16u8, 0u8);
    let mut rip = false;
    let mut disp_size = [0, 1, 4][md as usize];
    if rm == 4 {
        let sib = next();
        shift = sib >> 6;
        index = (sib >> 3 & 7) + x;
        if index == 4 {
            index = 16;
        }
        base = (sib & 7) + bb;
        if sib & 7 == 5 && md == 0 {
            base = 16;
            disp_size = 4;
        }
    } else if rm == 5 && md == 0 {
        rip = true;
        disp_size = 4;
    }
    let disp = match disp_size {
        1 => next() as i8 as i32,
        4 => i32::from_le_bytes([next(), next(), next(), next()]),
        _ => 0,
    };

    let form = match map {
        0 => {
            let sz = if b & 1 == 0 { 1 } else { osz };
            match b {
                0x38 | 0x39 => Mem(sz, Op::R),
                0x00..=0x3f if b & 2 == 0 => Mem(sz, Op::RW),
                0x00..=0x3f => Mem(sz, Op::R),
                0x63 => Mem(4, Op::R),
                0x69 | 0x6b => Mem(osz, Op::R),
                0x80 | 0x81 | 0x83 => Mem(if b == 0x80 { 1 } else { osz }, if reg == 7 { Op::R } else { Op::RW }),
                0x84 | 0x85 | 0x8a | 0x8b => Mem(sz, Op::R),
                0x86 | 0x87 => Mem(sz, Op::RW),
                0x88 | 0x89 | 0xc6 | 0xc7 => Mem(sz, Op::W),
                0x8d => None,
                0x8f => Mem(8, Op::W),
                0xc0 | 0xc1 | 0xd0..=0xd3 => Mem(sz, Op::RW),
                0xf6 | 0xf7 => Mem(sz, if matches!(reg, 2 | 3) { Op::RW } else { Op::R }),
                0xfe => Mem(1, Op::RW),
                0xff => match reg {
                    0 | 1 => Mem(osz, Op::RW),
                    2 | 4 | 6 => Mem(8, Op::R),
                    _ => Unknown,
                },
                _ => Unknown,
            }
        }
        1 => {
            // packed or scalar floating point
            let fp = match pp {
                0xf3 => 4,
                0xf2 => 8,
                _ => vl,
            };
            match b {
                0x10 => Mem(fp, Op::R),
                0x11 => Mem(fp, Op::W),
                0x12 | 0x16 => Mem(
                    match (pp, b) {
                        (0xf3, _) => vl,
                        (0xf2, _) => if vl == 32 { 32 } else { 8 },
                        _ => 8,
                    },
                    Op::R,
                ),
                0x13 | 0x17 => Mem(8, Op::W),
                0x14 | 0x15 | 0x28 | 0xc2 | 0xc6 => Mem(if b == 0xc2 { fp } else { vl }, Op::R),
                0x29 | 0x2b | 0xe7 => Mem(vl, Op::W),
                0x2a => Mem(if matches!(pp, 0xf2 | 0xf3) { wd } else { 8 }, Op::R),
                0x2c | 0x2d => Mem(match pp { 0xf3 => 4, 0xf2 | 0 => 8, _ => 16 }, Op::R),
                0x2e | 0x2f => Mem(if pp == 0x66 { 8 } else { 4 }, Op::R),
                0x18..=0x1f | 0x0d => None,
                0x40..=0x4f => Mem(osz, Op::R),
                0x5a => Mem(match pp { 0xf3 => 4, 0xf2 => 8, 0x66 => vl, _ => vl / 2 }, Op::R),
                0xe6 => Mem(if pp == 0xf3 { vl / 2 } else { vl }, Op::R),
                0x5b => Mem(vl, Op::R),
                0x51..=0x5f => Mem(fp, Op::R),
                0x60..=0x6d | 0x74..=0x76 if pp == 0x66 => Mem(vl, Op::R),
                0x6e => Mem(wd, Op::R),
                0x6f if pp != 0 => Mem(vl, Op::R),
                0x70 if pp != 0 => Mem(vl, Op::R),
                0x7c | 0x7d | 0xd0 => Mem(vl, Op::R),
                0x7e if pp == 0xf3 => Mem(8, Op::R),
                0x7e => Mem(wd, Op::W),
                0x7f if pp != 0 => Mem(vl, Op::W),
                0x90..=0x9f if !vex => Mem(1, Op::W),
                0xa4 | 0xa5 | 0xac | 0xad => Mem(osz, Op::RW),
                0xae => match reg {
                    2 if pp == 0 => Mem(4, Op::R),
                    3 if pp == 0 => Mem(4, Op::W),
                    7 => None,
                    _ => Unknown,
                },
                0xaf => Mem(osz, Op::R),
                0xb0 | 0xc0 => Mem(1, Op::RW),
                0xb1 | 0xc1 => Mem(osz, Op::RW),
                0xb6 | 0xbe => Mem(1, Op::R),
                0xb7 | 0xbf => Mem(2, Op::R),
                0xb8 | 0xbc | 0xbd => Mem(osz, Op::R),
                0xba => Mem(osz, if reg == 4 { Op::R } else { Op::RW }),
                0xc3 => Mem(wd, Op::W),
                0xc4 => Mem(2, Op::R),
                0xc7 if reg == 1 => Mem(if w { 16 } else { 8 }, Op::RW),
                0xd1..=0xd3 | 0xe1 | 0xe2 | 0xf1..=0xf3 if pp == 0x66 => Mem(16, Op::R),
                0xd6 if pp == 0x66 => Mem(8, Op::W),
                0xf0 if pp == 0xf2 => Mem(vl, Op::R),
                0xf7 => Unknown,
                0xd4 | 0xd5 | 0xd8..=0xdf | 0xe0 | 0xe3..=0xe5 | 0xe8..=0xef | 0xf4..=0xf6 | 0xf8..=0xfe if pp == 0x66 => {
                    Mem(vl, Op::R)
                }
                _ => Unknown,
            }
        }
        2 => match (b, pp) {
            (0xf0, 0 | 0x66) if !vex => Mem(osz, Op::R),
            (0xf1, 0 | 0x66) if !vex => Mem(osz, Op::W),
            (0xf0, 0xf2) => Mem(1, Op::R),
            (0xf1, 0xf2) => Mem(osz, Op::R),
            (0xf2 | 0xf3 | 0xf5 | 0xf6 | 0xf7, _) if vex => Mem(wd, Op::R),
            (0x20 | 0x23 | 0x25 | 0x30 | 0x33 | 0x35, 0x66) => Mem(vl / 2, Op::R),
            (0x21 | 0x24 | 0x31 | 0x34, 0x66) => Mem(vl / 4, Op::R),
            (0x22 | 0x32, 0x66) => Mem(vl / 8, Op::R),
            (0x18 | 0x58, 0x66) => Mem(4, Op::R),
            (0x19 | 0x59, 0x66) => Mem(8, Op::R),
            (0x1a | 0x5a, 0x66) => Mem(16, Op::R),
            (0x78, 0x66) => Mem(1, Op::R),
            (0x79, 0x66) => Mem(2, Op::R),
            (0x2c..=0x2f | 0x8c | 0x8e | 0x90..=0x93, _) => Unknown,
            // fused multiply-add: scalar forms have odd opcodes from 99
            (0x96..=0xbf, 0x66) => match b & 0xf {
                0x9 | 0xb | 0xd | 0xf => Mem(wd, Op::R),
                _ => Mem(vl, Op::R),
            },
            (0xc8..=0xcd, 0) => Mem(16, Op::R),
            (0xcf | 0xdb..=0xdf, 0x66) => Mem(vl, Op::R),
            (0x00..=0x17 | 0x1c..=0x1f | 0x28..=0x2b | 0x36..=0x47, 0x66) => Mem(vl, Op::R),
            _ => Unknown,
        },
        3 => match (b, pp) {
            (0x14, 0x66) => Mem(1, Op::W),
            (0x15, 0x66) => Mem(2, Op::W),
            (0x16, 0x66) => Mem(wd, Op::W),
            (0x17, 0x66) => Mem(4, Op::W),
            (0x20, 0x66) => Mem(1, Op::R),
            (0x21, 0x66) => Mem(4, Op::R),
            (0x22, 0x66) => Mem(wd, Op::R),
            (0x18 | 0x38, 0x66) => Mem(16, Op::R),
            (0x19 | 0x39, 0x66) => Mem(16, Op::W),
            (0x0a, 0x66) => Mem(4, Op::R),
            (0x0b, 0x66) => Mem(8, Op::R),
            (0x60..=0x63 | 0xdf, 0x66) => Mem(16, Op::R),
            (0xf0, 0xf2) => Mem(wd, Op::R),
            (0x00..=0x0f | 0x40..=0x4c, 0x66) => Mem(vl, Op::R),
            _ => Unknown,
        },
        _ => Unknown,
    };
    Insn { form, mem: Some((base, index, shift, disp)), rip_relative: rip, segment, rep: rep != 0 }
}

// register numbers of the encoding -> general registers of a signal frame
const REGS: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
const RCX: usize = 14;
const RDI: usize = 8;
const RSI: usize = 9;

/// The accesses of the instruction about to be executed (at most two).
///
/// # Safety
/// As `decode`; `g` holds the registers before the instruction.
pub unsafe fn accesses(p: *const u8, g: &[i64; 23]) -> [Option<Access>; 2] {
    let i = decode(p);
    if i.rip_relative || i.segment {
        return [None, None];
    }
    match i.form {
        Form::None | Form::Unknown => [None, None],
        Form::Mem(size, op) => {
            let Some((base, index, shift, disp)) = i.mem else { return [None, None] };
            let mut a = disp as i64;
            if base < 16 {
                a = a.wrapping_add(g[REGS[base as usize]]);
            }
            if index < 16 {
                a = a.wrapping_add(g[REGS[index as usize]].wrapping_shl(shift as u32));
            }
            [Some(Access { addr: a as u64, size, op }), None]
        }
        // a repeated string instruction traps after every iteration
        Form::Movs(size) | Form::Stos(size) | Form::Lods(size) => {
            if i.rep && g[RCX] == 0 {
                return [None, None];
            }
            let s = Access { addr: g[RSI] as u64, size, op: Op::R };
            let d = Access { addr: g[RDI] as u64, size, op: Op::W };
            match i.form {
                Form::Movs(_) => [Some(s), Some(d)],
                Form::Stos(_) => [Some(d), None],
                _ => [Some(s), None],
            }
        }
    }
}
