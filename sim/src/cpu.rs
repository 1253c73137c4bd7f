//! The simulated CPU's invalid-opcode check: which extension does the instruction at `p` belong to?
//!
//! Only the distinctions between the simulated machine levels matter. Levels form a chain
//! (none < sse2 < ssse3 < sse4.1 < avx2), as on real machines. Every VEX-encoded instruction is
//! charged to avx2 (a machine with AVX but not AVX2 is not simulated), every EVEX one to nothing we have.

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ext {
    Base,
    Sse3,
    Ssse3,
    Sse41,
    Sse42,
    Avx2,
    Avx512,
}

/// # Safety
/// `p` must point at the first byte of an instruction in mapped, executable memory, followed by at
/// least 15 readable bytes.
pub unsafe fn classify(p: *const u8) -> Ext {
    let mut p = p;
    let mut rep = 0u8;
    loop {
        match *p {
            0x66 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => p = p.add(1),
            0xf2 | 0xf3 => {
                rep = *p;
                p = p.add(1);
            }
            _ => break,
        }
    }
    match *p {
        0xc4 | 0xc5 => return Ext::Avx2,
        0x62 => return Ext::Avx512,
        _ => {}
    }
    if *p & 0xf0 == 0x40 {
        p = p.add(1);
    }
    if *p != 0x0f {
        return Ext::Base;
    }
    let op = *p.add(1);
    match op {
        0x38 => match *p.add(2) {
            0x00..=0x0b | 0x1c..=0x1e => Ext::Ssse3,
            0x37 => Ext::Sse42,
            0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x38..=0x41 => Ext::Sse41,
            0xf0 | 0xf1 => Ext::Sse42, // crc32, movbe
            0xdb..=0xdf => Ext::Avx2,  // AES-NI: no earlier simulated machine has it
            _ => Ext::Sse42,
        },
        0x3a => match *p.add(2) {
            0x0f => Ext::Ssse3,
            0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => Ext::Sse41,
            0x60..=0x63 => Ext::Sse42,
            _ => Ext::Avx2,
        },
        0xb8 if rep == 0xf3 => Ext::Sse42, // popcnt
        // SSE3: addsubps/pd, haddps/pd, lddqu, movddup, movsldup, movshdup
        0xd0 | 0x7c | 0x7d => Ext::Sse3,
        0xf0 if rep == 0xf2 => Ext::Sse3,
        0x12 if rep != 0 => Ext::Sse3,
        0x16 if rep == 0xf3 => Ext::Sse3,
        _ => Ext::Base,
    }
}

pub const NONE: u8 = 0;
pub const SSE2: u8 = 1;
pub const SSSE3: u8 = 2;
pub const SSE41: u8 = 3;
pub const AVX2: u8 = 4;
pub const LEVELS: [&str; 5] = ["none", "sse2", "ssse3", "sse4.1", "avx2"];

pub fn allows(level: u8, e: Ext) -> bool {
    match e {
        // `none` and `sse2` differ only in what the machine reports: SSE2 is part of the x86-64 baseline.
        Ext::Base => true,
        Ext::Sse3 | Ext::Ssse3 => level >= SSSE3,
        Ext::Sse41 => level >= SSE41,
        Ext::Sse42 | Ext::Avx2 => level >= AVX2,
        Ext::Avx512 => false,
    }
}

/// The level the build itself requires.
pub fn static_level() -> u8 {
    if cfg!(target_feature = "avx2") {
        AVX2
    } else if cfg!(target_feature = "sse4.1") {
        SSE41
    } else if cfg!(target_feature = "ssse3") {
        SSSE3
    } else {
        NONE
    }
}

/// The best level the host can really run.
pub fn host_level() -> u8 {
    if std::arch::is_x86_feature_detected!("avx2") {
        AVX2
    } else if std::arch::is_x86_feature_detected!("sse4.1") {
        SSE41
    } else if std::arch::is_x86_feature_detected!("ssse3") {
        SSSE3
    } else {
        SSE2
    }
}

pub fn set_machine(level: u8) {
    use vsimd::sim;
    let mut f = 0;
    if level >= SSE2 {
        f |= sim::SSE2;
    }
    if level >= SSSE3 {
        f |= sim::SSSE3;
    }
    if level >= SSE41 {
        f |= sim::SSE41;
    }
    if level >= AVX2 {
        f |= sim::AVX2;
    }
    sim::set_machine(f);
}
