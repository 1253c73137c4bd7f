//! Simulated memory: arenas at fixed addresses, each between unmapped regions, and the shared arena
//! in which the slices of several threads lie next to each other.

use std::ptr::null_mut;

pub const NT: usize = 24; // twelve threads, and the interrupting operation of each
pub const SRC_BASE: u64 = 0x2000_0000_0000;
pub const DST_BASE: u64 = 0x2100_0000_0000;
pub const SHARED_BASE: u64 = 0x2200_0000_0000;
pub const STRIDE: u64 = 0x0400_0000;
pub const SIZE: usize = 16 << 20;
pub const SHARED_SIZE: usize = 1 << 20;
pub const HEAP_BASE: u64 = 0x2400_0000_0000;
pub const HEAP_SIZE: usize = 1 << 32;

unsafe fn map(addr: u64, size: usize, prot: i32) {
    let p = libc::mmap(
        addr as *mut _,
        size,
        prot,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if p as u64 != addr {
        eprintln!("harness: cannot map {addr:#x}");
        libc::_exit(2);
    }
}

pub fn init() {
    unsafe {
        for t in 0..NT as u64 {
            map(SRC_BASE + t * STRIDE, SIZE, libc::PROT_READ | libc::PROT_WRITE);
            map(DST_BASE + t * STRIDE, SIZE, libc::PROT_READ | libc::PROT_WRITE);
        }
        map(SHARED_BASE, SHARED_SIZE, libc::PROT_READ | libc::PROT_WRITE);
        map(HEAP_BASE, HEAP_SIZE, libc::PROT_NONE);
    }
    let _ = null_mut::<u8>();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    /// the last byte is followed by an unmapped page
    End,
    /// the first byte is preceded by an unmapped page
    Start,
    /// between canaries at this offset
    Mid(u32),
}

impl Place {
    pub fn code(self) -> i64 {
        match self {
            Place::End => -1,
            Place::Start => -2,
            Place::Mid(o) => o as i64,
        }
    }
    pub fn from_code(c: i64) -> Place {
        match c {
            -1 => Place::End,
            -2 => Place::Start,
            o => Place::Mid(o.clamp(0, 1 << 16) as u32),
        }
    }
}

pub const CANARY: usize = 64;

/// A placed buffer.
#[derive(Clone, Copy)]
pub struct Buf {
    pub p: *mut u8,
    pub len: usize,
    lo: *mut u8,
    hi: *mut u8,
    seed: u8,
}

fn canary(a: u64, seed: u8) -> u8 {
    (a as u8).wrapping_mul(0x5b) ^ seed ^ 0xa5
}

/// Places `len` bytes in the arena `base` and paints the surroundings.
pub fn place(base: u64, len: usize, pl: Place, align: usize, seed: u8) -> Buf {
    assert!(len + 70_000 < SIZE);
    let end = base + SIZE as u64;
    let p = match pl {
        Place::End => end - len as u64,
        Place::Start => base,
        Place::Mid(o) => base + 4096 + CANARY as u64 + (o as usize / align * align) as u64,
    };
    debug_assert!(p % align as u64 == 0);
    let lo = (p - base).min(CANARY as u64);
    let hi = (end - p - len as u64).min(CANARY as u64);
    let b = Buf {
        p: p as *mut u8,
        len,
        lo: (p - lo) as *mut u8,
        hi: (p + len as u64 + hi) as *mut u8,
        seed,
    };
    unsafe {
        let mut q = b.lo;
        while q < b.p {
            *q = canary(q as u64, seed);
            q = q.add(1);
        }
        q = b.p.add(len);
        while q < b.hi {
            *q = canary(q as u64, seed);
            q = q.add(1);
        }
    }
    b
}

/// A buffer inside the shared arena (its surroundings belong to others).
pub fn bare(p: *mut u8, len: usize) -> Buf {
    Buf { p, len, lo: p, hi: unsafe { p.add(len) }, seed: 0 }
}

impl Buf {
    pub fn bytes(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.len) }
    }

    /// Offset (relative to the buffer) of a canary byte that has changed.
    pub fn broken(&self) -> Option<i64> {
        unsafe {
            let mut q = self.lo;
            while q < self.p {
                if *q != canary(q as u64, self.seed) {
                    return Some(q as i64 - self.p as i64);
                }
                q = q.add(1);
            }
            q = self.p.add(self.len);
            while q < self.hi {
                if *q != canary(q as u64, self.seed) {
                    return Some(q as i64 - self.p as i64);
                }
                q = q.add(1);
            }
        }
        None
    }

    pub fn protect(&self, write: bool) {
        let lo = self.p as usize & !4095;
        let hi = (self.p as usize + self.len + 4095) & !4095;
        if hi > lo {
            let prot = if write { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_READ };
            unsafe { libc::mprotect(lo as *mut _, hi - lo, prot) };
        }
    }
}

pub struct Desc(&'static str, i64, u64);
impl std::fmt::Display for Desc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // addresses the system chose would differ from run to run
        match self.2 {
            0 => write!(f, "{}", self.0),
            a => write!(f, "{} (offset {} of its region, address {a:#x})", self.0, self.1),
        }
    }
}

pub fn describe(a: u64) -> Desc {
    let arena = |base: u64| {
        let t = (a.wrapping_sub(base).wrapping_add(STRIDE / 2)) / STRIDE;
        a as i64 - (base + t * STRIDE) as i64
    };
    if a < 0x10000 {
        Desc("memory near address zero", 0, 0)
    } else if (SRC_BASE - STRIDE..SRC_BASE + NT as u64 * STRIDE).contains(&a) {
        Desc("source memory it must not touch that way", arena(SRC_BASE), a)
    } else if (DST_BASE - STRIDE..DST_BASE + NT as u64 * STRIDE).contains(&a) {
        Desc("outside of the destination", arena(DST_BASE), a)
    } else if (SHARED_BASE - STRIDE..SHARED_BASE + STRIDE).contains(&a) {
        Desc("outside of the shared buffer", a as i64 - SHARED_BASE as i64, a)
    } else if (HEAP_BASE..HEAP_BASE + HEAP_SIZE as u64).contains(&a) {
        Desc("heap memory outside of a live block", (a - HEAP_BASE) as i64, a)
    } else {
        Desc("unrelated memory", 0, 0)
    }
}
