//! The simulated heap. Allocations made inside an operation come from here.
//!
//! Every block has its own pages between unmapped ones; placement, address reuse, in-place growth and
//! failure are the scenario's. Layouts are checked on release, slack is painted and checked.

use crate::mem::{HEAP_BASE, HEAP_SIZE};
use crate::rt::{count, event, ts, violate, Class, Ctr, Outside};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimHeap;

#[global_allocator]
static A: SimHeap = SimHeap;

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct HeapCfg {
    /// 0: block ends at the guard page; 1: starts after one (can grow in place)
    pub front: bool,
    /// reuse freed slots at once
    pub reuse: bool,
    /// grow in place when there is room
    pub in_place: bool,
    pub poison: u8,
}

const SLOT_PAGES: usize = 66; // up to 64 pages and a guard page on each side
const BIG_SLOT: usize = 1 << 12; // pages of a big slot (16 MiB)
const NSLOTS: usize = 2600;
const NBIG: usize = 96;

#[derive(Clone, Copy)]
struct Slot {
    p: usize,
    size: usize,
    align: usize,
    state: u8, // 0 never used, 1 live, 2 freed
    owner: u8,
}

struct Heap {
    cfg: HeapCfg,
    slots: [Slot; NSLOTS + NBIG],
    next: usize,
    next_big: usize,
    free: [u32; 64],
    nfree: usize,
    cursor: usize,
}

static mut H: Heap = Heap {
    cfg: HeapCfg { front: false, reuse: false, in_place: false, poison: 0x55 },
    slots: [Slot { p: 0, size: 0, align: 0, state: 0, owner: 0 }; NSLOTS + NBIG],
    next: 0,
    next_big: 0,
    free: [0; 64],
    nfree: 0,
    cursor: 0,
};

#[allow(static_mut_refs)]
fn h() -> &'static mut Heap {
    unsafe { &mut H }
}

pub fn configure(cfg: HeapCfg) {
    h().cfg = cfg;
}

fn slot_range(i: usize) -> (usize, usize) {
    // usable pages, without the guards
    if i < NSLOTS {
        let b = HEAP_BASE as usize + i * SLOT_PAGES * 4096;
        (b + 4096, b + (SLOT_PAGES - 1) * 4096)
    } else {
        let b = HEAP_BASE as usize + NSLOTS * SLOT_PAGES * 4096 + (i - NSLOTS) * BIG_SLOT * 4096;
        (b + 4096, b + (BIG_SLOT - 1) * 4096)
    }
}

const _: () = assert!(NSLOTS * SLOT_PAGES * 4096 + NBIG * BIG_SLOT * 4096 <= HEAP_SIZE);

fn slot_of(p: usize) -> usize {
    let off = p - HEAP_BASE as usize;
    if off < NSLOTS * SLOT_PAGES * 4096 {
        off / (SLOT_PAGES * 4096)
    } else {
        NSLOTS + (off - NSLOTS * SLOT_PAGES * 4096) / (BIG_SLOT * 4096)
    }
}

pub fn is_sim(p: usize) -> bool {
    p >= HEAP_BASE as usize && p < HEAP_BASE as usize + HEAP_SIZE
}

fn paint(a: usize) -> u8 {
    (a as u8).wrapping_mul(0x3d) ^ 0x96
}

impl Heap {
    fn pages(p: usize, size: usize) -> (usize, usize) {
        (p & !4095, (p + size + 4095) & !4095)
    }

    unsafe fn paint_slack(s: &Slot) {
        let (lo, hi) = Self::pages(s.p, s.size);
        let mut q = s.p.saturating_sub(64).max(lo);
        while q < s.p {
            *(q as *mut u8) = paint(q);
            q += 1;
        }
        q = s.p + s.size;
        while q < hi.min(s.p + s.size + 64) {
            *(q as *mut u8) = paint(q);
            q += 1;
        }
    }

    unsafe fn check_slack(s: &Slot, when: &str) {
        let (lo, hi) = Self::pages(s.p, s.size);
        let mut q = s.p.saturating_sub(64).max(lo);
        while q < s.p {
            if *(q as *const u8) != paint(q) {
                violate(Class::HeapOverrun, format_args!("byte {} of a block of {} was written ({when})", q as i64 - s.p as i64, s.size));
            }
            q += 1;
        }
        q = s.p + s.size;
        while q < hi.min(s.p + s.size + 64) {
            if *(q as *const u8) != paint(q) {
                violate(Class::HeapOverrun, format_args!("byte {} of a block of {} was written ({when})", q - s.p, s.size));
            }
            q += 1;
        }
    }

    /// A long history has used every slot once: take one released earlier, in a round.
    fn recycle(&mut self, lo: usize, hi: usize) -> usize {
        for _ in lo..hi {
            self.cursor = if self.cursor + 1 >= hi || self.cursor + 1 < lo { lo } else { self.cursor + 1 };
            // slots on the free list of `reuse` are not taken twice
            if self.slots[self.cursor].state == 2 && !self.free[..self.nfree].contains(&(self.cursor as u32)) {
                count(Ctr::AddrReuse);
                return self.cursor;
            }
        }
        crate::run::harness_error(format_args!("the simulated heap has no slot left"))
    }

    unsafe fn alloc(&mut self, size: usize, align: usize) -> *mut u8 {
        let big = size > (SLOT_PAGES - 2) * 4096;
        if size > (BIG_SLOT - 2) * 4096 {
            return std::ptr::null_mut();
        }
        let mut i = usize::MAX;
        if self.cfg.reuse && !big && self.nfree > 0 {
            self.nfree -= 1;
            i = self.free[self.nfree] as usize;
            count(Ctr::AddrReuse);
        }
        if i == usize::MAX {
            if big {
                if self.next_big == NBIG {
                    i = self.recycle(NSLOTS, NSLOTS + NBIG);
                } else {
                    i = NSLOTS + self.next_big;
                    self.next_big += 1;
                }
            } else {
                if self.next == NSLOTS {
                    i = self.recycle(0, NSLOTS);
                } else {
                    i = self.next;
                    self.next += 1;
                }
            }
        }
        let (lo, hi) = slot_range(i);
        let p = if self.cfg.front { lo } else { (hi - size) & !(align - 1) };
        let (a, b) = Self::pages(p, size);
        libc::mprotect(a as *mut _, b - a, libc::PROT_READ | libc::PROT_WRITE);
        // painted lightly: a large block is poisoned at both ends only
        let n = size.min(1024);
        std::ptr::write_bytes(p as *mut u8, self.cfg.poison, n);
        if size > n {
            let n2 = (size - n).min(1024);
            std::ptr::write_bytes((p + size - n2) as *mut u8, self.cfg.poison, n2);
        }
        let owner = (*ts()).tid as u8;
        let s = Slot { p, size, align, state: 1, owner };
        Self::paint_slack(&s);
        self.slots[i] = s;
        p as *mut u8
    }

    unsafe fn release(&mut self, p: usize, layout: Layout, what: &str) -> Slot {
        let i = slot_of(p);
        if i >= self.slots.len() || self.slots[i].p != p {
            violate(Class::HeapFree, format_args!("{what} of a pointer which is no block"));
        }
        let s = self.slots[i];
        if s.state != 1 {
            violate(Class::HeapFree, format_args!("{what} of a block of {} that was released before", s.size));
        }
        if s.size != layout.size() || s.align != layout.align() {
            violate(
                Class::HeapLayout,
                format_args!(
                    "{what} with size {} align {} of a block allocated with size {} align {}",
                    layout.size(),
                    layout.align(),
                    s.size,
                    s.align
                ),
            );
        }
        Self::check_slack(&s, what);
        s
    }

    unsafe fn drop_slot(&mut self, s: Slot) {
        let i = slot_of(s.p);
        self.slots[i].state = 2;
        let (a, b) = Self::pages(s.p, s.size);
        if self.cfg.reuse && i < NSLOTS && self.nfree < self.free.len() {
            std::ptr::write_bytes(s.p as *mut u8, !self.cfg.poison, s.size.min(4096));
            libc::mprotect(a as *mut _, b - a, libc::PROT_NONE);
            self.free[self.nfree] = i as u32;
            self.nfree += 1;
        } else {
            libc::mprotect(a as *mut _, b - a, libc::PROT_NONE);
        }
    }
}

/// Checks the surroundings of every live block.
pub fn check_all() {
    let h = h();
    for i in (0..h.next).chain(NSLOTS..NSLOTS + h.next_big) {
        if h.slots[i].state == 1 {
            unsafe { Heap::check_slack(&h.slots[i], "at the end") };
        }
    }
}

/// Does the access lie in a live block? Otherwise its offset in the nearest one.
pub fn inside(p: usize, size: usize) -> Result<(), (i64, usize)> {
    let h = h();
    let i = slot_of(p);
    if i >= h.slots.len() {
        return Err((0, 0));
    }
    let s = h.slots[i];
    if s.state == 1 && p >= s.p && p + size <= s.p + s.size {
        return Ok(());
    }
    Err((p as i64 - s.p as i64, if s.state == 1 { s.size } else { 0 }))
}

/// Live blocks allocated on behalf of a thread.
#[allow(dead_code)]
pub fn live_of(tid: usize) -> usize {
    let h = h();
    (0..h.next)
        .chain(NSLOTS..NSLOTS + h.next_big)
        .filter(|&i| h.slots[i].state == 1 && h.slots[i].owner == tid as u8)
        .count()
}

fn should_fail() -> bool {
    let ts = unsafe { &mut *ts() };
    ts.alloc_no += 1;
    if ts.fail_from != 0 && ts.alloc_no >= ts.fail_from && ts.alloc_no <= ts.fail_to {
        ts.fails += 1;
        count(Ctr::AllocFails);
        true
    } else {
        false
    }
}

fn check_size(layout: Layout) {
    if layout.size() == 0 {
        violate(Class::ZeroAlloc, format_args!("requests a block of size 0"));
    }
    if layout.size() > isize::MAX as usize - (layout.align() - 1) {
        violate(Class::HeapLayout, format_args!("requests a block of {} bytes", layout.size()));
    }
}

unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let t = ts();
        if t.is_null() || !(*t).heap_on {
            return System.alloc(layout);
        }
        let _o = Outside::enter();
        check_size(layout);
        count(Ctr::Allocs);
        if should_fail() {
            event(20, layout.size() as u64, 0);
            return std::ptr::null_mut();
        }
        let p = h().alloc(layout.size(), layout.align());
        if !p.is_null() {
            (*t).live += 1;
        }
        event(21, layout.size() as u64, p as u64);
        p
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let t = ts();
        if t.is_null() || !(*t).heap_on {
            return System.alloc_zeroed(layout);
        }
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if !is_sim(ptr as usize) {
            return System.dealloc(ptr, layout);
        }
        let _o = Outside::enter();
        let t = ts();
        let s = h().release(ptr as usize, layout, "release");
        h().drop_slot(s);
        (*t).live -= 1;
        event(22, layout.size() as u64, ptr as u64);
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if !is_sim(ptr as usize) {
            return System.realloc(ptr, layout, new_size);
        }
        let t = ts();
        let on = (*t).heap_on;
        let _o = Outside::enter();
        if new_size == 0 {
            violate(Class::ZeroAlloc, format_args!("reallocates to size 0"));
        }
        let s = h().release(ptr as usize, layout, "reallocation");
        if on && should_fail() {
            event(23, new_size as u64, 0);
            return std::ptr::null_mut();
        }
        let (lo, hi) = slot_range(slot_of(s.p));
        if h().cfg.in_place && h().cfg.front && s.p == lo && lo + new_size <= hi {
            count(Ctr::ReallocInPlace);
            let (a, b) = Heap::pages(s.p, s.size.max(new_size));
            libc::mprotect(a as *mut _, b - a, libc::PROT_READ | libc::PROT_WRITE);
            if new_size > s.size {
                std::ptr::write_bytes((s.p + s.size) as *mut u8, h().cfg.poison, new_size - s.size);
            }
            let i = slot_of(s.p);
            h().slots[i].size = new_size;
            let n = h().slots[i];
            let (_, keep) = Heap::pages(n.p, n.size);
            if keep < b {
                libc::mprotect(keep as *mut _, b - keep, libc::PROT_NONE);
            }
            Heap::paint_slack(&n);
            event(24, new_size as u64, ptr as u64);
            return ptr;
        }
        let p = h().alloc(new_size, layout.align());
        if p.is_null() {
            return p;
        }
        count(Ctr::ReallocMoved);
        std::ptr::copy_nonoverlapping(ptr, p, layout.size().min(new_size));
        h().drop_slot(s);
        event(25, new_size as u64, p as u64);
        p
    }
}
