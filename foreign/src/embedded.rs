//! The library in a WebAssembly engine or in a process without an operating system around it (host.c). A panic or an access
//! behind the end of the memory is a trap, seen by the host.

use crate::{gen, vast, Env, Scenario};
use alloc::string::String;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};

#[cfg(target_arch = "wasm32")]
mod host {
    extern "C" {
        static __heap_base: u8;
    }
    pub fn heap() -> (usize, usize) {
        (&raw const __heap_base as usize, super::HEAP_TO)
    }
    pub fn trap() -> ! {
        core::arch::wasm32::unreachable()
    }
}
#[cfg(not(target_arch = "wasm32"))]
mod host {
    extern "C" {
        fn host_trap() -> !;
        fn host_heap(end: usize) -> usize;
    }
    pub fn heap() -> (usize, usize) {
        unsafe { (host_heap(0), host_heap(1)) }
    }
    pub fn trap() -> ! {
        unsafe { host_trap() }
    }
}

/// where the heap ends in the WebAssembly machine
#[cfg(target_arch = "wasm32")]
pub const HEAP_TO: usize = 256 << 20;

/// How an operation on something vast may end other than by returning.
#[derive(Clone, Copy, PartialEq)]
pub enum Expect {
    Nothing,
    /// it must panic
    Panic,
    /// the block it needs is refused, so it cannot return
    Refusal,
    /// the block it needs is refused, if it asks for one
    MayRefuse,
}
/// What becomes of a vast block that is asked for.
#[derive(Clone, Copy)]
pub enum Grant {
    Refuse,
    /// at a place, shifted
    Give(u8, usize),
}
pub static mut GRANT: Grant = Grant::Refuse;
static mut EXPECT: Expect = Expect::Nothing;
static mut VAST: bool = false;
/// 1: ended as expected, 2: with a message
static mut STATE: u32 = 0;
/// vast blocks refused, given; steps on real content of vast size; ends other than by returning
pub static mut COUNTS: [u32; 4] = [0; 4];

pub fn expect(e: Expect) {
    unsafe { EXPECT = e }
}
pub fn bad(message: String) -> ! {
    say(message);
    unsafe { (&raw mut STATE).write_volatile(2) };
    host::trap()
}

/// Bump allocation, reset between scenarios. A block has its size before it and marks behind it.
struct Bump;
static mut NEXT: usize = 0;
static mut LIMIT: usize = 0;
static mut LIVE: usize = 0;
/// what the last `dealloc` found
static mut FAULT: &str = "";
const BEHIND: usize = 24;
const MARK: u8 = 0x9d;

unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if NEXT == 0 {
            (NEXT, LIMIT) = host::heap();
        }
        if VAST && l.size() > vast::VAST {
            if l.size() > isize::MAX as usize {
                bad(alloc::format!("a block of {} bytes was asked for", l.size()));
            }
            let p = vast::give(l.size());
            COUNTS[!p.is_null() as usize] += 1;
            return p;
        }
        if l.size() > LIMIT - NEXT {
            return core::ptr::null_mut();
        }
        let p = (NEXT + 16 + l.align() - 1) & !(l.align() - 1);
        if l.size() + BEHIND > LIMIT - p {
            return core::ptr::null_mut();
        }
        NEXT = p + l.size() + BEHIND;
        LIVE += l.size();
        (p as *mut usize).sub(1).write_unaligned(l.size() ^ l.align() << 26);
        core::ptr::write_bytes(p as *mut u8, 0xc3, l.size());
        core::ptr::write_bytes((p + l.size()) as *mut u8, MARK, BEHIND);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if VAST && vast::take_back(p, l.size(), l.align()) {
            return;
        }
        if p.cast::<usize>().sub(1).read_unaligned() != l.size() ^ l.align() << 26 {
            FAULT = "a block was released with another layout, twice, or its front was overwritten";
        }
        for i in 0..BEHIND {
            if p.add(l.size() + i).read_volatile() != MARK {
                FAULT = "bytes behind a block were overwritten";
            }
        }
        p.cast::<usize>().sub(1).write_unaligned(!0);
        LIVE -= l.size();
    }
}

#[global_allocator]
static A: Bump = Bump;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe {
        if EXPECT != Expect::Nothing {
            (&raw mut COUNTS[3]).write_volatile(COUNTS[3] + 1);
            (&raw mut HASH).write_volatile(HASH ^ 1);
            (&raw mut STATE).write_volatile(1);
        }
    }
    host::trap()
}

struct Machine;
impl Env for Machine {
    fn failing(&self, _nth: u32, f: &mut dyn FnMut()) -> (bool, bool) {
        f();
        (false, false)
    }
}

static mut MSG: Vec<u8> = Vec::new();
static mut OPERATIONS: u32 = 0;
static mut HASH: u64 = 0;

fn say(s: String) {
    unsafe { MSG = s.into_bytes() }
}

#[no_mangle]
pub extern "C" fn message() -> *const u8 {
    unsafe { (*(&raw const MSG)).as_ptr() }
}
#[no_mangle]
pub extern "C" fn message_len() -> usize {
    unsafe { (*(&raw const MSG)).len() }
}
/// of the last scenario
#[no_mangle]
pub extern "C" fn operations() -> u32 {
    unsafe { OPERATIONS }
}
#[no_mangle]
pub extern "C" fn hash(half: u32) -> u32 {
    unsafe { (HASH >> (32 * half)) as u32 }
}

/// how what has trapped was to end
#[no_mangle]
pub extern "C" fn state() -> u32 {
    unsafe { (&raw const STATE).read_volatile() }
}
#[no_mangle]
pub extern "C" fn counts(k: usize) -> u32 {
    unsafe { COUNTS[k & 3] }
}

/// 0, or 1 with a message
fn play_vast(steps: &[vast::Step]) -> u32 {
    unsafe {
        OPERATIONS = 0;
        COUNTS = [0; 4];
        HASH = crate::rng::FNV0;
        VAST = true;
    }
    let mut result = 0;
    for (j, st) in steps.iter().enumerate() {
        let before = unsafe { LIVE };
        unsafe {
            OPERATIONS += 1;
            HASH = crate::rng::fnv(HASH, st.text().as_bytes());
        }
        expect(Expect::Nothing);
        let mut r = vast::run(st);
        if r.is_ok() && matches!(unsafe { EXPECT }, Expect::Panic | Expect::Refusal) {
            r = Err(String::from("the call returned"));
        }
        expect(Expect::Nothing);
        if r.is_ok() && unsafe { FAULT } != "" {
            r = Err(String::from(unsafe { core::mem::take(&mut *(&raw mut FAULT)) }));
        }
        if r.is_ok() && unsafe { LIVE } != before {
            r = Err(alloc::format!("did not release {} bytes", unsafe { LIVE - before }));
        }
        match r {
            Ok(x) => unsafe { HASH = crate::rng::fnv(HASH, &x.to_le_bytes()) },
            Err(m) => {
                say(alloc::format!("step {j} {} {m}", st.name()));
                result = 1;
                break;
            }
        }
    }
    unsafe { VAST = false };
    result
}

/// 0, or 1 with a message
fn play(sc: &Scenario) -> u32 {
    let mut h = crate::rng::FNV0;
    unsafe { OPERATIONS = 0 };
    for (j, st) in sc.threads.iter().flatten().enumerate() {
        unsafe { OPERATIONS += 1 };
        h = crate::rng::fnv(h, &[st.op as u8, st.variant, st.place, st.slack as u8]);
        h = crate::rng::fnv(h, &st.input);
        let before = unsafe { LIVE };
        match st.run(&Machine, None) {
            Ok(x) => h = crate::rng::fnv(h, &x.to_le_bytes()),
            Err(m) => {
                say(alloc::format!("step {j} {} {m}", crate::steps::OPS[st.op].1));
                return 1;
            }
        }
        if unsafe { FAULT } != "" {
            say(alloc::format!("step {j} {} {}", crate::steps::OPS[st.op].1, unsafe { core::mem::take(&mut *(&raw mut FAULT)) }));
            return 1;
        }
        if unsafe { LIVE } != before {
            say(alloc::format!("step {j} {} did not release {} bytes", crate::steps::OPS[st.op].1, unsafe { LIVE - before }));
            return 1;
        }
    }
    unsafe { HASH = h };
    0
}

/// Room for a text from the host.
#[no_mangle]
pub extern "C" fn text_room(n: usize) -> *mut u8 {
    let mut v = Vec::<u8>::with_capacity(n);
    let p = v.as_mut_ptr();
    core::mem::forget(v);
    p
}

fn of(base_lo: u32, base_hi: u32, i: u32) -> Scenario {
    let base = (base_hi as u64) << 32 | base_lo as u64;
    let max = match i {
        i if i % 30011 == 2003 => 1_300_000,
        i if i % 1009 == 503 => 80_000,
        i => [40, 80, 200, 600, 3000][i as usize % 5],
    };
    gen::scenario(crate::rng::mix(base ^ crate::rng::mix(i as u64)), false, max)
}

#[no_mangle]
pub extern "C" fn one(base_lo: u32, base_hi: u32, i: u32) -> u32 {
    let mark = unsafe { NEXT };
    let r = play(&of(base_lo, base_hi, i));
    if r == 0 && mark != 0 {
        unsafe { NEXT = mark };
    }
    r
}

#[no_mangle]
pub extern "C" fn show(base_lo: u32, base_hi: u32, i: u32) {
    say(of(base_lo, base_hi, i).text());
}

fn of_vast(base_lo: u32, base_hi: u32, i: u32) -> Vec<vast::Step> {
    let base = (base_hi as u64) << 32 | base_lo as u64;
    vast::scenario(crate::rng::mix(base ^ crate::rng::mix(i as u64)), i)
}

#[no_mangle]
pub extern "C" fn vast_one(base_lo: u32, base_hi: u32, i: u32) -> u32 {
    let mark = unsafe { NEXT };
    let r = play_vast(&of_vast(base_lo, base_hi, i));
    if r == 0 && mark != 0 {
        unsafe { NEXT = mark };
    }
    r
}

#[no_mangle]
pub extern "C" fn vast_show(base_lo: u32, base_hi: u32, i: u32) {
    say(vast::text(&of_vast(base_lo, base_hi, i)));
}

/// # Safety
/// `p` and `n` are a text's
#[no_mangle]
pub unsafe extern "C" fn replay(p: *const u8, n: usize) -> u32 {
    let text = core::str::from_utf8(core::slice::from_raw_parts(p, n)).unwrap_or("");
    if let Some(steps) = vast::parse(text) {
        return play_vast(&steps);
    }
    match Scenario::parse(text) {
        Some(sc) => play(&sc),
        None => 9,
    }
}
