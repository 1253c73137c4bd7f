//! The run time of one simulated process (it lives in a freshly forked child): threads which run one at
//! a time, single-stepped execution, fault injection points, violation reporting.

use crate::cpu;
use crate::ea;
use crate::rng::{fnv, mix, FNV0};
use crate::scen::{OpSpec, Proc};
use std::cell::Cell;
use std::fmt::Write as _;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

// ------------------------------------------------------------------------------------------ classes

macro_rules! classes {
    ($($name:ident = $text:literal,)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u32)]
        #[allow(dead_code)]
        pub enum Class { None, $($name),* }
        pub const CLASS_NAMES: &[&str] = &["none", $($text),*];
    };
}

classes! {
    Result = "wrong-result",
    Segv = "memory-fault",
    Canary = "write-outside-destination",
    Source = "source-modified",
    Shared = "neighbour-corrupted",
    Ud = "undefined-opcode",
    Steps = "step-bound-exceeded",
    Waits = "waits-for-another-thread",
    Deadlock = "deadlock",
    Panic = "unexpected-panic",
    NoPanic = "panic-swallowed",
    HeapLayout = "heap-layout",
    HeapOverrun = "heap-overrun",
    HeapFree = "heap-bad-free",
    Leak = "heap-leak",
    ZeroAlloc = "heap-zero-size",
    AllocFail = "allocation-failure-mishandled",
    Target = "append-target",
    Held = "held-value-changed",
    AsRefCalls = "conversion-calls",
    Sink = "sink",
    Signal = "fatal-signal",
    Timeout = "no-progress",
    Channel = "channel",
    Exec = "native-exec",
    Reach = "access-outside-its-buffers",
    Uninit = "reads-uninitialised-destination",
}

// ------------------------------------------------------------------------------------------ counters

macro_rules! counters {
    ($($name:ident = $text:literal,)*) => {
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum Ctr { $($name),*, Count }
        pub const CTR_NAMES: &[&str] = &[$($text),*];
    };
}

counters! {
    Ops = "operations",
    Steps = "instructions_stepped",
    Switches = "context_switches",
    Preempts = "preemptions_inside_an_operation",
    RaceFirst = "preemptions_inside_a_first_call",
    Stalls = "threads_suspended_inside_an_operation",
    Kills = "threads_killed_inside_an_operation",
    Interrupts = "operations_interrupted_by_another",
    EaChecks = "memory_accesses_checked",
    UdChecks = "instructions_checked_against_the_machine",
    Allocs = "simulated_allocations",
    AllocFails = "allocations_failed",
    ReallocMoved = "reallocations_moved",
    ReallocInPlace = "reallocations_in_place",
    AddrReuse = "addresses_reused",
    Unwinds = "unwinds_through_the_library",
    AsRefChange = "conversions_with_changing_answer",
    AsRefPanic = "conversions_that_panicked",
    AsRefReenter = "conversions_that_reentered",
    SinkFail = "sinks_failed",
    SinkPanic = "sinks_panicked",
    Steals = "pool_pieces_stolen",
    PoolJoins = "pool_joins",
    SharedOps = "operations_on_adjacent_shared_memory",
    ReadOnlySrc = "operations_with_read_only_source",
    GuardedEnd = "buffers_ending_at_an_unmapped_page",
    GuardedStart = "buffers_starting_at_an_unmapped_page",
    ShortDst = "destinations_too_short",
    Rejects = "inputs_rejected",
    MsgSent = "messages_sent",
    MsgLost = "messages_lost",
    MsgDup = "messages_duplicated",
    MsgReorder = "messages_reordered",
    MsgDamaged = "messages_damaged",
    MsgIntact = "messages_intact_to_another_machine",
    Restarts = "process_restarts",
    BigOps = "operations_over_64_KiB",
    NowaitSurvivors = "operations_finished_beside_a_suspended_one",
    HeldChecks = "held_values_rechecked",
    AppendAfterErr = "appends_after_a_failed_append",
    Retries = "retries_after_allocation_failure",
}

// ------------------------------------------------------------------------------------------ shared page

pub const MAIL: usize = 12;
pub const MAIL_CAP: usize = 6000;
pub const NSTATES: usize = 2048;
pub const LOG_CAP: usize = 1 << 20;

#[repr(C)]
pub struct Mail {
    pub len: u32,
    pub set: u32,
    pub digest: u64,
    pub data: [u8; MAIL_CAP],
}

#[repr(C)]
pub struct Shared {
    pub done: u32,
    pub class: u32,
    pub tid: u32,
    pub proc_: u32,
    pub op: u32,
    pub step: u64,
    pub rip: u64,
    pub addr: u64,
    pub msg_len: u32,
    pub msg: [u8; 1024],
    pub hash: u64,
    pub inter: u64,
    pub ctr: [u64; Ctr::Count as usize],
    pub nstates: u32,
    pub states: [u64; NSTATES],
    pub mail: [Mail; MAIL],
    pub last_mail: u32,
    pub log_on: u32,
    pub log_len: u32,
    pub log: [u8; LOG_CAP],
}

pub static mut SHARED: *mut Shared = null_mut();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

pub fn count(c: Ctr) {
    sh().ctr[c as usize] += 1;
}

pub fn event(kind: u64, a: u64, b: u64) {
    let s = sh();
    s.hash = mix(s.hash ^ kind.wrapping_mul(0x9e37) ^ mix(a) ^ mix(b).rotate_left(17));
}

/// Coverage: a state is (operation, machine, length class, placement, outcome, ...)
pub fn state(h: u64) {
    let s = sh();
    if (s.nstates as usize) < NSTATES {
        s.states[s.nstates as usize] = h;
        s.nstates += 1;
    }
}

struct Fixed<'a>(&'a mut [u8], usize);
impl std::fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(self.0.len() - self.1);
        self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
        self.1 += n;
        Ok(())
    }
}

pub fn log_on() -> bool {
    sh().log_on != 0
}

pub fn log(args: std::fmt::Arguments<'_>) {
    let s = sh();
    let mut w = Fixed(&mut s.log, s.log_len as usize);
    let _ = w.write_fmt(args);
    let _ = w.write_str("\n");
    s.log_len = w.1 as u32;
}

/// Reports a violation and ends the simulated process.
pub fn violate(class: Class, args: std::fmt::Arguments<'_>) -> ! {
    violate_at(class, 0, 0, args)
}

pub fn violate_at(class: Class, rip: u64, addr: u64, args: std::fmt::Arguments<'_>) -> ! {
    let s = sh();
    if s.done == 0 {
        s.class = class as u32;
        let ts = ts();
        if !ts.is_null() {
            unsafe {
                s.tid = (*ts).tid as u32;
                s.op = (*ts).op as u32;
                s.step = (*ts).steps;
            }
        }
        s.rip = rip;
        s.addr = addr;
        let mut w = Fixed(&mut s.msg, 0);
        let _ = w.write_fmt(args);
        s.msg_len = w.1 as u32;
        s.done = 2;
        if s.log_on != 0 {
            let (t, o, st) = (s.tid, s.op, s.step);
            log(format_args!(
                "VIOLATION {} thread {t} op {o} step {st}: {args}",
                CLASS_NAMES[class as usize]
            ));
        }
    }
    unsafe { libc::_exit(0) }
}

// ------------------------------------------------------------------------------------------ threads

pub const MAXT: usize = 12; // threads of the scenario and pool helpers

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Absent,
    Runnable,
    /// suspended for ever or until everyone else is done
    Stalled,
    /// waits for a pool ticket
    Blocked(usize),
    /// pool helper without work
    Idle,
    Done,
}

pub struct TState {
    pub tid: usize,
    pub op: usize,
    /// TF is wanted while the library runs
    pub stepping: bool,
    pub in_op: bool,
    pub first_call: bool,
    pub steps: u64,
    /// instructions executed in libc
    pub lib: u64,
    pub lib_bound: u64,
    pub bound: u64,
    pub quantum: u64,
    pub heap_on: bool,
    pub alloc_no: u32,
    pub fail_from: u32,
    pub fail_to: u32,
    pub fails: u32,
    pub live: i64,
    pub live_bytes: i64,
    pub nested: bool,
    pub survivors: bool,
    pub go: AtomicU32,
    pub job: Option<(usize, unsafe fn(*mut ()))>,
    pub ticket: usize,
    pub panic_msg: [u8; 200],
    pub panic_len: usize,
    pub waits: u32,
    /// where the operation may go: source (written only by in-place operations) and destination
    pub may: [(u64, u64, bool); 2],
    /// destination bytes written so far (destinations up to this size)
    pub written: [u8; SHADOW],
    pub shadow: bool,
    pub in_libc: bool,
}

pub const SHADOW: usize = 4096;

impl TState {
    pub fn new(tid: usize) -> TState {
        TState {
            tid,
            op: 0,
            stepping: false,
            in_op: false,
            first_call: true,
            steps: 0,
            lib: 0,
            lib_bound: u64::MAX / 64,
            bound: 0,
            quantum: 0,
            heap_on: false,
            alloc_no: 0,
            fail_from: 0,
            fail_to: 0,
            fails: 0,
            live: 0,
            live_bytes: 0,
            nested: false,
            survivors: false,
            go: AtomicU32::new(0),
            job: None,
            ticket: 0,
            panic_msg: [0; 200],
            panic_len: 0,
            waits: 0,
            may: [(0, 0, false); 2],
            written: [0; SHADOW],
            shadow: false,
            in_libc: false,
        }
    }
}

thread_local! {
    static TS: Cell<*mut TState> = const { Cell::new(null_mut()) };
}

pub fn ts() -> *mut TState {
    TS.with(|c| c.get())
}

pub fn set_ts(p: *mut TState) {
    TS.with(|c| c.set(p));
}

pub struct Sched {
    pub t: [*mut TState; MAXT],
    pub status: [Status; MAXT],
    pub n: usize,
    pub helpers: usize,
    pub segs: Vec<(usize, u64)>,
    pub pos: usize,
    pub choices: Vec<u32>,
    pub cpos: usize,
    pub machine: u8,
    pub ud: bool,
    pub watch: bool,
    pub step: bool,
    pub nowait: bool,
    /// thread, operation, step, resumes; spent when it has happened
    pub stalls: Vec<(usize, usize, u64, bool)>,
    pub stalled: Vec<bool>,
    pub interrupts: Vec<(usize, usize, u64, *const OpSpec)>,
    pub interrupted: Vec<bool>,
    pub main: AtomicU32,
    pub text: (u64, u64),
    pub resumed: bool,
    /// who runs
    pub cur: usize,
    pub pool: usize,
    /// finished pool tickets
    pub tickets: Vec<bool>,
}

pub static mut SCHED: *mut Sched = null_mut();

pub fn sched() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

fn futex_wait(w: &AtomicU32) {
    loop {
        if w.load(SeqCst) != 0 {
            w.store(0, SeqCst);
            return;
        }
        unsafe {
            libc::syscall(
                libc::SYS_futex,
                w as *const AtomicU32,
                libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG,
                0,
                0usize,
            );
        }
    }
}

fn futex_wake(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe {
        libc::syscall(
            libc::SYS_futex,
            w as *const AtomicU32,
            libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG,
            1,
            0usize,
        );
    }
}

impl Sched {
    fn runnable(&self, t: usize) -> bool {
        t < MAXT && self.status[t] == Status::Runnable
    }

    /// The scheduling decision. `None`: nobody is left to run.
    fn decide(&mut self, except: usize) -> Option<(usize, u64)> {
        while self.pos < self.segs.len() {
            let (t, q) = self.segs[self.pos];
            self.pos += 1;
            if self.runnable(t) && t != except {
                return Some((t, q));
            }
        }
        for t in 0..MAXT {
            if self.runnable(t) && t != except {
                return Some((t, 0));
            }
        }
        None
    }

    fn resume_stalled(&mut self) -> bool {
        let mut any = false;
        if !self.resumed {
            self.resumed = true;
            for t in 0..MAXT {
                if self.status[t] == Status::Stalled && self.stalls.iter().any(|s| s.0 == t && s.3) {
                    self.status[t] = Status::Runnable;
                    any = true;
                }
            }
        }
        any
    }

    /// Hands the baton on. Returns when it comes back to the caller (never for a finished thread).
    ///
    /// Not a method: other threads change the scheduler while this one waits, so no exclusive borrow may
    /// be held across the call.
    pub fn switch(me: usize, except_me: bool, why: u64) {
        let s = sched();
        let except = if except_me { me } else { usize::MAX };
        let next = match s.decide(except) {
            Some(x) => Some(x),
            None if except_me && s.runnable(me) => Some((me, 0)),
            None if s.resume_stalled() => s.decide(usize::MAX),
            None => None,
        };
        let Some((t, q)) = next else {
            if (0..MAXT).any(|t| matches!(s.status[t], Status::Blocked(_)))
                && !(0..MAXT).any(|t| s.status[t] == Status::Stalled)
            {
                violate(Class::Deadlock, format_args!("nobody can run"));
            }
            futex_wake(&s.main);
            if s.status[me] == Status::Done {
                return;
            }
            // suspended for ever: wait to be ended with the process
            loop {
                unsafe {
                    futex_wait(&(*s.t[me]).go);
                }
            }
        };
        unsafe { (*s.t[t]).quantum = q };
        s.cur = t;
        if t == me {
            return;
        }
        count(Ctr::Switches);
        let page = sh();
        page.inter = mix(page.inter ^ (why << 8) ^ t as u64);
        event(1, t as u64, why);
        if log_on() {
            log(format_args!("switch {me} -> {t} quantum {q}"));
        }
        futex_wake(unsafe { &(*s.t[t]).go });
        if s.status[me] == Status::Done {
            return;
        }
        futex_wait(unsafe { &(*s.t[me]).go });
    }

    pub fn choose(&mut self, n: usize) -> usize {
        let v = self.choices.get(self.cpos).copied().unwrap_or(0);
        self.cpos += 1;
        v as usize % n.max(1)
    }

    /// Is there still a reason to single-step?
    fn need_steps(&self, ts: &TState) -> bool {
        self.ud
            || self.watch
            || self.nowait
            || ts.quantum > 0
            || self.pos < self.segs.len()
            || self.stalls.iter().any(|s| s.0 == ts.tid && s.1 >= ts.op)
            || self.interrupts.iter().any(|s| s.0 == ts.tid && s.1 >= ts.op)
    }
}

/// Runs on every simulated thread before its first operation.
pub fn thread_start(p: *mut TState) {
    set_ts(p);
    sigaltstack_for_faults();
    unsafe { futex_wait(&(*p).go) };
}

pub fn thread_end(me: usize) {
    let s = sched();
    s.status[me] = Status::Done;
    event(2, me as u64, 0);
    Sched::switch(me, true, 1);
}

/// A scheduling point between two operations.
pub fn op_boundary() {
    let ts = unsafe { &mut *ts() };
    if ts.quantum == 0 {
        Sched::switch(ts.tid, false, 2);
    }
}

/// Starts the first thread and waits until all are finished or suspended for ever.
pub fn run_all() {
    let s = sched();
    match s.decide(usize::MAX) {
        Some((t, q)) => {
            unsafe { (*s.t[t]).quantum = q };
            s.cur = t;
            if log_on() {
                log(format_args!("start {t} quantum {q}"));
            }
            futex_wake(unsafe { &(*s.t[t]).go });
            futex_wait(&s.main);
        }
        None => {}
    }
}

// ------------------------------------------------------------------------------------------ stepping

#[inline(always)]
pub fn tf_on() {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop");
    }
}

#[inline(always)]
pub fn tf_off() {
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq", "nop");
    }
}

/// Code of the harness running inside an operation (allocator, callbacks, panic hook).
pub struct Outside {
    stepping: bool,
    heap: bool,
}

impl Outside {
    #[inline(always)]
    pub fn enter() -> Outside {
        let p = ts();
        if p.is_null() {
            return Outside { stepping: false, heap: false };
        }
        let ts = unsafe { &mut *p };
        let o = Outside { stepping: ts.stepping && ts.in_op, heap: ts.heap_on };
        if o.stepping {
            tf_off();
            ts.stepping = false;
        }
        ts.heap_on = false;
        o
    }
}

impl Drop for Outside {
    #[inline(always)]
    fn drop(&mut self) {
        let p = ts();
        if p.is_null() {
            return;
        }
        let ts = unsafe { &mut *p };
        ts.heap_on = self.heap;
        if self.stepping {
            ts.stepping = true;
            tf_on();
        }
    }
}

/// Stops stepping and heap simulation for the rest of the operation (a panic unwinds through it).
pub fn op_unwinding() {
    let p = ts();
    if p.is_null() {
        return;
    }
    let ts = unsafe { &mut *p };
    if ts.stepping {
        tf_off();
        ts.stepping = false;
    }
    ts.heap_on = false;
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

pub fn text_range() -> (u64, u64) {
    unsafe { (&__executable_start as *const u8 as u64, &etext as *const u8 as u64) }
}

const REG_RDI: usize = 8;
const REG_RSI: usize = 9;
const REG_RDX: usize = 12;
const REG_RAX: usize = 13;
const REG_RIP: usize = 16;
const REG_EFL: usize = 17;
const REG_ERR: usize = 19;
const _: () = {
    let _ = REG_RDX;
};

/// One access of the library: inside its source, its destination or a live heap block, or elsewhere (stack,
/// constants).
fn watch_access(ts: &mut TState, rel: u64, addr: u64, size: u64, op: ea::Op) {
    use crate::mem::{HEAP_BASE, HEAP_SIZE, SHARED_BASE, SRC_BASE, STRIDE};
    let end = addr.wrapping_add(size);
    let what = match op {
        ea::Op::R => "reads",
        ea::Op::W => "writes",
        ea::Op::RW => "updates",
    };
    if (SRC_BASE - STRIDE..SHARED_BASE + STRIDE).contains(&addr) {
        sh().ctr[Ctr::EaChecks as usize] += 1;
        for (i, &(lo, hi, write)) in ts.may.iter().enumerate() {
            if addr >= lo && end <= hi {
                if op != ea::Op::R && !write {
                    violate_at(Class::Reach, rel, addr, format_args!("{what} bytes {}..{} of its source", addr - lo, end - lo));
                }
                if i == 1 && ts.shadow {
                    let r = (addr - lo) as usize..(end - lo) as usize;
                    if op != ea::Op::W && ts.written[r.clone()].contains(&0) {
                        violate_at(Class::Uninit, rel, addr, format_args!("{what} bytes {}..{} of its destination before they are written", r.start, r.end));
                    }
                    ts.written[r].fill(1);
                }
                return;
            }
        }
        // the nearest of the two buffers is the one it was meant for
        let off = |lo: u64| (addr as i64 - lo as i64, end as i64 - lo as i64);
        let dist = |&(lo, hi, _): &(u64, u64, bool)| if addr < lo { lo - addr } else { addr.saturating_sub(hi) };
        let i = (dist(&ts.may[1]) < dist(&ts.may[0])) as usize;
        let (lo, hi, _) = ts.may[i];
        let (a, b) = off(lo);
        violate_at(
            Class::Reach,
            rel,
            addr,
            format_args!("{what} bytes {a}..{b} of its {} of {} bytes", ["source", "destination"][i], hi - lo),
        );
    } else if (HEAP_BASE..HEAP_BASE + HEAP_SIZE as u64).contains(&addr) {
        sh().ctr[Ctr::EaChecks as usize] += 1;
        if let Err((off, n)) = crate::heap::inside(addr as usize, size as usize) {
            violate_at(Class::Reach, rel, addr, format_args!("{what} bytes {off}..{} of a heap block of {n} bytes", off + size as i64));
        }
    }
}

/// A call into libc: the functions that copy or fill get their extent checked here.
fn watch_libc(ts: &mut TState, rip: u64, g: &[i64; 23]) {
    let (d, s, n) = (g[REG_RDI] as u64, g[REG_RSI] as u64, g[REG_RDX] as u64);
    let at = |f: *const ()| rip == f as u64;
    let copies = at(libc::memcpy as *const ()) || at(libc::memmove as *const ());
    let fills = at(libc::memset as *const ());
    let compares = at(libc::memcmp as *const ()) || at(bcmp as *const ());
    if !(copies || fills || compares) {
        // a function whose accesses are not known may have written the destination
        ts.shadow = false;
    } else if n != 0 {
        if !fills {
            watch_access(ts, 0, s, n, ea::Op::R);
        }
        watch_access(ts, 0, d, n, if compares { ea::Op::R } else { ea::Op::W });
    }
}

extern "C" {
    fn bcmp(a: *const libc::c_void, b: *const libc::c_void, n: usize) -> i32;
}

unsafe extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    let g = &mut uc.uc_mcontext.gregs;
    let p = ts();
    if p.is_null() || !(*p).stepping {
        g[REG_EFL] &= !0x100;
        return;
    }
    if (*p).nested {
        // an operation on top of another one is not stepped
        g[REG_EFL] &= !0x100;
        return;
    }
    let ts = &mut *p;
    let s = sched();
    let rip = g[REG_RIP] as u64;
    if rip < s.text.0 || rip >= s.text.1 {
        // libc: no scheduling point, but counted, and a wait for another thread is noticed here
        if s.watch && !ts.in_libc {
            ts.in_libc = true;
            watch_libc(ts, rip, g);
        }
        ts.lib += 1;
        if ts.lib >= ts.lib_bound && (s.nowait || ts.lib >= 50 * ts.lib_bound) {
            violate_at(
                if s.nowait { Class::Steps } else { Class::Timeout },
                0,
                0,
                format_args!("not finished after {} instructions in libc", ts.lib),
            );
        }
        if *(rip as *const [u8; 2]) == [0x0f, 0x05]
            && g[REG_RAX] == libc::SYS_futex
            && matches!(g[REG_RSI] as i32 & 0x7f, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET | libc::FUTEX_LOCK_PI)
        {
            let w = g[REG_RDI] as *const u32;
            let would_block = *w == g[REG_RDX] as u32;
            if would_block {
                ts.waits += 1;
                if s.nowait {
                    violate_at(Class::Waits, 0, 0, format_args!("the operation waits for another thread (futex)"));
                }
                if ts.waits > 1000 {
                    violate_at(Class::Deadlock, 0, 0, format_args!("the operation waits for ever (futex)"));
                }
                let q = ts.quantum;
                Sched::switch(ts.tid, true, 3);
                if ts.quantum == 0 {
                    ts.quantum = q;
                }
            }
        }
        return;
    }
    ts.steps += 1;
    let rel = rip - s.text.0;
    let sh = sh();
    sh.ctr[Ctr::Steps as usize] += 1;
    if s.ud {
        sh.ctr[Ctr::UdChecks as usize] += 1;
        let e = cpu::classify(rip as *const u8);
        if !cpu::allows(s.machine, e) {
            violate_at(
                Class::Ud,
                rel,
                0,
                format_args!("executes an instruction of {e:?} on a machine of level {}", cpu::LEVELS[s.machine as usize]),
            );
        }
    }
    ts.in_libc = false;
    if s.watch {
        for a in ea::accesses(rip as *const u8, g).into_iter().flatten() {
            watch_access(ts, rel, a.addr, a.size as u64, a.op);
        }
    }
    if ts.steps >= ts.bound {
        if s.nowait {
            violate_at(Class::Steps, rel, 0, format_args!("not finished after {} of its own instructions", ts.steps));
        }
        if ts.steps >= 20 * ts.bound {
            violate_at(Class::Timeout, rel, 0, format_args!("not finished after {} of its own instructions", ts.steps));
        }
    }
    // a signal handler of the same thread re-enters the library
    if !s.interrupts.is_empty() {
        for i in 0..s.interrupts.len() {
            let (t, op, st, spec) = s.interrupts[i];
            if t == ts.tid && op == ts.op && st == ts.steps && !s.interrupted[i] {
                s.interrupted[i] = true;
                count(Ctr::Interrupts);
                event(3, rel, st);
                if log_on() {
                    log(format_args!("thread {t} op {op} interrupted at step {st} (+{rel:#x})"));
                }
                crate::ops::run_nested(p, &*spec);
            }
        }
    }
    for i in 0..s.stalls.len() {
        let (t, op, st, resume) = s.stalls[i];
        if t == ts.tid && op == ts.op && st == ts.steps && !s.stalled[i] {
            s.stalled[i] = true;
            count(if resume { Ctr::Stalls } else { Ctr::Kills });
            sh.inter = mix(sh.inter ^ rel ^ 0x5717);
            event(4, rel, st);
            if log_on() {
                log(format_args!("thread {t} op {op} suspended at step {st} (+{rel:#x})"));
            }
            s.status[t] = Status::Stalled;
            for o in 0..MAXT {
                if !s.t[o].is_null() {
                    (*s.t[o]).survivors = true;
                }
            }
            Sched::switch(t, true, 4);
        }
    }
    if ts.quantum > 0 {
        ts.quantum -= 1;
        if ts.quantum == 0 {
            count(Ctr::Preempts);
            if ts.first_call {
                count(Ctr::RaceFirst);
            }
            sh.inter = mix(sh.inter ^ (rel << 4) ^ (ts.op as u64));
            event(5, rel, ts.steps);
            if log_on() {
                log(format_args!("thread {} op {} preempted at step {} (+{rel:#x})", ts.tid, ts.op, ts.steps));
            }
            Sched::switch(ts.tid, false, 5);
        }
    } else if ts.steps % 20_000 == 0 {
        Sched::switch(ts.tid, true, 6); // fairness
    }
    if !s.need_steps(ts) {
        ts.stepping = false;
        g[REG_EFL] &= !0x100;
    }
}

unsafe extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    let g = &uc.uc_mcontext.gregs;
    let rip = g[REG_RIP] as u64;
    let (lo, hi) = text_range();
    let rel = if rip >= lo && rip < hi { rip - lo } else { 0 };
    let p = ts();
    let in_op = !p.is_null() && (*p).in_op;
    match sig {
        libc::SIGALRM | libc::SIGPROF => {
            // whoever received it: charge the thread that runs
            if !SCHED.is_null() && !sched().t[sched().cur].is_null() {
                let t = sched().t[sched().cur];
                (*t).steps = 0;
                set_ts(t);
            }
            violate_at(Class::Timeout, 0, 0, format_args!("no progress within the time limit"))
        }
        libc::SIGSEGV | libc::SIGBUS if in_op => {
            let addr = (*info).si_addr() as u64;
            let write = g[REG_ERR] & 2 != 0;
            let what = crate::mem::describe(addr);
            violate_at(
                Class::Segv,
                rel,
                addr,
                format_args!("{} {what}", if write { "writes" } else { "reads" }),
            );
        }
        _ if in_op => violate_at(Class::Signal, rel, 0, format_args!("signal {sig}")),
        _ => {
            // outside of an operation: the harness itself, or memory an operation has ruined
            let addr = (*info).si_addr() as u64;
            if std::env::var_os("SIM_DEBUG").is_some() {
                eprintln!("signal {sig} address {addr:#x} rip +{rel:#x}");
            }
            violate_at(Class::Signal, rel, addr, format_args!("signal {sig} outside of an operation"));
        }
    }
}

fn sigaltstack_for_faults() {
    unsafe {
        let size = 128 << 10;
        let p = libc::mmap(
            null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: size };
        libc::sigaltstack(&ss, null_mut());
    }
}

pub fn install_handlers() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fault as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGALRM, libc::SIGPROF, libc::SIGSYS] {
            libc::sigaction(s, &sa, null_mut());
        }
    }
    sigaltstack_for_faults();
}

// ------------------------------------------------------------------------------------------ pool

#[cfg(feature = "parallel")]
pub mod pool {
    use super::*;

    fn choose(n: usize) -> usize {
        let _o = Outside::enter();
        sched().choose(n)
    }

    fn steal(data: *mut (), f: unsafe fn(*mut ())) -> Option<usize> {
        let _o = Outside::enter();
        count(Ctr::PoolJoins);
        let s = sched();
        let me = unsafe { &mut *ts() };
        let h = (s.n..s.n + s.helpers).find(|&h| s.status[h] == Status::Idle)?;
        let t = unsafe { &mut *s.t[h] };
        t.job = Some((data as usize, f));
        let ticket = s.tickets.len();
        s.tickets.push(false);
        t.ticket = ticket;
        t.op = me.op;
        t.bound = me.bound;
        t.lib_bound = me.lib_bound;
        t.may = me.may;
        t.shadow = false;
        s.status[h] = Status::Runnable;
        count(Ctr::Steals);
        event(6, h as u64, 0);
        if log_on() {
            log(format_args!("thread {} gives a piece to helper {h}", me.tid));
        }
        if me.quantum == 0 {
            Sched::switch(me.tid, false, 7);
        }
        Some(ticket)
    }

    fn wait(ticket: usize) {
        let _o = Outside::enter();
        let s = sched();
        let me = unsafe { (*ts()).tid };
        while !s.tickets[ticket] {
            s.status[me] = Status::Blocked(ticket);
            Sched::switch(me, true, 8);
        }
    }

    fn yield_now() {
        let _o = Outside::enter();
        let me = unsafe { (*ts()).tid };
        Sched::switch(me, false, 9);
    }

    fn thread_index() -> Option<usize> {
        let s = sched();
        let me = unsafe { (*ts()).tid };
        Some(me % s.pool.max(1))
    }

    static HOOKS: rayon_core::Hooks = rayon_core::Hooks { choose, steal, wait, yield_now, thread_index };

    pub fn install(threads: usize) {
        rayon_core::sim_install(&HOOKS);
        rayon_core::sim_set_threads(threads);
    }

    pub fn helper_loop(me: usize) {
        loop {
            let s = sched();
            let t = unsafe { &mut *s.t[me] };
            if let Some((data, f)) = t.job.take() {
                t.steps = 0;
                t.lib = 0;
                t.in_op = true;
                t.stepping = s.step && s.need_steps(t);
                if t.stepping {
                    tf_on();
                }
                unsafe { f(data as *mut ()) };
                if t.stepping {
                    tf_off();
                }
                t.stepping = false;
                t.in_op = false;
                s.tickets[t.ticket] = true;
                s.status[me] = Status::Idle;
                for o in 0..MAXT {
                    if s.status[o] == Status::Blocked(t.ticket) {
                        s.status[o] = Status::Runnable;
                    }
                }
                event(7, me as u64, 0);
            }
            Sched::switch(me, true, 10);
        }
    }
}

pub fn need_steps(ts: &TState) -> bool {
    let s = sched();
    s.step && s.need_steps(ts)
}

pub fn setup(p: &Proc) {
    let s = Sched {
        t: [null_mut(); MAXT],
        status: [Status::Absent; MAXT],
        n: p.threads.len(),
        helpers: p.helpers as usize,
        segs: p.segs.iter().map(|&(t, q)| (t as usize, q as u64)).collect(),
        pos: 0,
        choices: p.choices.clone(),
        cpos: 0,
        machine: p.machine.max(cpu::static_level()),
        ud: p.ud,
        watch: p.watch,
        step: p.step,
        nowait: p.nowait,
        stalls: p.stalls.iter().map(|s| (s.tid as usize, s.op as usize, s.step as u64, s.resume)).collect(),
        interrupts: p.interrupts.iter().map(|s| (s.tid as usize, s.op as usize, s.step as u64, &s.spec as *const OpSpec)).collect(),
        stalled: vec![false; p.stalls.len()],
        interrupted: vec![false; p.interrupts.len()],
        main: AtomicU32::new(0),
        text: text_range(),
        resumed: false,
        cur: 0,
        pool: p.pool as usize,
        tickets: Vec::new(),
    };
    unsafe { SCHED = Box::into_raw(Box::new(s)) };
    let s = sched();
    for t in 0..s.n + s.helpers {
        s.t[t] = Box::into_raw(Box::new(TState::new(t)));
        s.status[t] = if t < s.n { Status::Runnable } else { Status::Idle };
    }
}

pub fn digest(b: &[u8]) -> u64 {
    fnv(FNV0, b)
}
