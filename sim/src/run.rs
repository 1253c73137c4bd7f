//! Executes a scenario: one forked child per simulated process.

use crate::heap;
use crate::mem;
use crate::ops::{self, Ctx, Prep};
use crate::rt::{self, sh, Class, Ctr, Shared, Status, MAIL, MAIL_CAP};
use crate::scen::{Base, Proc, Scenario};
use crate::{cpu, model};
use std::ptr::null_mut;

pub struct Outcome {
    pub class: u32,
    pub msg: String,
    pub hash: u64,
    pub inter: u64,
    pub proc_: u32,
    pub tid: u32,
    pub op: u32,
    pub step: u64,
    pub log: String,
    /// the machinery itself failed
    pub harness: Option<String>,
}

pub fn init() {
    // std keeps what it detects: the children must find the same in every mode
    let _ = cpu::host_level();
    unsafe {
        let p = libc::mmap(
            null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        rt::SHARED = p as *mut Shared;
    }
    mem::init();
    rt::install_handlers();
}

/// Runs a scenario. Coverage is left in the shared page.
pub fn scenario(sc: &Scenario, log: bool) -> Outcome {
    let s = sh();
    s.class = 0;
    s.msg_len = 0;
    s.hash = 0;
    s.inter = 0;
    s.step = 0;
    s.rip = 0;
    s.addr = 0;
    s.tid = 0;
    s.op = 0;
    s.ctr = [0; Ctr::Count as usize];
    s.nstates = 0;
    s.log_on = log as u32;
    s.log_len = 0;
    for m in &mut s.mail {
        m.len = 0;
        m.set = 0;
    }
    s.last_mail = 0;
    let mut harness = None;
    for (i, p) in sc.procs.iter().enumerate() {
        s.proc_ = i as u32;
        s.done = 0;
        if i > 0 {
            rt::count(Ctr::Restarts);
            rt::event(30, i as u64, p.machine as u64);
        }
        if log {
            rt::log(format_args!("process {i} on a machine of level {}", cpu::LEVELS[p.machine as usize]));
        }
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            harness = Some("fork failed".into());
            break;
        }
        if pid == 0 {
            child(p);
        }
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
        }
        if s.done == 2 {
            break;
        }
        if s.done == 3 {
            harness = Some(String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned());
            break;
        }
        if s.done != 1 {
            if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL {
                harness = Some("a simulated process was killed from outside".into());
                break;
            }
            let text = if libc::WIFSIGNALED(st) {
                format!("the process died of signal {}", libc::WTERMSIG(st))
            } else {
                format!("the process ended with status {}", libc::WEXITSTATUS(st))
            };
            s.class = Class::Signal as u32;
            let b = text.as_bytes();
            s.msg[..b.len()].copy_from_slice(b);
            s.msg_len = b.len() as u32;
            break;
        }
    }
    for m in &s.mail {
        if m.set == 1 {
            rt::count(Ctr::MsgLost);
        }
    }
    Outcome {
        class: s.class,
        msg: String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned(),
        hash: s.hash,
        inter: s.inter,
        proc_: s.proc_,
        tid: s.tid,
        op: s.op,
        step: s.step,
        log: String::from_utf8_lossy(&s.log[..s.log_len as usize]).into_owned(),
        harness,
    }
}

pub fn harness_error(args: std::fmt::Arguments<'_>) -> ! {
    let s = sh();
    let text = args.to_string();
    let n = text.len().min(s.msg.len());
    s.msg[..n].copy_from_slice(&text.as_bytes()[..n]);
    s.msg_len = n as u32;
    s.done = 3;
    unsafe { libc::_exit(0) }
}

/// The watchdogs: processor time for loops, real time for waits which the stepper does not see.
fn watchdogs() {
    unsafe {
        let t = |s: i64| libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: s, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &t(12), null_mut());
        libc::setitimer(libc::ITIMER_REAL, &t(40), null_mut());
    }
}

static mut CTXS: Vec<Ctx> = Vec::new();

struct Job {
    tid: usize,
    rounds: u32,
    tail: usize,
    preps: *mut Vec<Prep>,
    cx: *mut Ctx,
}
unsafe impl Send for Job {}

fn sim_thread(j: Job) {
    let (tid, preps, cx) = unsafe { (j.tid, &mut *j.preps, &mut *j.cx) };
    let ts = rt::sched().t[tid];
    rt::thread_start(ts);
    let tsr = unsafe { &mut *ts };
    for round in 1..=j.rounds {
        let end = if round == j.rounds { preps.len() } else { preps.len().saturating_sub(j.tail) };
        for (i, p) in preps[..end].iter_mut().enumerate() {
            tsr.op = i;
            let out = ops::run(cx, p, tid);
            channel(p, out.as_deref());
            if p.shared.is_some() {
                if let Some(o) = out {
                    p.out = o;
                }
            }
            rt::op_boundary();
        }
    }
    cx.finish();
    rt::thread_end(tid);
}

/// The channel between processes: sends what was asked for, and judges what came through undamaged.
fn channel(p: &Prep, out: Option<&[u8]>) {
    let spec = unsafe { &*p.spec };
    let s = sh();
    if let (true, Some(o)) = (spec.mail >= 0, out) {
        let m = &mut s.mail[spec.mail as usize % MAIL];
        if o.len() <= MAIL_CAP {
            rt::count(Ctr::MsgSent);
            m.data[..o.len()].copy_from_slice(o);
            m.len = o.len() as u32;
            m.set = 1;
            m.digest = rt::digest(&p.src);
        }
    }
    match &spec.input.base {
        Base::Mail(i) => {
            if (*i as u32) < s.last_mail {
                rt::count(Ctr::MsgReorder);
            }
            s.last_mail = *i as u32;
            let m = &mut s.mail[*i as usize % MAIL];
            if spec.input.edits.is_empty() {
                rt::count(Ctr::MsgIntact);
                m.set += 1;
                if m.set > 2 {
                    rt::count(Ctr::MsgDup);
                }
                if p.meaning == ops::Exp::Err {
                    rt::violate(Class::Channel, format_args!("an intact message is not a valid encoding"));
                }
                if let Some(o) = out {
                    if m.set >= 2 && rt::digest(o) != m.digest {
                        rt::violate(Class::Channel, format_args!("an intact message decodes to other bytes than were sent"));
                    }
                }
            } else {
                rt::count(Ctr::MsgDamaged);
                still_an_encoding(p, out);
            }
        }
        Base::Splice(..) => {
            rt::count(Ctr::MsgDamaged);
            still_an_encoding(p, out);
        }
        _ => {}
    }
}

/// A damaged message that decodes must be the encoding of what it decodes to.
fn still_an_encoding(p: &Prep, out: Option<&[u8]>) {
    let spec = unsafe { &*p.spec };
    let Some(o) = out else { return };
    let ok = match spec.kind.codec() {
        ops::Codec::B64 => model::b64_encode(spec.var, o) == p.src,
        ops::Codec::B32 => model::b32_encode(spec.var, o) == p.src,
        ops::Codec::Hex => model::hex_encode(false, o) == p.src.to_ascii_lowercase(),
        ops::Codec::Uuid => {
            let t = p.src.to_ascii_lowercase();
            let h = model::uuid_format(true, false, o);
            t == model::uuid_format(false, false, o)
                || t == h
                || t == [b"{", &h[..], b"}"].concat()
                || p.src.starts_with(b"urn:uuid:") && t[9..] == h[..]
        }
        _ => true,
    };
    if !ok {
        rt::violate(Class::Channel, format_args!("{}: a damaged message decodes without being an encoding", ops::name_of(spec)));
    }
}

#[allow(static_mut_refs)]
fn child(p: &Proc) -> ! {
    watchdogs();
    cpu::set_machine(p.machine);
    heap::configure(p.heap);
    ops::install_panic_hooks();
    rt::setup(p);
    #[cfg(feature = "parallel")]
    rt::pool::install(p.pool as usize);
    let mut preps: Vec<Vec<Prep>> = p.threads.iter().map(|t| t.iter().map(ops::prepare).collect()).collect();
    let gaps = if p.shared { shared_layout(&mut preps) } else { Vec::new() };
    unsafe { CTXS = (0..p.threads.len()).map(|_| Ctx::new()).collect() };
    let s = rt::sched();
    for (tid, v) in preps.iter_mut().enumerate() {
        let j = Job { tid, rounds: p.rounds, tail: p.tail as usize, preps: v, cx: unsafe { &mut CTXS[tid] } };
        if std::thread::Builder::new().stack_size(1 << 20).spawn(move || sim_thread(j)).is_err() {
            harness_error(format_args!("cannot start a thread"));
        }
    }
    #[cfg(feature = "parallel")]
    for h in s.n..s.n + s.helpers {
        let r = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            rt::thread_start(rt::sched().t[h]);
            rt::pool::helper_loop(h);
        });
        if r.is_err() {
            harness_error(format_args!("cannot start a thread"));
        }
    }
    rt::run_all();

    // everyone has finished or is suspended for ever
    let killed = (0..s.n).any(|t| s.status[t] != Status::Done);
    if (0..s.n).any(|t| !matches!(s.status[t], Status::Done | Status::Stalled)) {
        rt::violate(Class::Deadlock, format_args!("a thread did not finish"));
    }
    if !killed {
        let live: i64 = s.t.iter().filter(|t| !t.is_null()).map(|t| unsafe { (**t).live }).sum();
        let kept: i64 = unsafe { CTXS.iter().map(|c| c.leaks as i64).sum() };
        if live != 0 && kept == 0 {
            rt::violate(Class::Leak, format_args!("{live} heap blocks are left when everything has been dropped"));
        }
    }
    ops::check_heap();
    if p.shared {
        shared_check(&preps, &gaps, killed);
    }
    sh().done = 1;
    unsafe { libc::_exit(0) }
}

fn gap_byte(a: usize) -> u8 {
    (a as u8).wrapping_mul(0x47) ^ 0x1d
}

/// Lays the slices of all threads next to each other, alternating between threads.
fn shared_layout(preps: &mut [Vec<Prep>]) -> Vec<(usize, usize)> {
    let base = mem::SHARED_BASE as usize;
    let end = base + mem::SHARED_SIZE;
    unsafe {
        let mut a = base;
        while a < end {
            *(a as *mut u8) = gap_byte(a);
            a += 1;
        }
    }
    let total = preps.iter().map(|t| t.iter().map(|p| p.src.len() + p.dst_len + 16).sum::<usize>()).sum::<usize>();
    if total + 64 > mem::SHARED_SIZE {
        return Vec::new();
    }
    let mut gaps = Vec::new();
    // the last piece ends at the unmapped page
    let mut at = (end - total) & !15;
    let mut last = at;
    let mut put = |len: usize, align: usize, gaps: &mut Vec<(usize, usize)>| {
        at = (at + align - 1) & !(align - 1);
        let p = at;
        at += len;
        if p > last {
            gaps.push((last, p));
        }
        last = at;
        p as *mut u8
    };
    let n = preps.iter().map(|t| t.len()).max().unwrap_or(0);
    for i in 0..n {
        for t in preps.iter_mut() {
            if let Some(p) = t.get_mut(i) {
                let spec = unsafe { &*p.spec };
                let al = spec.kind.align();
                let d = if spec.kind.has_dst() { put(p.dst_len, al, &mut gaps) } else { null_mut() };
                let s = put(p.src.len(), al, &mut gaps);
                p.shared = Some((s, if d.is_null() { s } else { d }));
            }
        }
    }
    let front = (end - total) & !15;
    gaps.push((front - 64, front));
    gaps
}

fn shared_check(preps: &[Vec<Prep>], gaps: &[(usize, usize)], killed: bool) {
    for &(a, b) in gaps {
        for q in a..b {
            if unsafe { *(q as *const u8) } != gap_byte(q) {
                rt::violate(Class::Shared, format_args!("a byte between two slices was written"));
            }
        }
    }
    for (t, v) in preps.iter().enumerate() {
        if killed && rt::sched().status[t] != Status::Done {
            continue;
        }
        for (i, p) in v.iter().enumerate() {
            let Some((s, d)) = p.shared else { continue };
            let spec = unsafe { &*p.spec };
            let (src, out) = unsafe { (std::slice::from_raw_parts(s, p.src.len()), std::slice::from_raw_parts(d, p.out.len())) };
            if !spec.kind.inplace() && src != &p.src[..] {
                rt::violate(Class::Shared, format_args!("the source of thread {t} op {i} was overwritten by a neighbour"));
            }
            if spec.kind.inplace() && matches!(&p.exp, ops::Exp::Bytes(b) if src[..b.len().min(src.len())] != b[..]) {
                rt::violate(Class::Shared, format_args!("the result of thread {t} op {i} was overwritten by a neighbour"));
            }
            if spec.kind.has_dst() && out != &p.out[..] {
                rt::violate(Class::Shared, format_args!("the result of thread {t} op {i} was overwritten by a neighbour"));
            }
        }
    }
}
