//! The library under the interpreter: one process of the simulated machine. Scenarios come on standard input;
//! an argument gives the features which the machine reports.
#![feature(alloc_error_hook)]

use foreign::steps::OPS;
use foreign::{rng, Env, Scenario};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

thread_local! {
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}

struct Failing;
unsafe impl GlobalAlloc for Failing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if fails() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if fails() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

fn fails() -> bool {
    LEFT.try_with(|l| {
        let n = l.get();
        if n > 0 {
            l.set(n - 1);
        }
        if n == 1 {
            FIRED.with(|f| f.set(true));
        }
        n == 1
    })
    .unwrap_or(false)
}

#[global_allocator]
static A: Failing = Failing;

struct Machine;
impl Env for Machine {
    fn failing(&self, nth: u32, f: &mut dyn FnMut()) -> (bool, bool) {
        FIRED.with(|x| x.set(false));
        LEFT.with(|x| x.set(nth));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        LEFT.with(|x| x.set(0));
        (r.is_err(), FIRED.with(|x| x.get()))
    }
}

/// The order in which operations began and ended, over all threads.
static ORDER: AtomicUsize = AtomicUsize::new(0);
static ORDER_HASH: AtomicUsize = AtomicUsize::new(0);

fn tick(t: usize, j: usize, end: bool) {
    let n = ORDER.fetch_add(1, Relaxed);
    ORDER_HASH.fetch_add(rng::mix((n as u64) << 20 | (t as u64) << 12 | (j as u64) << 1 | end as u64) as usize, Relaxed);
}

fn play(sc: &Scenario) -> Result<(u64, u64), String> {
    let rooms: Vec<Vec<usize>> = sc
        .threads
        .iter()
        .map(|t| t.iter().map(|s| (s.room.unwrap_or(0) as i64 + s.slack as i64).max(0) as usize).collect())
        .collect();
    let total = if sc.shared { rooms.iter().flatten().sum() } else { 0 };
    let mut buf: Vec<MaybeUninit<u8>> = Vec::with_capacity(total);
    unsafe { buf.set_len(total) };
    let mut rest = &mut buf[..];
    let mut results = Vec::new();
    std::thread::scope(|scope| {
        let mut handles = Vec::new();
        // neighbours in memory belong to different threads
        let mut lent: Vec<Vec<&mut [MaybeUninit<u8>]>> = sc.threads.iter().map(|_| Vec::new()).collect();
        for j in 0..rooms.iter().map(|r| r.len()).max().unwrap_or(0) {
            for (t, r) in rooms.iter().enumerate() {
                if sc.shared && j < r.len() {
                    let (a, b) = std::mem::take(&mut rest).split_at_mut(r[j]);
                    lent[t].push(a);
                    rest = b;
                }
            }
        }
        for ((t, steps), lent) in sc.threads.iter().enumerate().zip(lent) {
            let body = move || {
                let mut lent = lent.into_iter();
                let mut h = rng::FNV0;
                for (j, st) in steps.iter().enumerate() {
                    tick(t, j, false);
                    let r = st.run(&Machine, lent.next());
                    tick(t, j, true);
                    match r {
                        Ok(x) => h = rng::fnv(h, &x.to_le_bytes()),
                        Err(m) => return Err(format!("thread {t} step {j} {} {m}", OPS[st.op].1)),
                    }
                }
                Ok(h)
            };
            if sc.threads.len() == 1 {
                results.push(body());
            } else {
                handles.push(scope.spawn(body));
            }
        }
        for h in handles {
            results.push(h.join().unwrap_or_else(|p| {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                Err(format!("panicked: {}", m.unwrap_or_default()))
            }));
        }
    });
    let mut h = rng::FNV0;
    for r in results {
        h = rng::fnv(h, &r?.to_le_bytes());
    }
    Ok((h, ORDER_HASH.load(Relaxed) as u64))
}

fn main() {
    std::alloc::set_alloc_error_hook(|_| panic!("allocation failed"));
    #[cfg(all(feature = "detect", vsimd_sim))]
    if let Some(x) = std::env::args().nth(1).and_then(|x| x.parse().ok()) {
        vsimd::sim::set_machine(x);
    }
    let mut data = Vec::new();
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut data).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut rest = &data[..];
    for i in 0.. {
        if rest.is_empty() {
            break;
        }
        let sc = foreign::wire::read(&mut rest);
        println!("BEGIN {i}");
        match play(&sc) {
            Ok((h, o)) => println!("END {i} {h:016x} {o:016x}"),
            Err(m) => {
                println!("BAD {i} {m}");
                std::process::exit(3);
            }
        }
    }
}
