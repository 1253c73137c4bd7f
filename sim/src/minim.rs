//! Shrinks a failing scenario while it keeps failing in the same way.

use crate::heap::HeapCfg;
use crate::run;
use crate::scen::{Base, OpSpec, Proc, Scenario};
use std::time::{Duration, Instant};

struct M {
    best: Scenario,
    class: u32,
    end: Instant,
    runs: u32,
}

impl M {
    fn over(&self) -> bool {
        Instant::now() >= self.end
    }

    fn attempt(&mut self, c: Scenario) -> bool {
        if self.over() || c == self.best {
            return false;
        }
        self.runs += 1;
        let o = run::scenario(&c, false);
        if o.harness.is_none() && o.class == self.class {
            self.best = c;
            true
        } else {
            false
        }
    }

    fn with(&mut self, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.attempt(c)
    }

    /// Removes runs of elements of a list, long ones first.
    fn thin(&mut self, len: impl Fn(&Scenario) -> usize, cut: impl Fn(&mut Scenario, usize, usize)) {
        let mut size = len(&self.best).next_power_of_two();
        while size >= 1 {
            let mut at = 0;
            while at < len(&self.best) {
                if self.over() {
                    return;
                }
                let n = size.min(len(&self.best) - at);
                if !self.with(|s| cut(s, at, n)) {
                    at += n;
                }
            }
            size /= 2;
        }
    }
}

fn remove_ops(p: &mut Proc, t: usize, at: usize, n: usize) {
    p.threads[t].drain(at..at + n);
    let fix = |tid: u32, op: &mut u32| -> bool {
        if tid as usize != t || (*op as usize) < at {
            true
        } else if (*op as usize) < at + n {
            false
        } else {
            *op -= n as u32;
            true
        }
    };
    p.stalls.retain_mut(|s| fix(s.tid, &mut s.op));
    p.interrupts.retain_mut(|s| fix(s.tid, &mut s.op));
}

fn simplify(m: &mut M, get: &dyn Fn(&mut Scenario) -> Option<&mut OpSpec>) {
    let mut set = |f: &dyn Fn(&mut OpSpec)| {
        m.with(|s| {
            if let Some(o) = get(s) {
                f(o)
            }
        })
    };
    // edits, one by one from the end
    let mut i = 8;
    while i > 0 {
        i -= 1;
        set(&|o| {
            if i < o.input.edits.len() {
                o.input.edits.remove(i);
            }
        });
    }
    set(&|o| o.post = 0);
    set(&|o| o.fail = (0, 0));
    set(&|o| o.retry = false);
    set(&|o| o.asref = 0);
    set(&|o| o.ro = false);
    set(&|o| o.dlen = 0);
    set(&|o| o.sp = 0);
    set(&|o| o.sp = -1);
    set(&|o| o.dp = 0);
    set(&|o| o.dp = -1);
    set(&|o| o.poison = 0);
    set(&|o| o.prefix = 0);
    set(&|o| o.fresh = -1);
    set(&|o| o.slot = 0);
    set(&|o| o.var = 0);
    set(&|o| {
        if let Base::Gen { kind, seed, .. } = &mut o.input.base {
            *kind = 1;
            *seed = 0x41;
        }
    });
    for k in 0..7 {
        set(&|o| o.x[k] = 0);
    }
    // length: halve, then step down in ever smaller steps
    let mut step = 1u32 << 19;
    while step > 0 {
        while set(&|o| {
            if let Base::Gen { len, .. } = &mut o.input.base {
                if *len >= step {
                    *len -= step;
                }
            }
        }) {}
        step /= 2;
    }
}

/// Returns the number of runs it took.
pub fn minimise(sc: &Scenario, class: u32, limit: Duration) -> (Scenario, u32) {
    let mut m = M { best: sc.clone(), class, end: Instant::now() + limit, runs: 0 };
    let mut before = String::new();
    for _round in 0..4 {
        let now = m.best.json().text();
        if now == before || m.over() {
            break;
        }
        before = now;
        // processes
        m.thin(|s| s.procs.len(), |s, at, n| {
            s.procs.drain(at..at + n);
        });
        for p in 0..m.best.procs.len() {
            // whole threads (their numbers stay)
            for t in 0..m.best.procs[p].threads.len() {
                m.with(|s| {
                    let n = s.procs[p].threads[t].len();
                    remove_ops(&mut s.procs[p], t, 0, n);
                });
            }
            while m.best.procs[p].threads.len() > 1 && m.best.procs[p].threads.last().unwrap().is_empty() && m.best.procs[p].helpers == 0 {
                if !m.with(|s| {
                    s.procs[p].threads.pop();
                }) {
                    break;
                }
            }
            let mut less = m.best.procs[p].rounds / 2;
            while less > 0 {
                while m.with(|s| s.procs[p].rounds = s.procs[p].rounds.saturating_sub(less).max(1)) {}
                less /= 2;
            }
            while m.best.procs[p].tail > 0 && m.with(|s| {
                s.procs[p].tail -= 1;
                for t in 0..s.procs[p].threads.len() {
                    let n = s.procs[p].threads[t].len();
                    if n > 0 {
                        remove_ops(&mut s.procs[p], t, n - 1, 1);
                    }
                }
            }) {}
            for t in 0..m.best.procs[p].threads.len() {
                m.thin(|s| s.procs[p].threads[t].len(), |s, at, n| remove_ops(&mut s.procs[p], t, at, n));
            }
            m.thin(|s| s.procs[p].interrupts.len(), |s, at, n| {
                s.procs[p].interrupts.drain(at..at + n);
            });
            m.thin(|s| s.procs[p].stalls.len(), |s, at, n| {
                s.procs[p].stalls.drain(at..at + n);
            });
            m.with(|s| s.procs[p].segs.clear());
            m.thin(|s| s.procs[p].segs.len(), |s, at, n| {
                s.procs[p].segs.drain(at..at + n);
            });
            m.with(|s| s.procs[p].choices.clear());
            m.thin(|s| s.procs[p].choices.len(), |s, at, n| {
                s.procs[p].choices.drain(at..at + n);
            });
            m.with(|s| s.procs[p].helpers = 0);
            m.with(|s| s.procs[p].pool = 2);
            m.with(|s| s.procs[p].shared = false);
            m.with(|s| s.procs[p].ud = false);
            m.with(|s| s.procs[p].watch = false);
            m.with(|s| s.procs[p].nowait = false);
            m.with(|s| s.procs[p].step = false);
            m.with(|s| s.procs[p].heap = HeapCfg::default());
            for t in 0..m.best.procs[p].threads.len() {
                for o in 0..m.best.procs[p].threads[t].len().min(12) {
                    simplify(&mut m, &move |s: &mut Scenario| s.procs.get_mut(p)?.threads.get_mut(t)?.get_mut(o));
                }
            }
            for i in 0..m.best.procs[p].interrupts.len() {
                simplify(&mut m, &move |s: &mut Scenario| Some(&mut s.procs.get_mut(p)?.interrupts.get_mut(i)?.spec));
            }
        }
    }
    (m.best, m.runs)
}
