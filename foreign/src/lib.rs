//! The library on machines other than the host: interpreted (AArch64, 32-bit, big-endian), in a WebAssembly
//! engine, or translated to the host's instructions.
#![no_std]
extern crate alloc;

pub mod gen;
pub mod mem;
#[path = "../../sim/src/model.rs"]
pub mod model;
#[path = "../../sim/src/rng.rs"]
pub mod rng;
pub mod steps;

#[cfg(any(target_arch = "wasm32", sim_embedded))]
mod embedded;
#[cfg(any(target_arch = "wasm32", sim_embedded))]
mod vast;

use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use steps::{Step, OPS};

/// What the machine around the library can do.
pub trait Env {
    /// Runs `f` with its `nth` allocation failing: (it panicked, the fault was met)
    fn failing(&self, nth: u32, f: &mut dyn FnMut()) -> (bool, bool);
}

pub struct Scenario {
    /// the destinations of all threads are pieces of one allocation
    pub shared: bool,
    pub threads: Vec<Vec<Step>>,
}

impl Scenario {
    /// `shared;op,variant,slack,fail,place,hex;...|...`
    pub fn text(&self) -> String {
        let mut s = String::from(if self.shared { "shared" } else { "own" });
        for t in &self.threads {
            s.push('|');
            for st in t {
                s.push_str(&format!(
                    "{},{},{},{},{},{};",
                    OPS[st.op].1,
                    st.variant,
                    st.slack,
                    st.fail,
                    st.place,
                    hex(&st.input)
                ));
            }
        }
        s
    }

    pub fn parse(s: &str) -> Option<Scenario> {
        let mut parts = s.split('|');
        let shared = parts.next()? == "shared";
        let mut threads = Vec::new();
        for t in parts {
            let mut steps = Vec::new();
            for st in t.split(';').filter(|x| !x.is_empty()) {
                let f: Vec<&str> = st.split(',').collect();
                let op = OPS.iter().position(|o| o.1 == f[0])?;
                let h = f.get(5)?.as_bytes();
                let input = h
                    .chunks(2)
                    .map(|c| u8::from_str_radix(core::str::from_utf8(c).ok()?, 16).ok())
                    .collect::<Option<Vec<u8>>>()?;
                steps.push(Step {
                    op,
                    variant: f[1].parse().ok()?,
                    slack: f[2].parse().ok()?,
                    fail: f[3].parse().ok()?,
                    place: f[4].parse().ok()?,
                    input,
                    ..Default::default()
                }
                .complete());
            }
            threads.push(steps);
        }
        Some(Scenario { shared, threads })
    }
}

/// Scenarios as they are handed to the interpreted machine: complete, so that it has nothing to compute.
pub mod wire {
    use super::*;

    fn n(out: &mut Vec<u8>, x: usize) {
        out.extend_from_slice(&(x as u32).to_le_bytes());
    }
    fn blob(out: &mut Vec<u8>, b: Option<&[u8]>) {
        n(out, b.map_or(u32::MAX as usize, |b| b.len()));
        out.extend_from_slice(b.unwrap_or(&[]));
    }

    pub fn write(out: &mut Vec<u8>, sc: &Scenario) {
        n(out, sc.shared as usize);
        n(out, sc.threads.len());
        for t in &sc.threads {
            n(out, t.len());
            for s in t {
                n(out, s.op);
                n(out, s.variant as usize);
                n(out, s.slack as u32 as usize);
                n(out, s.fail as usize);
                n(out, s.place as usize);
                n(out, s.room.unwrap_or(u32::MAX as usize));
                blob(out, Some(&s.input));
                blob(out, s.want.as_deref());
            }
        }
    }

    fn get(b: &mut &[u8]) -> u32 {
        let (x, rest) = b.split_at(4);
        *b = rest;
        u32::from_le_bytes([x[0], x[1], x[2], x[3]])
    }
    fn bytes(b: &mut &[u8]) -> Option<Vec<u8>> {
        let k = get(b);
        if k == u32::MAX {
            return None;
        }
        let (x, rest) = b.split_at(k as usize);
        *b = rest;
        Some(x.to_vec())
    }

    pub fn read(b: &mut &[u8]) -> Scenario {
        let shared = get(b) != 0;
        let threads = (0..get(b))
            .map(|_| {
                (0..get(b))
                    .map(|_| Step {
                        op: get(b) as usize,
                        variant: get(b) as u8,
                        slack: get(b) as i32,
                        fail: get(b),
                        place: get(b) as u8,
                        room: Some(get(b)).filter(|x| *x != u32::MAX).map(|x| x as usize),
                        input: bytes(b).unwrap_or_default(),
                        want: bytes(b),
                    })
                    .collect()
            })
            .collect();
        Scenario { shared, threads }
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
