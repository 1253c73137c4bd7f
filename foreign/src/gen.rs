//! Seed to scenario.

use crate::model;
use crate::rng::Rng;
use crate::steps::{Kind, Step, OPS};
use crate::Scenario;
use alloc::vec;
use alloc::vec::Vec;

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.us(4);
    let c = r.next() as u8;
    (0..n)
        .map(|i| match mode {
            0 | 1 => r.next() as u8,
            2 => [0, 0x7f, 0x80, 0xff, c][r.us(5)],
            _ => (i as u8).wrapping_mul(c | 1),
        })
        .collect()
}

fn length(r: &mut Rng, max: usize) -> usize {
    match r.us(8) {
        6 | 7 if max > 5000 => (r.us(max >> 13) << 13) + r.us(70),
        5 if max > 5000 => max - r.us(5000),
        0 => r.us(5),
        1 | 2 => (r.us(9) * 16 + r.us(5)).saturating_sub(2).min(max),
        3 | 4 => r.us(40),
        _ => r.logu(max),
    }
}

/// A character that is easily taken for another one.
fn confusable(r: &mut Rng, c: u8) -> u8 {
    match r.us(6) {
        0 => r.next() as u8,
        1 => c ^ 1 << r.us(8),
        2 => c.wrapping_add([1, 0xff][r.us(2)]),
        3 => r.pick(b"+/-_=:;<@[`{|gGzZ01289 \t\n\r\x0b\x0c\x00\x7f"),
        4 => c ^ 0x80,
        _ => r.pick(&[0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x5e, 0x5f, 0x60, 0x61, 0x7a, 0x7b]),
    }
}

fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 2) {
        if b.is_empty() {
            return;
        }
        let i = if r.one_in(3) { b.len() - 1 - r.us(b.len().min(9)) } else { r.us(b.len()) };
        match r.us(8) {
            0 => {
                b.remove(i);
            }
            1 => b.insert(i, b'='),
            _ => b[i] = confusable(r, b[i]),
        }
    }
}

fn input(r: &mut Rng, kind: Kind, v: u8, max: usize) -> Vec<u8> {
    let n = length(r, max);
    let mut b = match kind {
        Kind::Bytes => return bytes(r, n),
        Kind::Sixteen => return bytes(r, 16),
        Kind::B64 => model::b64_encode(v, &bytes(r, n)),
        Kind::B32 => model::b32_encode(v, &bytes(r, n)),
        Kind::Hex => {
            let mut b = model::hex_encode(r.one_in(2), &bytes(r, n));
            if r.one_in(2) {
                b.iter_mut().for_each(|c| {
                    if r.one_in(3) {
                        *c = c.to_ascii_uppercase()
                    }
                });
            }
            b
        }
        Kind::Forg => {
            let mut b = model::b64_encode(r.pick(&[0, 2]), &bytes(r, n));
            for _ in 0..r.pick(&[0, 1, 1, 2, 5]) {
                let at = r.us(b.len() + 1);
                b.insert(at, r.pick(b" \t\n\x0c\r"));
            }
            b
        }
        Kind::Uuid => {
            let u = bytes(r, 16);
            let h = model::uuid_format(true, r.one_in(2), &u);
            match r.us(4) {
                0 => model::uuid_format(false, r.one_in(2), &u),
                1 => h,
                2 => [&b"{"[..], &h, b"}"].concat(),
                _ => [&b"urn:uuid:"[..], &h].concat(),
            }
        }
        Kind::Ascii => bytes(r, n).iter().map(|b| b & 0x7f).collect(),
        Kind::Units => {
            let mut b = vec![];
            for _ in 0..n / 4 {
                let x = r.pick(&[0, 0x7f, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x4e00]);
                b.extend_from_slice(&(x as u32).to_le_bytes());
            }
            if r.one_in(2) && n >= 4 {
                let i = r.us(n / 4);
                let x: u32 = r.pick(&[0xd800, 0xdfff, 0x110000, 0xffff_ffff, 0x8000_0000, 0xdc00, 0x7fff_ffff]);
                // or one beside a border of the scalar values (or of what an arithmetic test makes of them)
                let e: u32 = r.pick(&[0, 0x800, 0xd800, 0xe000, 0x1_0000, 0x11_0000, 0x11_d800, 0x10_2800]);
                let d: u32 = if r.one_in(2) { r.us(0x201) as u32 } else { 1 << r.us(32) };
                let e = if r.one_in(2) { e.wrapping_add(d) } else { e.wrapping_sub(d) };
                let x = if r.one_in(2) { x } else { e };
                b[4 * i..4 * i + 4].copy_from_slice(&x.to_le_bytes());
            }
            return b;
        }
    };
    if r.one_in(2) {
        damage(r, &mut b);
    }
    if kind == Kind::Ascii && r.one_in(3) && !b.is_empty() {
        let i = r.us(b.len());
        b[i] |= 0x80;
    }
    b
}

fn step(r: &mut Rng, ops: &[usize], max: usize, faults: bool) -> Step {
    let op = ops[r.us(ops.len())];
    let variant = r.next() as u8;
    let place = r.next() as u8;
    let input = input(r, OPS[op].2, variant, max);
    let mut st = Step { op, variant, place, input, ..Default::default() };
    st.slack = match r.us(6) {
        0 => -(r.range(1, 3) as i32),
        1 => r.range(1, 40) as i32,
        _ => 0,
    };
    if faults && r.one_in(6) {
        st.fail = r.range(1, 2) as u32;
    }
    st.complete()
}

/// `threads`: may have more than one thread, and failing allocations.
pub fn scenario(seed: u64, threads: bool, max: usize) -> Scenario {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let all: Vec<usize> = (0..OPS.len()).collect();
    let lending: Vec<usize> = all.iter().copied().filter(|o| OPS[*o].0.takes_a_destination()).collect();
    let shape = if threads { r.us(4) } else { 0 };
    let n = match shape {
        0 => 1,
        _ => r.range(2, 3),
    };
    let mut sc = Scenario { shared: shape == 3, threads: vec![] };
    let ops = if sc.shared { &lending } else { &all };
    // in shape 1 everyone's first call is of the same function
    let first = [ops[r.us(ops.len())]];
    for _ in 0..n {
        let mut steps = vec![];
        let k = if max > 500_000 {
            1
        } else if n == 1 {
            r.range(4, 12)
        } else {
            r.range(1, 4)
        };
        for j in 0..k {
            steps.push(step(r, if j == 0 && shape == 1 { &first } else { ops }, max, threads));
        }
        if sc.shared {
            steps.iter_mut().for_each(|s| s.slack = s.slack.max(-1));
        }
        sc.threads.push(steps);
    }
    sc
}
