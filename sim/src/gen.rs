//! From one seed to one scenario.

use crate::cpu;
use crate::heap::HeapCfg;
use crate::ops::{Codec, Kind, Takes, KINDS};
use crate::rng::{mix, Rng};
use crate::scen::{Base, Edit, Input, Interrupt, OpSpec, Proc, Scenario, Stall};

pub fn parallel() -> bool {
    cfg!(feature = "parallel")
}

pub fn detecting() -> bool {
    cfg!(feature = "detect")
}

/// The kinds this build has.
fn kinds(f: impl Fn(Kind) -> bool) -> Vec<Kind> {
    KINDS
        .iter()
        .copied()
        .filter(|&k| f(k) && (k != Kind::B64Par || parallel()) && (k != Kind::NatExec || detecting()))
        .collect()
}

struct G {
    r: Rng,
    host: u8,
    /// swarm: switched on for a whole run or not at all
    o_fail: bool,
    o_asref: bool,
    o_sink: bool,
    o_post: bool,
    o_damage: u64,
    o_short: u64,
    o_ro: bool,
    max_len: usize,
    /// offsets that matter: None: everything
    place: u8,
}

const SPECIAL: &[u8] = &[
    b'=', b'+', b'/', b'-', b'_', b' ', b'\n', b'\r', b'\t', 0x0b, 0x0c, 0x00, 0x7f, 0x80, 0xff, b'@', b'[', b'`', b'{', b'}', b':', b'g', b'G',
    b'0', b'9', b'1', b'8', b'a', b'z', b'A', b'Z', b'f', b'F', b'2', b'7', b'V', b'W', b'v', 0xa0, 0x85, b'.', b',', b'*', b'^', b'~', 0xc1, 0xe1, 0xb0,
];

impl G {
    fn seed(&mut self) -> u64 {
        self.r.next() & 0x7fff_ffff_ffff
    }

    fn len(&mut self) -> usize {
        let m = self.max_len;
        let n = match self.r.below(20) {
            0..=7 => self.r.us(200),
            8..=10 => self.r.us(20),
            11..=15 => {
                // around a multiple of a block
                let b = self.r.pick(&[3, 5, 12, 15, 16, 20, 24, 30, 32, 40, 48, 64, 96, 128, 256]);
                let k = self.r.range(1, 12);
                (b * k + self.r.us(7)).saturating_sub(3)
            }
            16..=18 => self.r.logu(4096),
            _ => self.r.logu(30_000),
        };
        n.min(m)
    }

    fn place(&mut self) -> i64 {
        match self.r.below(if self.place == 1 { 7 } else { 10 }) {
            0..=3 => -1,
            4..=6 => -2,
            _ => self.r.us(130) as i64,
        }
    }

    fn payload_kind(&mut self, k: Kind) -> u8 {
        match k {
            Kind::UniAscii | Kind::UniFromAscii => self.r.pick(&[6, 6, 6, 3, 1, 0, 5]),
            Kind::UniUtf32 => self.r.pick(&[7, 8, 8, 7, 7, 0]),
            _ => self.r.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 5, 5]),
        }
    }

    fn damage(&mut self, n: usize) -> Vec<Edit> {
        let count = match self.r.below(8) {
            0..=5 => 1,
            6 => 2,
            _ => self.r.range(2, 4),
        };
        (0..count).map(|_| self.edit(n)).collect()
    }

    fn pos(&mut self, n: usize) -> i32 {
        match self.r.below(6) {
            0 | 1 => -(self.r.range(1, 9) as i32),
            2 => self.r.us(12) as i32,
            _ => self.r.us(n.max(1)) as i32,
        }
    }

    fn edit(&mut self, n: usize) -> Edit {
        let pos = self.pos(n);
        let val = if self.r.one_in(2) { self.r.pick(SPECIAL) } else { self.r.us(256) as u8 };
        match self.r.below(20) {
            0..=7 => Edit { op: 0, pos, val },
            8..=9 => Edit { op: 1, pos, val: 1 << self.r.us(8) },
            10 | 11 => Edit { op: 2, pos, val },
            12 | 13 => Edit { op: 3, pos, val: 0 },
            14 | 15 => Edit { op: 4, pos: if self.r.one_in(2) { -(self.r.range(1, 9) as i32) } else { pos }, val: 0 },
            16 => Edit { op: 5, pos, val: self.r.us(40) as u8 },
            17 | 18 => Edit { op: 6, pos: 0, val: if self.r.one_in(2) { b'=' } else { val } },
            _ => Edit { op: 7, pos, val: self.r.us(20) as u8 },
        }
    }

    /// one operation of this kind with a length near `n`
    fn op_len(&mut self, kind: Kind, n: usize) -> OpSpec {
        let mut o = OpSpec::new(kind);
        o.var = self.r.us(4) as u8;
        let seed = self.seed();
        let pk = self.payload_kind(kind);
        let forg = matches!(kind, Kind::B64Forg | Kind::B64ForgIn | Kind::B64ForgVec);
        let mut enc = 0;
        let mut len = n;
        match kind.takes() {
            Takes::Text => {
                enc = if forg { self.r.pick(&[1, 2, 2, 3, 4]) } else { 1 };
                if kind.codec() == Codec::Uuid {
                    len = 16;
                }
            }
            Takes::Uuid16 => len = 16,
            Takes::Units16 => len = n / 2 * 2,
            Takes::Units32 => len = n / 4 * 4,
            Takes::Payload => {}
        }
        o.input.base = Base::Gen { kind: pk, enc, seed, len: len as u32 };
        let text_len = match kind.codec() {
            Codec::B64 if enc > 0 => len * 4 / 3 + 4,
            Codec::B32 if enc > 0 => len * 8 / 5 + 8,
            Codec::Hex if enc > 0 => len * 2,
            Codec::Uuid if enc > 0 => 45,
            _ => len,
        };
        if enc > 0 && self.o_damage > 0 && self.r.below(100) < self.o_damage {
            if self.r.one_in(6) {
                // not a damaged encoding: arbitrary bytes
                o.input.base = Base::Gen { kind: self.r.pick(&[0, 3, 3, 1, 5]), enc: 0, seed, len: text_len as u32 };
            } else {
                o.input.edits = self.damage(text_len);
            }
        } else if matches!(kind, Kind::UniAscii | Kind::UniFromAscii) && self.r.one_in(3) {
            let pos = self.pos(len);
            let val = 0x80 | self.r.us(128) as u8;
            o.input.edits = vec![Edit { op: 0, pos, val }];
        } else if kind == Kind::UniUtf32 && self.r.one_in(2) && len > 0 {
            // one unit becomes a boundary value
            let u: u32 = match self.r.below(6) {
                4 | 5 => crate::ops::edge_unit(&mut self.r),
                0 => self.r.pick(&[0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0x11ffff, 0x80000000, 0xffffffff]),
                1 => 0xd800 + self.r.us(0x800) as u32,
                2 => 0x110000u32.wrapping_add((1 << self.r.us(32)) as u32),
                _ => self.r.next() as u32,
            };
            let i = self.r.us(len / 4) as i32 * 4;
            let i = if self.r.one_in(3) { (len / 4) as i32 * 4 - 4 } else { i };
            for (k, b) in u.to_le_bytes().iter().enumerate() {
                o.input.edits.push(Edit { op: 0, pos: i + k as i32, val: *b });
            }
        }
        o.sp = self.place();
        o.dp = self.place();
        o.poison = match self.r.below(6) {
            0 => 0,
            1 => 0xff,
            2 => b'=',
            3 => b'A',
            _ => self.r.us(256) as u8,
        };
        if self.o_ro {
            o.ro = self.r.one_in(3);
        }
        if kind.has_dst() {
            o.dlen = match self.r.below(100) {
                x if x < self.o_short => -(self.r.logu(40) as i32),
                x if x < self.o_short + 25 => self.r.logu(200) as i32,
                _ => 0,
            };
        }
        if kind.appends() {
            o.slot = self.r.us(2) as u8;
            if self.r.one_in(3) {
                o.fresh = match self.r.below(5) {
                    0 | 1 => 0,
                    2 => self.r.us(40) as i32,
                    3 => self.r.us(400) as i32,
                    _ => (text_len * 2 + self.r.us(64)) as i32,
                };
                o.prefix = match self.r.below(4) {
                    0 => 0,
                    1 => self.r.us(10) as u32,
                    2 => self.r.us(100) as u32,
                    _ => self.r.logu(5000) as u32,
                };
            }
        }
        if self.o_post && kind.owned() {
            o.post = self.r.us(6) as u8;
        } else if self.o_post && self.r.one_in(4) {
            o.post = 1;
        }
        if self.o_fail && kind.allocates() && self.r.one_in(2) {
            let from = self.r.pick(&[1, 1, 1, 2, 2, 3, 4]);
            o.fail = (from, if self.r.one_in(2) { from } else { 1000 });
            o.retry = self.r.one_in(2);
        }
        if self.o_asref && kind.as_ref() && self.r.one_in(2) {
            o.asref = self.r.range(1, 4) as u8;
        }
        if kind == Kind::UuidExtFmt {
            let r = &mut self.r;
            o.x = [
                r.us(2) as i32,
                r.us(3) as i32,
                r.us(10) as i32,
                if r.one_in(2) { r.us(80) as i32 } else { r.range(30, 40) as i32 },
                if r.one_in(2) { r.us(80) as i32 } else { r.range(30, 40) as i32 },
                0,
                0,
            ];
            if self.o_sink {
                o.x[5] = r.us(6) as i32;
                o.x[6] = match o.x[5] {
                    1 | 5 => r.us(70) as i32,
                    _ => {
                        if r.one_in(3) {
                            r.range(1, 40) as i32
                        } else {
                            r.range(1, 3) as i32
                        }
                    }
                };
            }
        }
        o
    }

    fn op(&mut self, kind: Kind) -> OpSpec {
        let n = self.len();
        self.op_len(kind, n)
    }

    fn machine(&mut self) -> u8 {
        if !detecting() {
            return self.host;
        }
        let m = self.r.pick(&[cpu::NONE, cpu::SSE2, cpu::SSSE3, cpu::SSE41, cpu::SSE41, cpu::AVX2, cpu::AVX2, cpu::AVX2]);
        m.min(self.host)
    }

    fn heap(&mut self) -> HeapCfg {
        let front = self.r.one_in(3);
        HeapCfg { front, reuse: self.r.one_in(2), in_place: front && self.r.one_in(2), poison: self.r.pick(&[0x55, 0, 0xff, b'=', b'A', 0xc3]) }
    }

    fn proc_(&mut self) -> Proc {
        let mut p = Proc::new();
        p.machine = self.machine();
        p.heap = self.heap();
        p
    }

    // ---------------------------------------------------------------- single-threaded work

    fn solo(&mut self, ks: &[Kind], ops: usize) -> Proc {
        let mut p = self.proc_();
        // half of the runs stay with few kinds: histories, not mixtures
        let few: Vec<Kind> = if self.r.one_in(2) { (0..self.r.range(1, 3)).map(|_| self.r.pick(ks)).collect() } else { ks.to_vec() };
        let v = (0..ops)
            .map(|_| {
                let k = self.r.pick(&few);
                self.op(k)
            })
            .collect();
        p.threads.push(v);
        p
    }

    /// The same few operations over and over, more often than 16 bits can count.
    fn soak(&mut self, ks: &[Kind]) -> Proc {
        self.max_len = 40;
        let n = if self.r.one_in(2) { 1 } else { self.r.range(2, 4) };
        // the same kinds with other inputs at the end: what a long history of one sort has taught must not count
        let mut few = Vec::new();
        for _ in 0..if self.r.one_in(4) { 2 } else { 1 } {
            let k = self.r.pick(ks);
            // allocating is slow here
            few.push(if k.owned() && self.r.one_in(2) { self.r.pick(ks) } else { k });
        }
        let tail = self.r.range(1, 7);
        let mut p = self.solo(&few, n + tail);
        p.tail = tail as u32;
        let plain = !self.r.one_in(4);
        for (i, o) in p.threads[0].iter_mut().enumerate() {
            o.post = 0;
            if i < n {
                o.retry = false;
                o.ro = false;
                if plain {
                    o.input.edits.clear();
                    if let Base::Gen { enc, .. } = &mut o.input.base {
                        *enc = (*enc).min(1);
                    }
                    o.fail = (0, 0);
                    o.asref = 0;
                }
            }
            if o.kind.appends() {
                o.fresh = 64;
            }
        }
        // beyond a power of two, or up to just before it, so that the last operations go past it
        let calls = match self.r.below(6) {
            0 | 1 => (1 << 16) - self.r.us(10),
            2 | 3 => (1 << self.r.range(7, 17)) - self.r.us(10),
            _ => self.r.pick(&[66_000, 70_000, 132_000]),
        };
        p.rounds = calls.div_ceil(n) as u32;
        p
    }

    /// One mishap many times (a conversion that panics, an allocation that fails, a sink that refuses, input that is
    /// rejected), then ordinary calls: what a mishap leaves behind must not add up.
    fn wear(&mut self, ks: &[Kind]) -> Proc {
        self.max_len = 40;
        let n = if self.r.one_in(2) { 1 } else { 2 };
        let k = self.r.pick(ks);
        let few = if self.r.one_in(3) { vec![k, self.r.pick(ks)] } else { vec![k] };
        let tail = self.r.range(2, 8);
        let mut p = self.solo(&few, n + tail);
        p.tail = tail as u32;
        for (i, o) in p.threads[0].iter_mut().enumerate() {
            o.post = 0;
            o.ro = false;
            if o.kind.appends() {
                o.fresh = 64;
            }
            if i < n {
                o.retry = false;
                if self.o_asref && o.kind.as_ref() {
                    o.asref = self.r.pick(&[2, 2, 2, 4, 4, 1, 3]);
                    if self.r.one_in(2) {
                        o.fail = (0, 0);
                    }
                } else if self.o_fail && o.kind.allocates() && o.fail.0 == 0 {
                    o.fail = (1, 1000);
                }
            } else if self.r.one_in(2) {
                o.asref = 0;
                o.fail = (0, 0);
            }
        }
        let calls = match self.r.below(3) {
            0 => 1 << self.r.range(3, 11),
            1 => self.r.range(3, 300),
            _ => 2_200,
        };
        p.rounds = calls.div_ceil(n) as u32;
        p
    }

    /// Systematic families with random parameters.
    fn sweep(&mut self, ks: &[Kind]) -> Proc {
        let mut p = self.proc_();
        let k = self.r.pick(ks);
        let n = if self.r.one_in(4) { self.r.us(300) } else { self.r.us(110) };
        let mut proto = self.op_len(k, n);
        proto.input.edits.clear();
        proto.dlen = proto.dlen.max(0);
        proto.post = 0;
        if proto.kind.appends() {
            proto.fresh = 0;
            proto.prefix = self.r.us(20) as u32;
        }
        let base = proto.input.base.clone();
        let (pk, enc, seed, len) = match base {
            Base::Gen { kind, enc, seed, len } => (kind, enc, seed, len),
            _ => unreachable!(),
        };
        // kinds that differ from op to op but share the input
        let sib: Vec<Kind> = ks.iter().copied().filter(|x| x.takes() == k.takes() && x.codec() == k.codec()).collect();
        let mix_kinds = self.r.one_in(3);
        let text = k.takes() == Takes::Text;
        let tlen = match k.codec() {
            Codec::B64 if text => len as usize * 4 / 3 + 4,
            Codec::B32 if text => len as usize * 8 / 5 + 8,
            Codec::Hex if text => len as usize * 2,
            Codec::Uuid if text => 45,
            _ => len as usize,
        };
        let mut v = Vec::new();
        match self.r.below(6) {
            // every byte value at one position
            0 | 1 => {
                let pos = self.pos(tlen);
                for b in 0..256 {
                    let mut o = proto.clone();
                    o.input.edits.push(Edit { op: 0, pos, val: b as u8 });
                    v.push(o);
                }
            }
            // one byte value at every position
            2 => {
                let val = if self.r.one_in(2) { self.r.pick(SPECIAL) } else { self.r.us(256) as u8 };
                let op = if self.r.one_in(5) { 2 } else { 0 };
                for pos in 0..tlen.max(1).min(420) {
                    let mut o = proto.clone();
                    o.input.edits.push(Edit { op, pos: pos as i32, val });
                    v.push(o);
                }
            }
            // every length
            3 => {
                let lo = if self.r.one_in(3) { self.r.us(400) } else { 0 };
                let step = match k.takes() {
                    Takes::Units16 => 2,
                    Takes::Units32 => 4,
                    _ => 1,
                };
                for i in 0..230 {
                    let mut o = proto.clone();
                    o.input.base = Base::Gen { kind: pk, enc, seed, len: ((lo + i) * step) as u32 };
                    if self.r.one_in(8) && proto.kind.has_dst() {
                        o.dlen = -1;
                    }
                    v.push(o);
                }
            }
            // every prefix of one text
            4 => {
                for i in 0..tlen.min(300) {
                    let mut o = proto.clone();
                    if i > 0 {
                        o.input.edits.push(Edit { op: 4, pos: -(i as i32), val: 0 });
                    }
                    v.push(o);
                }
            }
            // every filling
            _ => {
                for b in 0..256 {
                    let mut o = proto.clone();
                    if self.r.one_in(2) || text {
                        o.input.base = Base::Gen { kind: 1, enc, seed: seed & !0xff | b, len };
                    } else {
                        o.input.base = Base::Gen { kind: 2, enc, seed: mix(seed ^ b) & 0x7fff_ffff_ffff, len };
                    }
                    v.push(o);
                }
            }
        }
        if mix_kinds && !sib.is_empty() && !proto.kind.appends() {
            for o in &mut v {
                let nk = self.r.pick(&sib);
                if !nk.appends() {
                    o.kind = nk;
                }
            }
        }
        p.threads.push(v);
        p
    }

    fn big(&mut self, ks: &[Kind]) -> Proc {
        let mut p = self.proc_();
        let mut v = Vec::new();
        for _ in 0..self.r.range(1, 4) {
            let k = self.r.pick(ks);
            let n = match self.r.below(5) {
                // more than 65536 vectors
                4 if self.r.one_in(3) => (1 << 20) + self.r.us(150_000) + if k.codec() == Codec::Uni { 1 << 20 } else { 0 },
                0 => 60_000 + self.r.us(12_000),
                1 => 4096 * self.r.range(1, 40) + self.r.us(5) - 2,
                2 => self.r.us(300_000),
                _ => 1 << self.r.range(12, 18),
            };
            v.push(self.op_len(k, n));
        }
        p.threads.push(v);
        p
    }

    // ---------------------------------------------------------------- schedules

    /// Racing first calls: threads start the same operation in a fresh process and switch early.
    fn race(&mut self, ks: &[Kind]) -> Proc {
        let mut p = self.proc_();
        p.step = true;
        let nt = self.r.range(2, 4);
        let k = self.r.pick(ks);
        let same = !self.r.one_in(3);
        self.max_len = self.max_len.min(700);
        for _ in 0..nt {
            let ops = self.r.range(1, 3);
            let v = (0..ops)
                .map(|_| {
                    let k = if same { k } else { self.r.pick(ks) };
                    let n = if self.r.one_in(3) { self.r.us(300) } else { self.r.us(90) };
                    self.op_len(k, n)
                })
                .collect();
            p.threads.push(v);
        }
        self.segments(&mut p);
        p
    }

    /// Every access of every instruction is judged.
    fn watched(&mut self, ks: &[Kind]) -> Proc {
        let mut p = if self.r.one_in(4) {
            let mut p = self.race(ks);
            p.shared = self.r.one_in(2) && p.threads.iter().flatten().all(|o| o.kind.has_dst() || o.kind.inplace());
            p
        } else {
            let mut p = self.proc_();
            let max = self.r.pick(&[40, 90, 150, 300]);
            let v = (0..self.r.range(2, 9))
                .map(|_| {
                    let k = self.r.pick(ks);
                    let n = self.r.us(max);
                    self.op_len(k, n)
                })
                .collect();
            p.threads.push(v);
            p
        };
        p.step = true;
        p.watch = true;
        p
    }

    fn segments(&mut self, p: &mut Proc) {
        let nt = p.threads.len();
        match self.r.below(4) {
            // one or two preemptions at chosen points
            0 | 1 => {
                let a = self.r.us(nt);
                let b = (a + 1 + self.r.us(nt.max(2) - 1)) % nt;
                let q = if self.r.one_in(2) { self.r.range(1, 120) } else { self.r.range(1, 900) };
                p.segs.push((a as u32, q as u32));
                if self.r.one_in(2) {
                    let q2 = if self.r.one_in(2) { self.r.range(1, 120) } else { self.r.range(1, 900) };
                    p.segs.push((b as u32, q2 as u32));
                    if self.r.one_in(2) {
                        p.segs.push((a as u32, self.r.range(1, 60) as u32));
                    }
                } else {
                    p.segs.push((b as u32, 0));
                }
            }
            // short slices at the beginning
            2 => {
                let max = self.r.pick(&[3, 10, 40, 150]);
                for _ in 0..self.r.range(4, 60) {
                    p.segs.push((self.r.us(nt) as u32, self.r.range(1, max) as u32));
                }
            }
            _ => {
                for _ in 0..self.r.range(4, 40) {
                    let q = if self.r.one_in(4) { 0 } else { self.r.logu(1500) };
                    p.segs.push((self.r.us(nt) as u32, q as u32));
                }
            }
        }
    }

    /// Threads with histories, switched in the middle of operations.
    fn multi(&mut self, ks: &[Kind], max_ops: usize) -> Proc {
        let mut p = self.proc_();
        p.step = !self.r.one_in(4);
        self.max_len = self.max_len.min(400);
        let nt = self.r.range(2, 4);
        for _ in 0..nt {
            let ops = self.r.range(1, max_ops);
            let v = (0..ops)
                .map(|_| {
                    let k = self.r.pick(ks);
                    self.op(k)
                })
                .collect();
            p.threads.push(v);
        }
        if p.step {
            for _ in 0..self.r.range(3, 30) {
                let q = if self.r.one_in(4) { 0 } else { self.r.logu(1200) };
                p.segs.push((self.r.us(nt) as u32, q as u32));
            }
        } else {
            for _ in 0..max_ops * nt {
                p.segs.push((self.r.us(nt) as u32, 0));
            }
        }
        p
    }

    fn step_no(&mut self) -> u32 {
        (match self.r.below(4) {
            0 => self.r.range(1, 40),
            1 => self.r.range(1, 150),
            2 => self.r.range(1, 500),
            _ => self.r.logu(4000),
        }) as u32
    }

    fn add_stalls(&mut self, p: &mut Proc, resume: bool) {
        let nt = p.threads.len();
        let a = self.r.us(nt);
        let op = if self.r.one_in(3) { self.r.us(p.threads[a].len()) } else { 0 };
        let step = self.step_no();
        p.stalls.push(Stall { tid: a as u32, op: op as u32, step, resume });
        if nt > 2 && self.r.one_in(3) {
            let b = (a + 1) % nt;
            let step = self.step_no();
            p.stalls.push(Stall { tid: b as u32, op: 0, step, resume });
        }
        // the victim goes first
        if self.r.one_in(2) {
            p.segs.insert(0, (a as u32, 0));
        }
    }

    fn add_interrupts(&mut self, p: &mut Proc, ks: &[Kind]) {
        for _ in 0..self.r.range(1, 3) {
            let tid = self.r.us(p.threads.len());
            let op = if self.r.one_in(2) { 0 } else { self.r.us(p.threads[tid].len()) };
            let outer = p.threads[tid][op].kind;
            let k = if self.r.one_in(2) && outer != Kind::B64Par { outer } else { self.r.pick(ks) };
            let k = if k == Kind::B64Par { Kind::B64Enc } else { k };
            let n = self.r.us(200);
            let mut spec = self.op_len(k, n);
            spec.post = 0;
            spec.fail = (0, 0);
            spec.asref = 0;
            let step = self.step_no();
            p.interrupts.push(Interrupt { tid: tid as u32, op: op as u32, step, spec });
        }
    }

    // ---------------------------------------------------------------- the channel

    fn channel(&mut self) -> Vec<Proc> {
        let mut procs = Vec::new();
        let codec = self.r.pick(&[Codec::B64, Codec::B64, Codec::B64, Codec::B32, Codec::B32, Codec::Hex, Codec::Hex, Codec::Uuid]);
        let (send, recv): (Vec<Kind>, Vec<Kind>) = match codec {
            Codec::B64 => (
                vec![Kind::B64Enc, Kind::B64EncStr, Kind::B64ToString, Kind::B64ToVecE, Kind::B64EncodeToString],
                vec![Kind::B64Dec, Kind::B64DecIn, Kind::B64Check, Kind::B64ToVecD, Kind::B64DecodeToVec, Kind::B64ToBoxD, Kind::B64Len],
            ),
            Codec::B32 => (
                vec![Kind::B32Enc, Kind::B32EncStr, Kind::B32ToString, Kind::B32ToVecE, Kind::B32EncodeToString],
                vec![Kind::B32Dec, Kind::B32DecIn, Kind::B32Check, Kind::B32ToVecD, Kind::B32DecodeToVec, Kind::B32ToBoxD, Kind::B32Len],
            ),
            Codec::Hex => (
                vec![Kind::HexEnc, Kind::HexEncStr, Kind::HexEncRaw, Kind::HexToString, Kind::HexEncodeToString],
                vec![Kind::HexDec, Kind::HexDecIn, Kind::HexCheck, Kind::HexDecodeToVec, Kind::HexDecRaw, Kind::HexDecRawIn, Kind::HexToBoxD],
            ),
            _ => (vec![Kind::UuidFmtSimple, Kind::UuidFmtHyph], vec![Kind::UuidParse, Kind::UuidExtParse, Kind::UuidParse]),
        };
        let var = self.r.us(4) as u8;
        self.o_damage = 0;
        self.o_short = 0;
        let slots = self.r.range(1, 10);
        // a sender, which may be restarted as another machine half way
        let cut = if self.r.one_in(2) { self.r.range(0, slots) } else { slots };
        for part in 0..2 {
            let (lo, hi) = if part == 0 { (0, cut) } else { (cut, slots) };
            if lo == hi {
                continue;
            }
            let mut p = self.proc_();
            let mut v = Vec::new();
            for m in lo..hi {
                let k = self.r.pick(&send);
                let n = match self.r.below(8) {
                    0 => self.r.us(2000),
                    1..=3 => self.r.us(60),
                    _ => self.r.us(220),
                };
                let mut o = self.op_len(k, n);
                o.var = var;
                o.mail = m as i32;
                o.dlen = o.dlen.max(0);
                v.push(o);
            }
            p.threads.push(v);
            procs.push(p);
        }
        // receivers
        for _ in 0..self.r.range(1, 3) {
            let mut p = self.proc_();
            let mut v = Vec::new();
            // delivery order with loss and duplication
            let mut order: Vec<usize> = (0..slots).collect();
            for i in (1..order.len()).rev() {
                if self.r.one_in(2) {
                    let j = self.r.us(i + 1);
                    order.swap(i, j);
                }
            }
            order.retain(|_| !self.r.one_in(8));
            for i in 0..order.len() {
                if self.r.one_in(5) {
                    let d = order[i];
                    order.push(d);
                }
            }
            for m in order {
                let k = self.r.pick(&recv);
                let mut o = self.op_len(k, 0);
                o.var = var;
                o.dlen = o.dlen.max(0);
                o.input.base = Base::Mail(m as u8);
                o.input.edits.clear();
                match self.r.below(10) {
                    0..=3 => {}
                    4 => o.input.base = Base::Splice(m as u8, self.r.us(slots) as u8, self.r.us(300) as u32),
                    5..=8 => o.input.edits = self.damage(250),
                    _ => {
                        o.input.base = Base::Splice(m as u8, self.r.us(slots) as u8, self.r.us(300) as u32);
                        o.input.edits = self.damage(250);
                    }
                }
                if codec == Codec::Uuid && self.r.one_in(2) {
                    let w = self.r.us(2) as u8;
                    o.input.edits.insert(0, Edit { op: 8, pos: 0, val: w });
                }
                // the same bytes through every form of the verdict
                if self.r.one_in(2) {
                    for &k2 in &recv {
                        let mut c = o.clone();
                        c.kind = k2;
                        v.push(c);
                    }
                } else {
                    v.push(o);
                }
            }
            if v.is_empty() {
                continue;
            }
            p.threads.push(v);
            procs.push(p);
        }
        procs
    }

    // ---------------------------------------------------------------- the pool

    fn pool(&mut self) -> Proc {
        let mut p = self.proc_();
        p.pool = self.r.range(1, 9) as u32;
        p.helpers = self.r.below(p.pool.min(7) as u64 + 1) as u32;
        let nt = if self.r.one_in(5) { 2 } else { 1 };
        let small = self.r.one_in(3);
        // wide pools: more threads than a piece has bytes lead to fewer pieces than threads
        let wide = !small && self.r.one_in(12);
        if wide {
            p.pool = if self.r.one_in(2) { self.r.range(10, 244) } else { self.r.range(1366, 1800) } as u32;
        }
        for _ in 0..nt {
            let ops = self.r.range(1, if small { 2 } else if wide { 1 } else { 4 });
            let v = (0..ops)
                .map(|_| {
                    let t = p.pool as usize * 4096;
                    let n = if wide {
                        let q = p.pool as usize;
                        let room = if self.r.one_in(3) { 60 } else { (3 * q * q).saturating_sub(t) + 5000 };
                        t + self.r.us(room)
                    } else if small {
                        // just over the threshold, so that it can be stepped
                        p.pool = 2;
                        p.helpers = p.helpers.min(2);
                        8192 + self.r.us(40)
                    } else {
                        match self.r.below(6) {
                            0 => (t + self.r.us(9)).saturating_sub(4),
                            1 => t + self.r.us(3 * 4096),
                            2 => self.r.us(20_000),
                            3 => self.r.us(400_000),
                            4 => {
                                // pieces of nearly equal size
                                let p = p.pool as usize;
                                (3 * p * self.r.range(1366, 4000) + self.r.us(7)).saturating_sub(3)
                            }
                            _ => t + self.r.us(60),
                        }
                    };
                    let k = if self.r.one_in(8) { Kind::B64Enc } else { Kind::B64Par };
                    let mut o = self.op_len(k, n);
                    o.dlen = match self.r.below(8) {
                        0 => -1,
                        1 => -(self.r.logu(n.max(1)) as i32),
                        2 => self.r.us(100) as i32,
                        _ => 0,
                    };
                    o
                })
                .collect();
            p.threads.push(v);
        }
        let style = self.r.below(4);
        for _ in 0..self.r.range(0, 120) {
            p.choices.push(match style {
                0 => 2,
                1 => 1,
                _ => self.r.us(840) as u32,
            });
        }
        if p.helpers > 0 {
            p.step = small;
            p.watch = small && self.r.one_in(2);
            let all = nt as u64 + p.helpers as u64;
            for _ in 0..self.r.range(2, 40) {
                let q = if p.step { self.r.logu(20_000) } else { 0 };
                p.segs.push((self.r.below(all) as u32, q as u32));
            }
        }
        p
    }
}

pub const PROPERTIES: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
];

/// Builds the scenario of one seed.
pub fn scenario(property: &str, build: &str, seed: u64) -> Scenario {
    let tag = property.bytes().chain(build.bytes()).fold(0u64, |a, b| mix(a ^ b as u64));
    let mut r = Rng::new(seed ^ tag);
    let host = cpu::host_level();
    let shorty = r.pick(&[0, 4, 10]);
    let mut g = G {
        host,
        o_fail: false,
        o_asref: false,
        o_sink: false,
        o_post: r.one_in(3),
        o_damage: r.pick(&[0, 20, 40, 40, 70]),
        o_short: shorty,
        o_ro: r.one_in(2),
        max_len: 1 << 20,
        place: r.us(2) as u8,
        r,
    };
    let codec = |c: Codec| kinds(move |k| k.codec() == c && k != Kind::B64Par);
    let forg = |k: Kind| matches!(k, Kind::B64Forg | Kind::B64ForgIn | Kind::B64ForgVec);
    let mut profile = "";
    let procs: Vec<Proc> = match property {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => {
            let ks = match property {
                "C01" => kinds(|k| k.codec() == Codec::B64 && k != Kind::B64Par && !forg(k)),
                "C02" => kinds(forg),
                "C03" => codec(Codec::B32),
                "C04" => codec(Codec::Hex),
                "C05" => kinds(|k| k.codec() == Codec::Uuid),
                _ => codec(Codec::Uni),
            };
            vec![match g.r.below(20) {
                _ if g.r.one_in(40) => {
                    profile = "wear";
                    g.wear(&ks)
                }
                _ if g.r.one_in(150) => {
                    profile = "soak";
                    g.soak(&ks)
                }
                0..=7 => {
                    profile = "history";
                    let n = g.r.range(20, 110);
                    g.solo(&ks, n)
                }
                8..=12 => {
                    profile = "sweep";
                    g.sweep(&ks)
                }
                13 | 14 | 15 | 16 => {
                    profile = "race";
                    g.race(&ks)
                }
                17 | 18 => {
                    profile = "concurrent";
                    g.multi(&ks, 4)
                }
                _ => {
                    profile = "large";
                    g.big(&ks)
                }
            }]
        }
        "C07" => {
            let ks = kinds(|k| k != Kind::B64Par);
            g.max_len = 600;
            let nat = g.r.one_in(8);
            let ks = if nat { vec![Kind::NatExec] } else { ks };
            // a machine that lacks something
            let mut p = match g.r.below(5) {
                0 => {
                    profile = "history";
                    let n = g.r.range(4, 14);
                    g.solo(&ks, n)
                }
                1 => {
                    profile = "concurrent";
                    g.multi(&ks, 3)
                }
                _ => {
                    profile = "race";
                    g.race(&ks)
                }
            };
            if p.machine == cpu::AVX2 && g.r.one_in(2) {
                p.machine = g.r.pick(&[cpu::NONE, cpu::SSE2, cpu::SSSE3, cpu::SSE41]);
            }
            p.step = true;
            p.ud = true;
            vec![p]
        }
        "C08" => {
            let ks = kinds(|k| !k.owned() && !k.appends() && k != Kind::NatExec && k != Kind::B64Par && k != Kind::UuidExtFmt);
            g.o_ro = true;
            g.o_short = g.r.pick(&[0, 10, 25]);
            g.place = 1;
            vec![match g.r.below(14) {
                10..=13 => {
                    profile = "watched";
                    g.watched(&ks)
                }
                0..=3 => {
                    profile = "guarded";
                    let n = g.r.range(20, 110);
                    g.solo(&ks, n)
                }
                4 | 5 => {
                    profile = "guarded sweep";
                    g.sweep(&ks)
                }
                6 => {
                    profile = "guarded large";
                    g.big(&ks)
                }
                _ => {
                    profile = "adjacent";
                    let dst = kinds(|k| (k.has_dst() || k.inplace()) && k != Kind::B64Par);
                    let mut p = if g.r.one_in(2) { g.race(&dst) } else { g.multi(&dst, 3) };
                    p.shared = true;
                    // switch inside the copying loops too
                    if p.step {
                        for _ in 0..g.r.range(0, 20) {
                            let t = g.r.us(p.threads.len()) as u32;
                            let q = g.r.logu(400) as u32;
                            p.segs.push((t, q));
                        }
                    }
                    p
                }
            }]
        }
        "C09" => {
            let ks = kinds(|k| k != Kind::B64Par);
            g.max_len = 500;
            vec![match g.r.below(20) {
                // long inputs: the bound on the steps is linear
                0 => {
                    profile = "long";
                    let mut p = g.proc_();
                    let n = g.r.range(2000, 6000);
                    let k = if g.r.one_in(3) { g.r.pick(&kinds(|k| matches!(k, Kind::B64Forg | Kind::B64ForgIn | Kind::B64ForgVec))) } else { g.r.pick(&ks) };
                    p.threads.push(vec![g.op_len(k, n)]);
                    p.step = true;
                    p.nowait = true;
                    p
                }
                1..=11 => {
                    profile = "suspended";
                    let mut p = g.race(&ks);
                    p.step = true;
                    p.nowait = true;
                    if g.r.one_in(2) {
                        p.segs.clear();
                    }
                    let resume = g.r.one_in(3);
                    g.add_stalls(&mut p, resume);
                    p
                }
                _ => {
                    profile = "interrupted";
                    let mut p = if g.r.one_in(2) {
                        let mut p = g.proc_();
                        let n = g.r.range(1, 3);
                        let v = (0..n)
                            .map(|_| {
                                let k = g.r.pick(&ks);
                                let n = g.r.us(250);
                                g.op_len(k, n)
                            })
                            .collect();
                        p.threads.push(v);
                        p
                    } else {
                        g.race(&ks)
                    };
                    p.step = true;
                    p.nowait = g.r.one_in(2);
                    g.add_interrupts(&mut p, &ks);
                    p
                }
            }]
        }
        "C10" => {
            let ks = kinds(|k| k.allocates());
            g.o_fail = true;
            g.o_post = g.r.one_in(2);
            vec![if g.r.one_in(12) {
                profile = "wear";
                g.wear(&ks)
            } else if g.r.one_in(6) {
                profile = "concurrent";
                g.multi(&ks, 4)
            } else if g.r.one_in(8) {
                profile = "large";
                g.big(&ks)
            } else {
                profile = "history";
                let n = g.r.range(6, 60);
                g.solo(&ks, n)
            }]
        }
        "C11" => {
            let ks = kinds(|k| k.allocates());
            g.o_fail = g.r.one_in(3);
            g.o_asref = g.r.one_in(4);
            g.o_post = true;
            vec![match g.r.below(12) {
                10 | 11 => {
                    profile = "watched";
                    g.watched(&ks)
                }
                0 => {
                    profile = "concurrent";
                    g.multi(&ks, 4)
                }
                1 | 2 => {
                    profile = "large";
                    g.big(&ks)
                }
                3 | 4 => {
                    profile = "sweep";
                    g.sweep(&ks)
                }
                _ => {
                    profile = "history";
                    let n = g.r.range(10, 90);
                    g.solo(&ks, n)
                }
            }]
        }
        "C12" => {
            let ks = kinds(|k| k.appends());
            g.o_fail = g.r.one_in(6);
            g.o_asref = g.r.one_in(8);
            vec![match g.r.below(12) {
                _ if g.r.one_in(16) => {
                    profile = "wear";
                    g.wear(&ks)
                }
                10 | 11 => {
                    profile = "watched";
                    g.watched(&ks)
                }
                0 | 1 => {
                    profile = "concurrent";
                    g.multi(&ks, 5)
                }
                2 => {
                    profile = "large";
                    g.big(&ks)
                }
                3 | 4 => {
                    profile = "sweep";
                    g.sweep(&ks)
                }
                _ => {
                    profile = "history";
                    let n = g.r.range(8, 90);
                    g.solo(&ks, n)
                }
            }]
        }
        "C13" => {
            profile = "pool";
            vec![g.pool()]
        }
        "C14" => {
            let ks = kinds(|k| k.as_ref());
            g.o_asref = true;
            g.o_fail = g.r.one_in(8);
            g.o_post = g.r.one_in(2);
            vec![match g.r.below(6) {
                _ if g.r.one_in(8) => {
                    profile = "wear";
                    g.wear(&ks)
                }
                0 => {
                    profile = "concurrent";
                    g.multi(&ks, 4)
                }
                1 => {
                    profile = "large";
                    g.big(&ks)
                }
                _ => {
                    profile = "history";
                    let n = g.r.range(6, 80);
                    g.solo(&ks, n)
                }
            }]
        }
        "C15" => {
            g.o_sink = true;
            let ks = vec![Kind::UuidExtFmt];
            let more = vec![Kind::UuidExtFmt, Kind::UuidExtFmt, Kind::UuidExtFmt, Kind::UuidFmtHyph, Kind::UuidFmtSimple, Kind::UuidExtParse];
            vec![match g.r.below(6) {
                _ if g.r.one_in(8) => {
                    profile = "wear";
                    g.wear(&ks)
                }
                0 => {
                    profile = "concurrent";
                    g.multi(&more, 5)
                }
                1 => {
                    profile = "race";
                    g.race(&ks)
                }
                _ => {
                    profile = "history";
                    let n = g.r.range(20, 120);
                    g.solo(&more, n)
                }
            }]
        }
        "C16" => {
            profile = "channel";
            g.channel()
        }
        "C17" => {
            let ks = kinds(|k| k != Kind::B64Par);
            g.o_fail = g.r.one_in(3);
            g.o_asref = g.r.one_in(3);
            g.o_sink = g.r.one_in(3);
            match g.r.below(10) {
                _ if g.r.one_in(12) => {
                    profile = "soak";
                    vec![g.soak(&ks)]
                }
                _ if g.r.one_in(16) => {
                    profile = "wear";
                    vec![g.wear(&ks)]
                }
                0 => {
                    profile = "marathon";
                    g.max_len = 300;
                    let n = g.r.range(300, 1500);
                    vec![g.solo(&ks, n)]
                }
                1 | 2 => {
                    profile = "restarts";
                    (0..g.r.range(2, 4))
                        .map(|_| {
                            let n = g.r.range(3, 20);
                            g.solo(&ks, n)
                        })
                        .collect()
                }
                3 | 4 => {
                    profile = "abandoned";
                    let mut p = g.race(&ks);
                    g.add_stalls(&mut p, false);
                    vec![p]
                }
                5 => {
                    profile = "interrupted";
                    let mut p = g.race(&ks);
                    g.add_interrupts(&mut p, &ks);
                    vec![p]
                }
                6 | 7 => {
                    profile = "race";
                    vec![g.race(&ks)]
                }
                _ => {
                    profile = "concurrent";
                    vec![g.multi(&ks, 8)]
                }
            }
        }
        _ => Vec::new(),
    };
    Scenario { property: property.into(), build: build.into(), seed, profile: profile.into(), procs: drop_inputs(procs) }
}

/// Nothing larger than the arenas.
fn drop_inputs(mut procs: Vec<Proc>) -> Vec<Proc> {
    for p in &mut procs {
        for t in &mut p.threads {
            for o in t {
                if let Input { base: Base::Gen { len, .. }, .. } = &mut o.input {
                    let most = if o.kind == Kind::B64Par { 9_800_000 } else { 1_000_000 };
                    *len = (*len).min(most);
                }
            }
        }
    }
    procs
}
