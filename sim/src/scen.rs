//! Scenarios: what one simulated run consists of. Fully explicit, so a scenario is its own replay file.

use crate::heap::HeapCfg;
use crate::json::{hex, unhex, J};
use crate::ops::Kind;

#[derive(Clone, Debug, PartialEq)]
pub enum Base {
    Lit(Vec<u8>),
    /// a message of the channel
    Mail(u8),
    /// the first `cut` bytes of one message and the rest of another
    Splice(u8, u8, u32),
    /// enc 0: raw payload, 1: its encoding, 2..4: with whitespace
    Gen { kind: u8, enc: u8, seed: u64, len: u32 },
}

/// A change of the input. Positions count from the end when negative.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Edit {
    pub op: u8,
    pub pos: i32,
    pub val: u8,
}

pub const EDITS: &[&str] = &["set", "xor", "insert", "delete", "truncate", "swap", "append", "repeat", "wrap"];

pub fn apply_edit(v: &mut Vec<u8>, e: &Edit) {
    let n = v.len();
    let at = |n: usize| -> usize {
        if n == 0 {
            0
        } else if e.pos >= 0 {
            e.pos as usize % n
        } else {
            n - 1 - (-(e.pos as i64) - 1) as usize % n
        }
    };
    match e.op {
        0 if n > 0 => v[at(n)] = e.val,
        1 if n > 0 => v[at(n)] ^= e.val,
        2 => {
            let i = if e.pos >= 0 { e.pos as usize % (n + 1) } else { n - (-(e.pos as i64) - 1) as usize % (n + 1) };
            v.insert(i, e.val)
        }
        3 if n > 0 => {
            v.remove(at(n));
        }
        4 if n > 0 => v.truncate(at(n)),
        5 if n > 0 => {
            let i = at(n);
            let j = (i + 1 + e.val as usize) % n;
            v.swap(i, j);
        }
        6 => v.push(e.val),
        7 if n > 0 => {
            // a piece arrives twice
            let i = at(n);
            let j = (i + 1 + e.val as usize).min(n);
            let piece = v[i..j].to_vec();
            v.splice(j..j, piece);
        }
        // the other textual forms of a uuid
        8 => {
            let (a, b): (&[u8], &[u8]) = if e.val & 1 == 0 { (b"urn:uuid:", b"") } else { (b"{", b"}") };
            v.splice(0..0, a.iter().copied());
            v.extend_from_slice(b);
        }
        _ => {}
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Input {
    pub base: Base,
    pub edits: Vec<Edit>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OpSpec {
    pub kind: Kind,
    pub var: u8,
    pub input: Input,
    /// destination length relative to the needed one
    pub dlen: i32,
    pub sp: i64,
    pub dp: i64,
    pub ro: bool,
    pub poison: u8,
    /// allocations of this operation which fail: from, to (1-based; 0: none)
    pub fail: (u32, u32),
    pub retry: bool,
    /// 0 plain, 1 another slice on a second call, 2 panics, 3 re-enters, 4 panics on a second call
    pub asref: u8,
    pub slot: u8,
    /// capacity of a new append target; -1: keep the old one
    pub fresh: i32,
    pub prefix: u32,
    /// 0 drop, 1 hold, 2 grow, 3 convert, 4 shrink, 5 into bytes
    pub post: u8,
    /// formatting: layout, trait, style, width, precision, sink mode, sink parameter
    pub x: [i32; 7],
    /// the output is sent as this message
    pub mail: i32,
}

impl OpSpec {
    pub fn new(kind: Kind) -> OpSpec {
        OpSpec {
            kind,
            var: 0,
            input: Input { base: Base::Lit(Vec::new()), edits: Vec::new() },
            dlen: 0,
            sp: -1,
            dp: -1,
            ro: false,
            poison: 0,
            fail: (0, 0),
            retry: false,
            asref: 0,
            slot: 0,
            fresh: -1,
            prefix: 0,
            post: 0,
            x: [0; 7],
            mail: -1,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Stall {
    pub tid: u32,
    pub op: u32,
    pub step: u32,
    pub resume: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Interrupt {
    pub tid: u32,
    pub op: u32,
    pub step: u32,
    pub spec: OpSpec,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Proc {
    pub machine: u8,
    pub threads: Vec<Vec<OpSpec>>,
    /// how often every thread goes through its list
    pub rounds: u32,
    /// the last operations of a list, which are left out of all rounds but the last one
    pub tail: u32,
    /// the schedule: which thread, for how many of its instructions (0: until the operation ends)
    pub segs: Vec<(u32, u32)>,
    pub stalls: Vec<Stall>,
    pub interrupts: Vec<Interrupt>,
    pub choices: Vec<u32>,
    pub helpers: u32,
    pub pool: u32,
    pub ud: bool,
    pub watch: bool,
    pub step: bool,
    pub nowait: bool,
    pub shared: bool,
    pub heap: HeapCfg,
}

impl Proc {
    pub fn new() -> Proc {
        Proc {
            machine: 0,
            threads: Vec::new(),
            rounds: 1,
            tail: 0,
            segs: Vec::new(),
            stalls: Vec::new(),
            interrupts: Vec::new(),
            choices: Vec::new(),
            helpers: 0,
            pool: 1,
            ud: false,
            watch: false,
            step: false,
            nowait: false,
            shared: false,
            heap: HeapCfg::default(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub property: String,
    pub build: String,
    pub seed: u64,
    pub profile: String,
    pub procs: Vec<Proc>,
}

// ------------------------------------------------------------------------------------------ JSON

fn n(v: i64) -> J {
    J::Num(v)
}

fn nums<I: IntoIterator<Item = i64>>(v: I) -> J {
    J::Arr(v.into_iter().map(J::Num).collect())
}

fn op_json(o: &OpSpec) -> J {
    let d = OpSpec::new(o.kind);
    let mut v: Vec<(String, J)> = vec![("op".into(), J::Str(o.kind.name().into()))];
    let mut put = |k: &str, on: bool, j: J| {
        if on {
            v.push((k.into(), j));
        }
    };
    put("var", o.var != 0, n(o.var as i64));
    match &o.input.base {
        Base::Lit(b) => put("in", true, J::Str(hex(b))),
        Base::Mail(i) => put("mail_in", true, n(*i as i64)),
        Base::Splice(a, b, c) => put("splice_in", true, nums([*a as i64, *b as i64, *c as i64])),
        Base::Gen { kind, enc, seed, len } => {
            put("gen_in", true, nums([*kind as i64, *enc as i64, *seed as i64, *len as i64]))
        }
    }
    put(
        "edits",
        !o.input.edits.is_empty(),
        J::Arr(
            o.input
                .edits
                .iter()
                .map(|e| J::Arr(vec![J::Str(EDITS[e.op as usize % EDITS.len()].into()), n(e.pos as i64), n(e.val as i64)]))
                .collect(),
        ),
    );
    put("dlen", o.dlen != d.dlen, n(o.dlen as i64));
    put("src_at", o.sp != d.sp, n(o.sp));
    put("dst_at", o.dp != d.dp, n(o.dp));
    put("read_only", o.ro, J::Bool(true));
    put("poison", o.poison != 0, n(o.poison as i64));
    put("fail", o.fail != (0, 0), nums([o.fail.0 as i64, o.fail.1 as i64]));
    put("retry", o.retry, J::Bool(true));
    put("asref", o.asref != 0, n(o.asref as i64));
    put("slot", o.slot != 0, n(o.slot as i64));
    put("fresh", o.fresh != -1, n(o.fresh as i64));
    put("prefix", o.prefix != 0, n(o.prefix as i64));
    put("post", o.post != 0, n(o.post as i64));
    put("x", o.x != [0; 7], nums(o.x.iter().map(|&x| x as i64)));
    put("mail_out", o.mail >= 0, n(o.mail as i64));
    J::Obj(v)
}

fn num_or(j: &J, k: &str, d: i64) -> i64 {
    if j.get(k).is_some() {
        j.num(k)
    } else {
        d
    }
}

fn op_from(j: &J) -> Result<OpSpec, String> {
    let kind = Kind::from_name(j.str("op")).ok_or_else(|| format!("unknown operation {}", j.str("op")))?;
    let mut o = OpSpec::new(kind);
    o.var = j.num("var") as u8;
    let a = |k: &str, i: usize| j.arr(k).get(i).map_or(0, |x| x.as_num());
    o.input.base = if j.get("mail_in").is_some() {
        Base::Mail(j.num("mail_in") as u8)
    } else if j.get("splice_in").is_some() {
        Base::Splice(a("splice_in", 0) as u8, a("splice_in", 1) as u8, a("splice_in", 2) as u32)
    } else if j.get("gen_in").is_some() {
        Base::Gen { kind: a("gen_in", 0) as u8, enc: a("gen_in", 1) as u8, seed: a("gen_in", 2) as u64, len: a("gen_in", 3) as u32 }
    } else {
        Base::Lit(unhex(j.str("in")))
    };
    for e in j.arr("edits") {
        let e = e.as_arr();
        if e.len() != 3 {
            return Err("bad edit".into());
        }
        let name = if let J::Str(s) = &e[0] { s.as_str() } else { "" };
        let op = EDITS.iter().position(|x| *x == name).ok_or("bad edit")? as u8;
        o.input.edits.push(Edit { op, pos: e[1].as_num() as i32, val: e[2].as_num() as u8 });
    }
    o.dlen = j.num("dlen") as i32;
    o.sp = num_or(j, "src_at", -1);
    o.dp = num_or(j, "dst_at", -1);
    o.ro = j.num("read_only") != 0;
    o.poison = j.num("poison") as u8;
    o.fail = (a("fail", 0) as u32, a("fail", 1) as u32);
    o.retry = j.num("retry") != 0;
    o.asref = j.num("asref") as u8;
    o.slot = j.num("slot") as u8;
    o.fresh = num_or(j, "fresh", -1) as i32;
    o.prefix = j.num("prefix") as u32;
    o.post = j.num("post") as u8;
    for i in 0..7 {
        o.x[i] = a("x", i) as i32;
    }
    o.mail = num_or(j, "mail_out", -1) as i32;
    Ok(o)
}

fn proc_json(p: &Proc) -> J {
    let mut v: Vec<(String, J)> = vec![("machine".into(), J::Str(crate::cpu::LEVELS[p.machine as usize % 5].into()))];
    let mut put = |k: &str, on: bool, j: J| {
        if on {
            v.push((k.into(), j));
        }
    };
    put("threads", true, J::Arr(p.threads.iter().map(|t| J::Arr(t.iter().map(op_json).collect())).collect()));
    put("rounds", p.rounds != 1, n(p.rounds as i64));
    put("tail", p.tail != 0, n(p.tail as i64));
    put("schedule", !p.segs.is_empty(), J::Arr(p.segs.iter().map(|s| nums([s.0 as i64, s.1 as i64])).collect()));
    put(
        "stalls",
        !p.stalls.is_empty(),
        J::Arr(p.stalls.iter().map(|s| nums([s.tid as i64, s.op as i64, s.step as i64, s.resume as i64])).collect()),
    );
    put(
        "interrupts",
        !p.interrupts.is_empty(),
        J::Arr(
            p.interrupts
                .iter()
                .map(|s| J::Arr(vec![n(s.tid as i64), n(s.op as i64), n(s.step as i64), op_json(&s.spec)]))
                .collect(),
        ),
    );
    put("choices", !p.choices.is_empty(), nums(p.choices.iter().map(|&c| c as i64)));
    put("helpers", p.helpers != 0, n(p.helpers as i64));
    put("pool", p.pool != 1, n(p.pool as i64));
    put("check_opcodes", p.ud, J::Bool(true));
    put("check_accesses", p.watch, J::Bool(true));
    put("step", p.step, J::Bool(true));
    put("nowait", p.nowait, J::Bool(true));
    put("shared", p.shared, J::Bool(true));
    let h = p.heap;
    put("heap", true, nums([h.front as i64, h.reuse as i64, h.in_place as i64, h.poison as i64]));
    J::Obj(v)
}

fn proc_from(j: &J) -> Result<Proc, String> {
    let mut p = Proc::new();
    p.machine = crate::cpu::LEVELS.iter().position(|l| *l == j.str("machine")).ok_or("bad machine")? as u8;
    for t in j.arr("threads") {
        p.threads.push(t.as_arr().iter().map(op_from).collect::<Result<_, _>>()?);
    }
    p.rounds = num_or(j, "rounds", 1) as u32;
    p.tail = j.num("tail") as u32;
    let at = |j: &J, i: usize| j.as_arr().get(i).map_or(0, |x| x.as_num());
    for s in j.arr("schedule") {
        p.segs.push((at(s, 0) as u32, at(s, 1) as u32));
    }
    for s in j.arr("stalls") {
        p.stalls.push(Stall { tid: at(s, 0) as u32, op: at(s, 1) as u32, step: at(s, 2) as u32, resume: at(s, 3) != 0 });
    }
    for s in j.arr("interrupts") {
        p.interrupts.push(Interrupt {
            tid: at(s, 0) as u32,
            op: at(s, 1) as u32,
            step: at(s, 2) as u32,
            spec: op_from(s.as_arr().get(3).ok_or("bad interrupt")?)?,
        });
    }
    p.choices = j.arr("choices").iter().map(|c| c.as_num() as u32).collect();
    p.helpers = j.num("helpers") as u32;
    p.pool = num_or(j, "pool", 1) as u32;
    p.ud = j.num("check_opcodes") != 0;
    p.watch = j.num("check_accesses") != 0;
    p.step = j.num("step") != 0;
    p.nowait = j.num("nowait") != 0;
    p.shared = j.num("shared") != 0;
    let h = j.get("heap").ok_or("no heap")?;
    p.heap = HeapCfg { front: at(h, 0) != 0, reuse: at(h, 1) != 0, in_place: at(h, 2) != 0, poison: at(h, 3) as u8 };
    Ok(p)
}

impl Scenario {
    pub fn json(&self) -> J {
        J::Obj(vec![
            ("property".into(), J::Str(self.property.clone())),
            ("build".into(), J::Str(self.build.clone())),
            ("seed".into(), n(self.seed as i64)),
            ("profile".into(), J::Str(self.profile.clone())),
            ("procs".into(), J::Arr(self.procs.iter().map(proc_json).collect())),
        ])
    }

    pub fn from_json(j: &J) -> Result<Scenario, String> {
        Ok(Scenario {
            property: j.str("property").into(),
            build: j.str("build").into(),
            seed: j.num("seed") as u64,
            profile: j.str("profile").into(),
            procs: j.arr("procs").iter().map(proc_from).collect::<Result<_, _>>()?,
        })
    }

    pub fn ops(&self) -> usize {
        self.procs.iter().map(|p| p.threads.iter().map(|t| t.len()).sum::<usize>()).sum()
    }
}
