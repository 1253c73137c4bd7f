//! Deterministic simulation of Nugine/simd.
#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]

mod cpu;
mod ea;
mod gen;
mod heap;
mod json;
mod mem;
mod minim;
mod model;
mod ops;
mod rng;
#[cfg_attr(not(feature = "parallel"), allow(dead_code))]
mod rt;
mod run;
mod scen;

use json::J;
use rng::mix;
use rt::{Ctr, CLASS_NAMES, CTR_NAMES};
use run::Outcome;
use scen::Scenario;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::time::{Duration, Instant};

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn num(args: &[String], name: &str, d: u64) -> u64 {
    arg(args, name).map_or(d, |s| s.parse().unwrap_or_else(|_| die(&format!("bad {name}"))))
}

fn die(m: &str) -> ! {
    eprintln!("harness: {m}");
    std::process::exit(2)
}

fn seed_of(base: u64, i: u64) -> u64 {
    mix(mix(base) ^ i) & 0x7fff_ffff_ffff
}

/// One processor for a worker: threads of a simulated process never run at once anyway.
fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let have: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        if have.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(have[cpu % have.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

fn found(o: &Outcome) -> J {
    J::Obj(vec![
        ("class".into(), J::Str(CLASS_NAMES[o.class as usize].into())),
        ("message".into(), J::Str(o.msg.clone())),
        ("process".into(), J::Num(o.proc_ as i64)),
        ("thread".into(), J::Num(o.tid as i64)),
        ("operation".into(), J::Num(o.op as i64)),
        ("step".into(), J::Num(o.step as i64)),
        ("hash".into(), J::Str(format!("{:016x}", o.hash))),
    ])
}

fn load(path: &str) -> (Scenario, J) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    let j = J::parse(&text).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    let sc = Scenario::from_json(&j).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    (sc, j)
}

fn save(path: &str, sc: &Scenario, o: &Outcome, extra: Vec<(String, J)>) {
    let J::Obj(mut v) = sc.json() else { unreachable!() };
    v.push(("violation".into(), found(o)));
    v.extend(extra);
    v.push(("trace".into(), J::Arr(o.log.lines().map(|l| J::Str(l.into())).collect())));
    std::fs::write(path, J::Obj(v).text() + "\n").unwrap_or_else(|e| die(&format!("{path}: {e}")));
}

fn search(args: &[String]) {
    let prop = arg(args, "--property").unwrap_or("C01");
    let build = arg(args, "--build").unwrap_or("A");
    let base = num(args, "--seed", 1);
    let first = num(args, "--first", 0);
    let stride = num(args, "--stride", 1);
    let max = num(args, "--max", u64::MAX);
    let secs = num(args, "--seconds", 10);
    let out = arg(args, "--out").unwrap_or("/dev/null");
    if arg(args, "--pin").is_some() {
        pin(num(args, "--pin", 0) as usize);
    }
    let digests = args.iter().any(|a| a == "--digests");
    // through the text of the scenario, as a replay does it
    let reread = args.iter().any(|a| a == "--reread");
    let end = Instant::now() + Duration::from_secs(secs);
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut ctr = [0u64; Ctr::Count as usize];
    let mut runs_with = [0u64; Ctr::Count as usize];
    let mut states: HashSet<u64> = HashSet::new();
    let mut inters: HashSet<u64> = HashSet::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut profiles: BTreeMap<String, u64> = BTreeMap::new();
    let mut machines = [0u64; 5];
    let mut samples: Vec<J> = Vec::new();
    let mut violation = J::Null;
    let mut slowest = (0u64, 0u64);
    let mut i = first;
    while i < max && Instant::now() < end {
        let seed = seed_of(base, i);
        let mut sc = gen::scenario(prop, build, seed);
        if reread {
            let j = J::parse(&sc.json().text()).unwrap_or_else(|e| die(&e));
            sc = Scenario::from_json(&j).unwrap_or_else(|e| die(&e));
        }
        let t = Instant::now();
        let o = run::scenario(&sc, false);
        let ms = t.elapsed().as_millis() as u64;
        if ms > slowest.0 {
            slowest = (ms, seed);
        }
        if let Some(h) = &o.harness {
            die(&format!("{prop} build {build} seed {seed}: {h}"));
        }
        runs += 1;
        *profiles.entry(sc.profile.clone()).or_default() += 1;
        for p in &sc.procs {
            machines[p.machine as usize] += 1;
        }
        let s = rt::sh();
        for k in 0..ctr.len() {
            ctr[k] += s.ctr[k];
            runs_with[k] += (s.ctr[k] > 0) as u64;
        }
        if states.len() < 600_000 {
            states.extend(&s.states[..s.nstates as usize]);
        }
        if o.inter != 0 {
            inters.insert(o.inter);
        }
        if s.ctr[Ctr::Ops as usize] > 0 {
            hashes.insert(o.hash);
        }
        if digests {
            println!("{seed} {} {:016x} {:016x} {}", o.class, o.hash, o.inter, o.msg);
        }
        if samples.len() < 2 && o.class == 0 && sc.ops() <= 4 {
            samples.push(sc.json());
        }
        if o.class != 0 {
            violation = found(&o);
            save(out, &sc, &o, Vec::new());
            if !digests {
                break;
            }
        }
        i += stride;
    }
    if digests {
        return;
    }
    if let Some(p) = arg(args, "--sets") {
        let mut f = std::io::BufWriter::new(std::fs::File::create(p).unwrap_or_else(|e| die(&e.to_string())));
        for (tag, set) in [(1u64, &states), (2, &inters), (3, &hashes)] {
            for x in set.iter() {
                let _ = f.write_all(&tag.to_le_bytes());
                let _ = f.write_all(&x.to_le_bytes());
            }
        }
    }
    let counts = |c: &[u64]| J::Obj(CTR_NAMES.iter().zip(c).filter(|x| *x.1 > 0).map(|(n, v)| (n.to_string(), J::Num(*v as i64))).collect());
    let j = J::Obj(vec![
        ("runs".into(), J::Num(runs as i64)),
        ("next".into(), J::Num(i as i64)),
        ("wall_ms".into(), J::Num(t0.elapsed().as_millis() as i64)),
        ("slowest_ms".into(), J::Num(slowest.0 as i64)),
        ("slowest_seed".into(), J::Num(slowest.1 as i64)),
        ("counters".into(), counts(&ctr)),
        ("runs_with".into(), counts(&runs_with)),
        ("profiles".into(), J::Obj(profiles.into_iter().map(|(k, v)| (k, J::Num(v as i64))).collect())),
        (
            "machines".into(),
            J::Obj(cpu::LEVELS.iter().zip(machines).map(|(n, v)| (n.to_string(), J::Num(v as i64))).collect()),
        ),
        ("samples".into(), J::Arr(samples)),
        ("violation".into(), violation),
    ]);
    println!("{}", j.text());
}

/// Starts over without address randomisation, where the system allows it. Nothing depends on it, but
/// code that misbehaves then does so in the same way every time.
fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: libc::c_int = 0x0040000;
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now < 0 || now & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("SIM_ASLR").is_some() {
            return;
        }
        if libc::personality((now | ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_ASLR", "1").exec();
}

/// Offsets of instructions on standard input, what the decoder makes of them on standard output.
fn decode() {
    let (base, _) = rt::text_range();
    let mut out = String::new();
    for l in std::io::stdin().lines().map_while(Result::ok) {
        let at = base + u64::from_str_radix(l.trim(), 16).unwrap_or(0);
        let i = unsafe { ea::decode(at as *const u8) };
        out += &match i.form {
            ea::Form::None => format!("{l} none\n"),
            ea::Form::Unknown => format!("{l} unknown\n"),
            ea::Form::Mem(n, op) => format!("{l} {n} {op:?} {:?} {} {}\n", i.mem.unwrap(), i.rip_relative, i.segment),
            ea::Form::Movs(n) => format!("{l} movs {n}\n"),
            ea::Form::Stos(n) => format!("{l} stos {n}\n"),
            ea::Form::Lods(n) => format!("{l} lods {n}\n"),
        };
    }
    print!("{out}");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    fixed_addresses();
    run::init();
    match args.get(1).map(|s| s.as_str()) {
        Some("decode") => decode(),
        Some("search") => search(&args),
        // exit 1: the violation of the file happened again, exactly; 0: no violation; 3: something else
        Some("replay") => {
            let (sc, j) = load(args.get(2).unwrap_or_else(|| die("replay FILE")));
            let o = run::scenario(&sc, true);
            if let Some(h) = &o.harness {
                die(h);
            }
            if !args.iter().any(|a| a == "--quiet") {
                print!("{}", o.log);
            }
            let got = found(&o);
            println!("{}", got.text());
            if o.class == 0 {
                println!("no violation");
                return;
            }
            match j.get("violation") {
                Some(v) if *v == got => {
                    println!("reproduced exactly");
                    std::process::exit(1)
                }
                Some(v) if v.str("class") == got.str("class") => {
                    println!("same class, other details");
                    std::process::exit(3)
                }
                _ => {
                    println!("another violation");
                    std::process::exit(3)
                }
            }
        }
        Some("minimise") => {
            let (sc, j) = load(args.get(2).unwrap_or_else(|| die("minimise FILE OUT")));
            let out = args.get(3).unwrap_or_else(|| die("minimise FILE OUT"));
            let class = j.get("violation").map_or("", |v| v.str("class")).to_string();
            let Some(class) = CLASS_NAMES.iter().position(|c| *c == class) else { die("no violation in the file") };
            let (best, runs) = minim::minimise(&sc, class as u32, Duration::from_secs(num(&args, "--seconds", 60)));
            let o = run::scenario(&best, true);
            if o.class != class as u32 {
                die("the minimised scenario does not fail");
            }
            save(
                out,
                &best,
                &o,
                vec![
                    ("minimised_in_runs".into(), J::Num(runs as i64)),
                    ("operations_before".into(), J::Num(sc.ops() as i64)),
                    ("operations".into(), J::Num(best.ops() as i64)),
                ],
            );
        }
        Some("show") => {
            let seed = num(&args, "--scenario", 0);
            println!("{}", gen::scenario(arg(&args, "--property").unwrap_or("C01"), arg(&args, "--build").unwrap_or("A"), seed).json().text());
        }
        Some("run1") => {
            let seed = num(&args, "--scenario", 0);
            let sc = gen::scenario(arg(&args, "--property").unwrap_or("C01"), arg(&args, "--build").unwrap_or("A"), seed);
            let o = run::scenario(&sc, true);
            print!("{}", o.log);
            println!("{}", found(&o).text());
        }
        Some("list") => println!("{} host {} static {}", gen::PROPERTIES.join(" "), cpu::host_level(), cpu::static_level()),
        _ => die("search | replay FILE | minimise FILE OUT | show | run1 | list"),
    }
}
