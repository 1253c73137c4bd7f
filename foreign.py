"""The library on machines other than the host (properties C20 to C23).

Interpreted machines are Miri's, which decides scheduling, preemption, the age of the value a relaxed load returns, and addresses
from a seed. A translated machine is the library and core compiled for it to LLVM's bitcode, which is then made into code of the
host: every cfg, intrinsic, word size and byte order is the machine's, the instructions are the host's. The WebAssembly machine
is the engine in node. Scenarios come from foreign/src/gen.rs; expected results are those of the model of the other checks.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

import neon

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "foreign")
OUT = os.path.join(HERE, "target", "foreign")
NIGHTLY = "nightly"

BASE_FLAGS = ["-Zmiri-disable-isolation", "-Zmiri-disable-stacked-borrows", "-Zmiri-disable-validation"]

# features which the machine reports: none, sse2, ssse3, sse4.1 (vsimd::sim)
X86_LEVELS = ["0", "1", "3", "7"]

MACHINES = {
    "aarch64": dict(kind="miri", target="aarch64-unknown-linux-gnu", neon=True, batch=12,
                    what="AArch64 with NEON, interpreted; weakly ordered memory"),
    "aarch64-translated": dict(kind="translated", target="aarch64-unknown-none", bits=64,
                               what="AArch64 with NEON, translated to the host's instructions"),
    "arm": dict(kind="miri", target="armv7-unknown-linux-gnueabihf", neon=True, flags="-Ctarget-feature=+neon", features="unstable", batch=12,
                what="32-bit ARM with NEON, interpreted; weakly ordered memory"),
    "arm-translated": dict(kind="translated", target="armv7a-none-eabihf", bits=32, flags="-Ctarget-feature=+neon", features="unstable",
                           what="32-bit ARM with NEON, translated to the host's instructions in a 32-bit process"),
    "wasm-simd128": dict(kind="wasm", flags="-Ctarget-feature=+simd128", what="WebAssembly with simd128, in node"),
    "wasm": dict(kind="wasm", flags="", what="WebAssembly without simd128, in node"),
    "x86-32": dict(kind="miri", target="i686-unknown-linux-gnu", flags="-Ctarget-feature=+sse4.1", features="detect",
                   args=X86_LEVELS, batch=4, what="32-bit x86 with run-time detection, four machine levels, interpreted; weakly ordered memory"),
    "x86-32-sse2": dict(kind="translated", target="i686-unknown-linux-gnu", bits=32, flags="-Cdebug-assertions -Coverflow-checks",
                        what="32-bit x86 with SSE2, in a 32-bit process; debug assertions on"),
    "x86-32-sse4.1": dict(kind="translated", target="i686-unknown-linux-gnu", bits=32, flags="-Ctarget-feature=+sse4.1",
                          what="32-bit x86 with SSE4.1, in a 32-bit process"),
    "x86-32-plain": dict(kind="translated", target="i586-unknown-linux-gnu", bits=32, flags="",
                         what="32-bit x86 without SSE, in a 32-bit process"),
    "x86-64-avx2": dict(kind="translated", target="x86_64-unknown-linux-gnu", bits=64, flags="-Ctarget-feature=+avx2", needs="avx2",
                        what="x86-64 with AVX2"),
    "x86-64-plain": dict(kind="translated", target="x86_64-unknown-linux-gnu", bits=64, flags="-Cdebug-assertions -Coverflow-checks",
                         what="x86-64 with SSE2; debug assertions and overflow checks on"),
    "s390x": dict(kind="miri", target="s390x-unknown-linux-gnu", batch=12, what="64-bit big-endian, interpreted"),
    "powerpc": dict(kind="miri", target="powerpc-unknown-linux-gnu", batch=12, what="32-bit big-endian, interpreted"),
}
# of each worker, in turn
A, R, X = "aarch64", "arm", "x86-32"
WORKERS = {
    "C18": [["x86-64-avx2"]] * 4 + [["x86-64-plain"], ["x86-32-plain", "x86-32-sse4.1"], ["aarch64-translated", "arm-translated"], ["wasm", "wasm-simd128"]],
    "C20": [["aarch64-translated"]] * 2 + [[A]] * 6,
    "C21": [["arm-translated"]] * 3 + [[R]] * 5,
    "C22": [["wasm-simd128"]] * 5 + [["wasm"]] * 3,
    "C23": [["x86-32-sse2", "x86-32-sse4.1", "x86-32-plain"], [X], [X], [X], ["s390x"], ["s390x"], ["powerpc"], ["powerpc"]],
}


def machines_of(prop):
    return [m for m in MACHINES if any(m in w for w in WORKERS[prop])]


WASM = "wasm32-unknown-unknown"


class Unusable(Exception):
    """This machine cannot be simulated on this tree or in this sandbox."""


def sh(cmd, env=None, **kw):
    e = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "MIRIFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_INCREMENTAL"] = "0"
    e.update(env or {})
    return subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def must(p):
    if p.returncode != 0:
        raise Unusable((p.stderr or p.stdout)[-1500:])
    return p.stdout


_sysroot = []


def sysroot():
    if not _sysroot:
        _sysroot.append(must(sh(["rustc", "+" + NIGHTLY, "--print", "sysroot"])).strip())
    return _sysroot[0]


def stamp(name, what):
    """Whether `name` was made from `what` already; the caller writes the stamp afterwards."""
    path = os.path.join(OUT, name + ".stamp")
    want = hashlib.sha256((sysroot() + what + must(sh(["rustc", "+" + NIGHTLY, "-vV"]))).encode()).hexdigest()
    have = open(path).read() if os.path.exists(path) else ""
    return have == want, lambda: open(path, "w").write(want)


# What feature `unstable` of the library needs from a nightly of its time.
THEN = """
#[unstable(feature = "array_chunks", issue = "none")]
#[doc(hidden)]
pub mod sim_1 {}
#[unstable(feature = "stdarch_arm_feature_detection", issue = "none")]
#[doc(hidden)]
pub mod sim_2 {}
"""
LANES = """
    #[allow(missing_debug_implementations)]
    #[doc(hidden)]
    #[unstable(feature = "portable_simd", issue = "86656")]
    pub struct LaneCount<const N: usize>;
    #[doc(hidden)]
    #[unstable(feature = "portable_simd", issue = "86656")]
    pub trait SupportedLaneCount {}
    impl<const N: usize> SupportedLaneCount for LaneCount<N> {}
"""


PATCHES = open(neon.__file__).read() + THEN + LANES


def neon_library():
    """A copy (symbolic links) of the standard library's sources in which Miri can run the NEON intrinsics."""
    d = os.path.join(OUT, "library")
    fresh, done = stamp("library", PATCHES)
    if fresh and os.path.isdir(d):
        return d
    if os.path.isdir(d):
        shutil.rmtree(d)
    src = os.path.join(sysroot(), "lib/rustlib/src/rust/library")
    must(sh(["cp", "-as", src, d]))

    def edit(name, f):
        path = os.path.join(d, name)
        text = f(open(path).read())
        os.remove(path)
        open(path, "w").write(text)

    for arch in ("arm_shared", "aarch64"):
        edit("stdarch/crates/core_arch/src/%s/neon/generated.rs" % arch, lambda text: neon.models(text)[0])
    edit("core/src/lib.rs", lambda text: text.replace("    pub use crate::core_simd::simd::*;\n", "    pub use crate::core_simd::simd::*;\n" + LANES, 1) + THEN)
    done()
    return d


def miri_env(m):
    t = MACHINES[m]
    e = {"MIRI_SYSROOT": os.path.join(OUT, "sysroot-" + t["target"]), "CARGO_TARGET_DIR": os.path.join(OUT, "m-" + m),
         "RUSTFLAGS": ("--cfg vsimd_sim " + t.get("flags", "")).strip()}
    return e


def rlibs(d, target, flags, lib):
    """core, compiler_builtins and alloc for a target without an operating system."""
    o = os.path.join(d, "lib/rustlib", target, "lib")
    os.makedirs(o, exist_ok=True)
    r = ["rustc", "+" + NIGHTLY, "--target", target, "--crate-type", "rlib", "--edition", "2024", "-C", "opt-level=2",
         "-C", "panic=abort", "-C", "metadata=ws", "-C", "extra-filename=-ws", "-C", "codegen-units=1",
         "-Zforce-unstable-if-unmarked", "--cap-lints", "allow", "--out-dir", o, "-L", "dependency=" + o, "--sysroot", d] + flags
    core = ["--extern", "core=%s/libcore-ws.rlib" % o]
    cb = ["--extern", "compiler_builtins=%s/libcompiler_builtins-ws.rlib" % o]
    env = {"RUSTC_BOOTSTRAP": "1"}
    must(sh(r + ["--crate-name", "core", lib + "/core/src/lib.rs"], env))
    cfgs = []
    for c in ('feature="compiler-builtins"', 'feature="unmangled-names"', 'feature="mem"', 'feature="arch"', "intrinsics_enabled", "arch_enabled"):
        cfgs += ["--cfg", c]
    must(sh(r + ["--crate-name", "compiler_builtins"] + core + cfgs + [lib + "/compiler-builtins/compiler-builtins/src/lib.rs"], env))
    must(sh(r + ["--crate-name", "alloc"] + core + cb + [lib + "/alloc/src/lib.rs"], env))


def root_of(m):
    """Name of the sysroot, and what distinguishes it."""
    t = MACHINES[m]
    if t["kind"] == "wasm":
        return "wasm-sysroot", ["-C", "embed-bitcode=no"]
    if t["kind"] == "translated":
        f = [x for x in t.get("flags", "").split() if "target-feature" in x]
        return "-".join(["bare", t["target"]] + [x.split("+")[1] for x in f]), ["-C", "linker-plugin-lto"] + f
    return "sysroot-" + t["target"], []


def make_sysroot(m):
    t = MACHINES[m]
    name, flags = root_of(m)
    d = os.path.join(OUT, name)
    patched = t["kind"] == "translated" or t.get("neon")
    fresh, done = stamp(name, repr(flags) + (PATCHES if patched else ""))
    if fresh and os.path.isdir(d):
        return
    for old in [d] + [os.path.join(OUT, "m-" + x) for x in MACHINES if root_of(x)[0] == name]:
        if os.path.isdir(old):
            shutil.rmtree(old)
    if t["kind"] == "miri":
        env = {"MIRI_SYSROOT": d}
        if patched:
            env["MIRI_LIB_SRC"] = neon_library()
        must(sh(["cargo", "+" + NIGHTLY, "miri", "setup", "--target", t["target"]], env))
    else:
        lib = neon_library() if patched else os.path.join(sysroot(), "lib/rustlib/src/rust/library")
        rlibs(d, WASM if t["kind"] == "wasm" else t["target"], flags, lib)
    done()


def make_library(m):
    """The crates of /repo for this machine. Cargo decides what has changed."""
    t = MACHINES[m]
    features = ["--features", t["features"]] if t.get("features") else []
    if t["kind"] == "miri":
        cmd = ["cargo", "+" + NIGHTLY, "miri", "run", "--offline", "--locked", "--quiet", "--target", t["target"], "--bin", "foreign"]
        env = miri_env(m)
        env["MIRIFLAGS"] = " ".join(BASE_FLAGS)
        must(sh(cmd + features, env, cwd=CRATE, stdin=subprocess.DEVNULL))
        return
    name, flags = root_of(m)
    flags = ["--sysroot", os.path.join(OUT, name)] + flags
    if t["kind"] == "translated":
        flags += ["--cfg", "sim_embedded"]
    flags += [f for f in t.get("flags", "").split() if f not in flags]
    env = {"CARGO_TARGET_DIR": os.path.join(OUT, "m-" + m), "CARGO_PROFILE_RELEASE_LTO": "false", "RUSTFLAGS": " ".join(flags)}
    cmd = ["cargo", "+" + NIGHTLY, "rustc", "--offline", "--locked", "--quiet", "--release", "--lib"] + features
    if t["kind"] == "wasm":
        must(sh(cmd + ["--crate-type", "cdylib", "--target", WASM], env, cwd=CRATE))
        return
    env["CARGO_PROFILE_RELEASE_CODEGEN_UNITS"] = "1"
    env["RUSTC_BOOTSTRAP"] = "1"
    must(sh(cmd + ["--crate-type", "staticlib", "--target", t["target"]], env, cwd=CRATE))
    translate(m, os.path.join(env["CARGO_TARGET_DIR"], t["target"], "release", "libforeign.a"))


LAYOUT = {
    64: ("x86_64-unknown-linux-gnu", "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"),
    32: ("i686-unknown-linux-gnu", "e-m:e-p:32:32-p270:32:32-p271:32:32-p272:64:64-i128:128-f64:32:64-f80:32-n8:16:32-S128"),
}
EXPORTED = "one,show,vast_one,vast_show,state,counts,replay,message,message_len,operations,hash,text_room,__udivdi3,__umoddi3,__divdi3,__moddi3,__udivti3,__umodti3,__multi3"


def translate(m, archive):
    """From the archive of LLVM bitcode that rustc made for the machine to an executable of the host."""
    bits = MACHINES[m]["bits"]
    with open(archive, "rb") as f:
        h = hashlib.sha256(f.read() + open(os.path.join(CRATE, "host.c"), "rb").read()).hexdigest()
    fresh, done = stamp("x-" + m, h)
    if fresh and os.path.exists(module(m)):
        return
    tools = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")

    def tool(name, *args):
        must(sh([os.path.join(tools, name)] + list(args), cwd=d))

    need = MACHINES[m].get("needs")
    if need and need not in open("/proc/cpuinfo").read().split():
        raise Unusable("the host has no " + need)
    d = os.path.join(OUT, "x-" + m)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    tool("llvm-ar", "x", archive)
    objects = []
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as g:
            if g.read(2) == b"BC":
                objects.append(f)
    tool("llvm-link", "-o", "all.bc", *objects)
    tool("opt", "-passes=internalize,globaldce", "--internalize-public-api-list=" + EXPORTED, "all.bc", "-o", "small.bc")
    tool("llvm-dis", "small.bc", "-o", "small.ll")
    text = open(os.path.join(d, "small.ll")).read()
    x86 = "-unknown-linux" in MACHINES[m]["target"]
    if not x86 and " asm " in text.replace(" asm sideeffect \"\"", ""):
        raise Unusable("the library contains inline assembly of another machine")
    triple, layout = LAYOUT[bits]
    text = re.sub(r"(?m)^target datalayout = .*$", 'target datalayout = "%s"' % layout, text)
    text = re.sub(r"(?m)^target triple = .*$", 'target triple = "%s"' % triple, text)
    text = re.sub('"(%starget-cpu|probe-stack|frame-pointer)"="[^"]*"' % ("" if x86 else "target-features|"), "", text)
    text = re.sub(r"(?m)^(attributes #\d+ = \{) *\}", r'\1 "sim" }', text)
    with open(os.path.join(d, "host.ll"), "w") as f:
        f.write(text)
    cpu = ["-mcpu=i586"] if "i586" in MACHINES[m]["target"] else ["-mcpu=x86-64"] if x86 else ["-mcpu=x86-64-v2"]
    tool("opt", "-O2", *cpu, "host.ll", "-o", "host.bc")
    tool("llc", "-O2", *cpu, "-relocation-model=static", "-filetype=obj", "host.bc", "-o", "lib.o")
    must(sh(["gcc", "-m%d" % bits, "-O1", "-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fno-pic", "-no-pie", "-static", "-nostdlib",
             "-Wl,-z,noexecstack", "-o", module(m), os.path.join(CRATE, "host.c"), "lib.o"], cwd=d))
    p = subprocess.run([module(m), "seeds", "1", "0", "0"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    if p.returncode not in (0, 2):
        raise Unusable("the sandbox does not run such processes (%d)" % p.returncode)
    done()


def module(m):
    if MACHINES[m]["kind"] == "translated":
        return os.path.join(OUT, "x-" + m, "host")
    return os.path.join(OUT, "m-" + m, WASM, "release", "foreign.wasm")


def generator():
    return os.path.join(OUT, "host", "release", "gen")


def build(only=None):
    """Builds everything; returns {machine: why not} for those that cannot be had."""
    os.makedirs(OUT, exist_ok=True)
    sysroot()
    bad = {}

    def attempt(m, f, *a):
        try:
            f(*a)
        except Unusable as e:
            bad[m] = str(e)
        except (OSError, subprocess.SubprocessError, AttributeError) as e:
            bad[m] = repr(e)

    def together(jobs):
        ts = [threading.Thread(target=attempt, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def host():
        must(sh(["cargo", "build", "--offline", "--locked", "--quiet", "--release", "--bin", "gen"],
                {"CARGO_TARGET_DIR": os.path.join(OUT, "host")}, cwd=CRATE))

    ms = [m for m in MACHINES if only is None or m in only]
    first = {}
    for m in ms:
        first.setdefault(root_of(m)[0], m)
    need = [m for m in ms if MACHINES[m]["kind"] == "translated" or MACHINES[m].get("neon")]
    if need:
        attempt("library", neon_library)
        if "library" in bad:
            why = bad.pop("library")
            bad.update({m: why for m in need})
    together([("host", host)] + [(m, make_sysroot, m) for m in first.values() if m not in bad])
    for m in ms:
        w = first[root_of(m)[0]]
        if w in bad:
            bad[m] = bad[w]
    together([(m, make_library, m) for m in ms if m not in bad])
    return bad


# ---- one execution -------------------------------------------------------------------------------------------------------------

CPU_S = 150


def limited():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def interpret(m, data, flags, arg):
    """One process of an interpreted machine: (number of scenarios done, END lines, violation or None)."""
    t = MACHINES[m]
    env = miri_env(m)
    env["MIRIFLAGS"] = " ".join(BASE_FLAGS + flags)
    env["MIRI"] = os.path.join(sysroot(), "bin", "miri")
    binary = os.path.join(env["CARGO_TARGET_DIR"], "miri", t["target"], "debug", "foreign")
    cmd = [os.path.join(sysroot(), "bin", "cargo-miri"), "runner", binary] + ([arg] if arg else [])
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env)
    p = subprocess.run(cmd, env=e, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limited)
    out = p.stdout.decode(errors="replace").splitlines()
    err = p.stderr.decode(errors="replace")
    ends = [l.split() for l in out if l.startswith("END ")]
    at = sum(l.startswith("BEGIN ") for l in out) - 1
    if p.returncode == 0:
        return at + 1, ends, None
    bad = [l for l in out if l.startswith("BAD ")]
    if bad:
        return at + 1, ends, {"class": "wrong-result", "message": bad[0].split(" ", 2)[2], "at": at}
    if p.returncode in (-24, -9, 152, 137) and p.returncode in (-24, 152):
        return at + 1, ends, {"class": "no-progress", "message": "does not end within %d s of CPU time" % CPU_S, "at": at}
    line = next((l for l in err.splitlines() if l.startswith("error")), "")
    where = next((l.strip() for l in err.splitlines() if l.strip().startswith("-->")), "")
    if "Undefined Behavior" in line:
        cls = "undefined-behaviour"
    elif "memory leaked" in line:
        cls = "leak"
    elif "deadlock" in line:
        cls = "deadlock"
    elif "abnormal termination" in line:
        cls = "abort"
    elif p.returncode == 101 and "error:" not in err and "error[" not in err:
        cls = "panic"
    else:
        # an operation that Miri does not have, a failure of Miri, a missing file
        raise Unusable((line + " " + where) if line else "status %d: %s" % (p.returncode, err[-400:]))
    return at + 1, ends, {"class": cls, "message": (line + " " + where.replace(HERE, "")).strip(), "at": max(at, 0)}


def engine(m, args, data=None):
    """A machine which makes its scenarios itself."""
    cmd = [module(m)] if MACHINES[m]["kind"] == "translated" else ["node", os.path.join(CRATE, "engine.js"), module(m)]
    p = subprocess.run(cmd + [str(a) for a in args], input=data,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limited)
    if p.returncode in (-24, 152):
        return {"violation": {"class": "no-progress", "message": "does not end within %d s of CPU time" % CPU_S}}
    if p.returncode != 0:
        raise Unusable("%s: %d %s" % (m, p.returncode, p.stderr.decode(errors="replace")[-400:]))
    return json.loads(p.stdout)


def complete(texts, tmp):
    path = os.path.join(tmp, "t%d.bin" % threading.get_ident())
    must(sh([generator(), "text", path], input="\n".join(texts) + "\n"))
    return open(path, "rb").read()


def execute(case, tmp):
    """Runs what a replay file describes; the violation or None."""
    if MACHINES[case["machine"]]["kind"] != "miri":
        v = engine(case["machine"], ["text"], "\n".join(case["scenarios"]).encode())["violation"]
    else:
        v = interpret(case["machine"], complete(case["scenarios"], tmp), case["flags"], case["argument"])[2]
    return v and {"class": v["class"], "message": v["message"]}


# ---- search --------------------------------------------------------------------------------------------------------------------

def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & (2**64 - 1)
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9 & (2**64 - 1)
    z = (z ^ (z >> 27)) * 0x94D049BB133111EB & (2**64 - 1)
    return z ^ (z >> 31)


def flags_of(x):
    """What the interpreter's own seed decides, and how far it goes."""
    f = ["-Zmiri-seed=%d" % (x & 0xFFFFFFFF), "-Zmiri-preemption-rate=%s" % ["0.01", "0.1", "0.3", "0"][x >> 32 & 3]]
    if x >> 34 & 3 == 0:
        f.append("-Zmiri-address-reuse-rate=1")
    if x >> 36 & 3 == 0:
        f.append("-Zmiri-compare-exchange-weak-failure-rate=0.9")
    return f


def count(texts, ctr, ops):
    for t in texts:
        parts = t.split("|")
        threads = parts[1:]
        ctr["runs_with_several_threads"] = ctr.get("runs_with_several_threads", 0) + (len(threads) > 1)
        ctr["runs_with_shared_memory"] = ctr.get("runs_with_shared_memory", 0) + (parts[0] == "shared")
        for st in (s for th in threads for s in th.split(";") if s):
            f = st.split(",")
            ops[f[0]] = ops.get(f[0], 0) + 1
            ctr["operations"] = ctr.get("operations", 0) + 1
            ctr["allocations_to_fail"] = ctr.get("allocations_to_fail", 0) + (f[3] != "0")
            ctr["destinations_too_short"] = ctr.get("destinations_too_short", 0) + (f[2].startswith("-"))


class Worker(threading.Thread):
    def __init__(self, prop, w, machines, base, end, tmp, stop):
        super().__init__()
        self.prop, self.w, self.machines, self.base, self.end_at, self.tmp, self.stop = prop, w, machines, base, end, tmp, stop
        self.per, self.bad = {}, {}
        self.runs, self.ctr, self.ops, self.seen, self.orders = 0, {}, {}, set(), set()
        self.case = self.unusable = None
        self.samples, self.processes = [], 0

    def run(self):
        k = 0
        while time.time() < self.end_at and not self.stop.is_set():
            left = [m for m in self.machines if m not in self.bad]
            if not left:
                break
            m = left[k % len(left)]
            before = self.runs
            try:
                (self.miri if MACHINES[m]["kind"] == "miri" else self.whole)(m, k)
            except Unusable as e:
                self.bad[m] = str(e)
            except Exception as e:
                self.bad[m] = repr(e)
            self.per[m] = self.per.get(m, 0) + self.runs - before
            k += 1

    def found(self, m, flags, arg, scenarios, v):
        self.case = dict(property=self.prop, build="foreign", machine=m, flags=flags, argument=arg, scenarios=scenarios, violation=v)
        self.stop.set()

    def miri(self, m, k):
        t = MACHINES[m]
        path = os.path.join(self.tmp, "w%d.bin" % self.w)
        first = (k * 64 + self.w) * 64
        x = mix(self.base ^ mix(first))
        size = [40, 80, 80, 160, 400, 80, 80, 40][x >> 40 & 7]
        n = t["batch"] if size < 200 else max(2, t["batch"] // 3)
        texts = must(sh([generator(), "seeds", str(self.base), str(first), str(n), str(size), path])).splitlines()
        flags = flags_of(x)
        arg = t["args"][x >> 44 & 3] if "args" in t else None
        data = open(path, "rb").read()
        done, ends, v = interpret(m, data, flags, arg)
        self.processes += 1
        self.runs += done
        count(texts[:done], self.ctr, self.ops)
        for e, text in zip(ends, texts):
            self.seen.add(hash((text, e[2], e[3])))
            if text.count("|") > 1:
                self.orders.add(e[3])
        if len(self.samples) < 1:
            self.samples.append({"machine": m, "flags": flags, "argument": arg, "scenario": texts[0][:600]})
        if v:
            self.found(m, flags, arg, texts[: v.pop("at") + 1], v)

    def whole(self, m, k):
        first = self.w * 1_000_000 + k * 2_000_000
        r = engine(m, ["vast" if self.prop == "C18" else "seeds", self.base, first, max(1, int(min(5, self.end_at - time.time())))])
        self.processes += 1
        self.runs += r["runs"]
        for c, n in r["counters"].items():
            self.ctr[c] = self.ctr.get(c, 0) + n
        self.whole_distinct = getattr(self, "whole_distinct", 0) + r["distinct"]
        if len(self.samples) < 1:
            self.samples.append({"machine": m, "scenario": r["sample"][:600]})
        if r["violation"]:
            self.found(m, [], None, [r["scenario"]], r["violation"])


def search(prop, base, seconds, tmp, bad):
    stop = threading.Event()
    lay = []
    usable = [m for m in machines_of(prop) if m not in bad]
    for w, ms in enumerate(WORKERS[prop]):
        lay.append([m for m in ms if m in usable] or [usable[w % len(usable)]])
    ws = [Worker(prop, w, ms, base, time.time() + seconds, tmp, stop) for w, ms in enumerate(lay)]
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    return ws


# ---- minimising ----------------------------------------------------------------------------------------------------------------

def minimise(case, tmp, seconds):
    """Leaves out scenarios, threads, steps and parts of inputs while the violation's class stays."""
    end = time.time() + seconds
    cls = case["violation"]["class"]
    best = dict(case)

    def fails(scenarios):
        if time.time() > end:
            return None
        c = dict(best, scenarios=scenarios)
        try:
            v = execute(c, tmp)
        except Unusable:
            return None
        if v and v["class"] == cls:
            best.update(scenarios=scenarios, violation=v)
            return v
        return None

    fails(best["scenarios"][-1:]) or fails(best["scenarios"][-2:])
    again = True
    while again and time.time() < end:
        again = False
        for i in reversed(range(len(best["scenarios"]))):
            if len(best["scenarios"]) > 1 and fails(best["scenarios"][:i] + best["scenarios"][i + 1:]):
                again = True
        for i in range(len(best["scenarios"])):
            head, *threads = best["scenarios"][i].split("|")
            ths = [[s for s in t.split(";") if s] for t in threads]

            def attempt(new):
                text = "|".join([head] + ["".join(s + ";" for s in t) for t in new])
                return fails(best["scenarios"][:i] + [text] + best["scenarios"][i + 1:])

            for t in reversed(range(len(ths))):
                if len(ths) > 1 and attempt(ths[:t] + ths[t + 1:]):
                    ths = ths[:t] + ths[t + 1:]
                    again = True
            for t in range(len(ths)):
                for s in reversed(range(len(ths[t]))):
                    new = ths[:t] + [ths[t][:s] + ths[t][s + 1:]] + ths[t + 1:]
                    if attempt(new):
                        ths = new
                        again = True
                for s in range(len(ths[t])):
                    f = ths[t][s].split(",")
                    b = f[5]
                    if head == "vast":
                        for i, plain in ((1, "0"), (3, "0"), (5, "0"), (6, str(2**64 - 1)), (6, str(2**32 - 1)), (4, "1"), (4, "3")):
                            new = [list(x) for x in ths]
                            new[t][s] = ",".join(f[:i] + [plain] + f[i + 1:])
                            if f[i] != plain and attempt(new):
                                ths = new
                                f = new[t][s].split(",")
                        continue
                    size = len(b) // 2
                    if "uuid." in f[0] and "fmt" in f[0] or "format" in f[0]:
                        continue
                    k = max(1, size // 2)
                    while k >= 1 and time.time() < end:
                        at, shrunk = 0, False
                        while at < len(b) // 2:
                            nb = b[: 2 * at] + b[2 * (at + k):]
                            new = [list(x) for x in ths]
                            new[t][s] = ",".join(f[:5] + [nb])
                            if attempt(new):
                                b, ths, shrunk, again = nb, new, True, True
                            else:
                                at += k
                        k //= 2
    return best


def report(case, tmp):
    """Minimises; the file must reproduce the violation exactly, twice."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for attempt in (minimise(case, tmp, 90), case):
        want = attempt["violation"]
        if all(execute(attempt, tmp) == want for _ in range(2)):
            h = hashlib.sha256(json.dumps(attempt, sort_keys=True).encode()).hexdigest()[:16]
            path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (attempt["property"], attempt["machine"], h))
            with open(path, "w") as f:
                json.dump(attempt, f, indent=1)
                f.write("\n")
            return attempt, path
    return None, None


ASSUME = [
    "Miri's semantics, scheduler and memory model stand for interpreted machines; a few NEON loads, maxima and movemasks take the library's own cfg(miri) form there",
    "translated machines: rustc's and LLVM's lowering of portable operations stands for the machine; the compiler's back end for it is not exercised; single-threaded, sequentially consistent",
    "NEON intrinsics which have no portable form are modelled in Rust from the architecture's definition",
    "WebAssembly runs single-threaded; allocations fail on interpreted machines only",
    "inputs are sampled, at most 400 bytes on interpreted machines; on the others most are shorter than 3000, some reach 80 000, few 1.3 million",
]
ASSUME_VAST = [
    "inputs and results of gigabytes lie in windows which show the same 15 MiB over and over, with pages of their own at the ends, at powers of two and at wrong "
    "characters; their content is periodic, so what is written in the wrong period of the right window at the right phase is seen only in those pages",
    "on 64-bit machines slices reach 9 GiB, not 2^63 bytes; numbers passed to the length functions reach 2^64-1",
    "in the WebAssembly machine the 2 GiB source is all zero, so that only refusals, rejections and lengths are judged",
    "translated machines: rustc's and LLVM's lowering stands for the machine (on x86 it is the machine's)",
]


def run(prop, tier, base, seconds):
    t0 = time.time()
    bad = build(machines_of(prop))
    build_s = time.time() - t0
    if "host" in bad:
        print("harness: the generator cannot be built: " + bad["host"], flush=True)
        return 2
    for m, why in bad.items():
        print("note: %s is not simulated: %s" % (m, " ".join(why.split())[-300:]), flush=True)
    if all(m in bad for m in machines_of(prop)):
        print("harness: no machine can be simulated", flush=True)
        return 2
    with tempfile.TemporaryDirectory(prefix="simd-foreign.") as tmp:
        s0 = time.time()
        ws = search(prop, base, seconds, tmp, bad)
        search_s = time.time() - s0
        ctr, ops, per = {}, {}, {}
        for w in ws:
            for k, n in w.ctr.items():
                ctr[k] = ctr.get(k, 0) + n
            for k, n in w.ops.items():
                ops[k] = ops.get(k, 0) + n
            for m, n in w.per.items():
                per[m] = per.get(m, 0) + n
            for m, why in w.bad.items():
                bad[m] = why
                print("note: %s stopped: %s" % (m, " ".join(why.split())[-300:]), flush=True)
        runs = sum(w.runs for w in ws)
        cases = [w.case for w in ws if w.case]
        evidence = {
            "property": prop, "tier": tier, "seed": base, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": sum(len(w.seen) + getattr(w, "whole_distinct", 0) for w in ws),
                "rule": "One run = one scenario (threads, operations with inputs, placement and faults) on one simulated machine under one "
                "interpreter seed. Non-trivial: at least one operation was executed and judged. Distinct: scenario, results and order of "
                "operations, per worker.",
                "samples": [s for w in ws for s in w.samples][:3],
                "runs_per_hour": int(runs * 3600 / max(search_s, 0.001)),
                "simulated_time": "the library has no clock",
                "operations": ctr.get("operations", 0),
                "operations_by_kind_on_interpreted_machines": ops,
                "faults_injected": {k: ctr[k] for k in ("allocations_to_fail", "destinations_too_short", "runs_with_several_threads", "runs_with_shared_memory",
                                                          "vast_blocks_refused", "vast_blocks_given", "operations_over_gigabytes", "ends_without_return") if k in ctr},
                "processes": sum(w.processes for w in ws),
                "distinct_interleavings": sum(len(w.orders) for w in ws),
                "distinct_interleavings_measure": "order in which operations of all threads begin and end, per worker (preemption inside operations is not counted apart)",
                "simulated_machines": {m: {"runs": n, "what": MACHINES[m]["what"]} for m, n in per.items()},
                "not_simulated": {m: " ".join(w.split())[-300:] for m, w in bad.items()},
                "ran_real": ["all crates of /repo compiled for the machine from the working tree", "core, alloc and (interpreted machines) std of the machine"],
                "ran_stub": ["the CPU: Miri, the WebAssembly engine of node, or LLVM's translation to the host's instructions",
                             "NEON intrinsics without a portable form (Rust models, neon.py)", "thread scheduling, weak memory, addresses (Miri, seeded)",
                             "allocation failure (a failing global allocator)", "the nightly feature gates that feature unstable names (ARM)"],
                "search_wall_s": round(search_s, 2), "build_wall_s": round(build_s, 2),
            },
            "assumptions": ASSUME_VAST if prop == "C18" else ASSUME, "violations": len(cases), "wall_s": 0.0,
        }

        def save():
            evidence["wall_s"] = round(time.time() - t0, 2)
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                json.dump(evidence, f, indent=1)
                f.write("\n")

        save()
        if cases:
            case, path = report(cases[0], tmp)
            save()
            if case is None:
                print("harness: a violation on %s did not reproduce: %s" % (cases[0]["machine"], cases[0]["violation"]), flush=True)
                return 2
            print("%s: %s (machine %s)" % (case["violation"]["class"], case["violation"]["message"], case["machine"]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
    if runs == 0:
        print("harness: nothing was run", flush=True)
        return 2
    print("%s: no violation in %d runs (%d operations; %s), %.0f s" % (
        prop, runs, ctr.get("operations", 0), ", ".join("%s %d" % x for x in sorted(per.items())), time.time() - t0))
    return 0


def determinism(n):
    """The same seeds twice, in other processes; the number of machines on which something differs."""
    bad = build()
    for m, why in bad.items():
        print("%s not available" % m)
    differ = 0
    with tempfile.TemporaryDirectory(prefix="simd-foreign.") as tmp:
        for m in MACHINES:
            if m in bad:
                continue
            outs = []
            if MACHINES[m]["kind"] != "miri":
                n_runs = 200 * n
                outs = [[], []]
                for o in outs:
                    if any(m in w and p != "C18" for p, ws in WORKERS.items() for w in ws):
                        o.append(engine(m, ["digest", 7, 0, n_runs])["digest"])
                    if m in machines_of("C18"):
                        o.append(engine(m, ["vdigest", 7, 0, n])["digest"])
            else:
                n_runs = n
                for _ in range(2):
                    path = os.path.join(tmp, "d.bin")
                    out = []
                    for first in range(0, n, 10):
                        must(sh([generator(), "seeds", "7", str(first), "10", "80", path]))
                        arg = MACHINES[m].get("args", [None])
                        out.append(interpret(m, open(path, "rb").read(), flags_of(mix(first)), arg[first // 10 % len(arg)]))
                    outs.append(out)
            differ += outs[0] != outs[1]
            print("%s %d runs %s" % (m, n_runs, "identical" if outs[0] == outs[1] else "DIFFER"), flush=True)
    return differ


def replay(path):
    case = json.load(open(path))
    bad = build([case["machine"]])
    if bad:
        print("harness: %s" % bad)
        return 2
    with tempfile.TemporaryDirectory(prefix="simd-foreign.") as tmp:
        v = execute(case, tmp)
    print(json.dumps(v))
    if v is None:
        print("no violation")
        return 0
    print("reproduced exactly" if v == case["violation"] else "another violation")
    return 1 if v == case["violation"] else 3
