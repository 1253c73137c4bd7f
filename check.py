#!/usr/bin/env python3
"""Driver of the deterministic simulation.

  check.py build                       builds the simulators from /repo's working tree
  check.py run PROPERTY [TIER]         decides a property (VERIF_TIER, VERIF_SEED)
  check.py replay FILE                 replays a violation (1: happened again exactly, 0: it did not)
  check.py determinism [N]             runs N seeds of every property twice and compares the executions
  check.py manifest                    rewrites MANIFEST.json
"""
import fcntl, json, os, struct, subprocess, sys, tempfile, time

import foreign

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(HERE, "target")
NIGHTLY = "+nightly-2025-06-20"  # the one /opt/vp builds the unstable features with

# name -> (toolchain, features, extra flags, description)
BUILDS = {
    "A": (None, "detect,std", "", "stable, run-time detection"),
    "B": (NIGHTLY, "detect,std,unstable,parallel", "-C debug-assertions=on -C overflow-checks=on",
          "nightly, run-time detection, unstable and parallel, debug assertions and overflow checks"),
    "C": (None, "detect,std", "-C target-feature=+avx2", "stable, AVX2 at compile time"),
    "D": (None, "", "-C target-feature=+sse4.1", "stable, no detection, SSE4.1 at compile time"),
    "E": (None, "", "", "stable, no detection, baseline"),
}

# which builds the workers run (8 of them)
WORKERS = {
    "default": "AAABBCDE",
    "C07": "AAAABBCA",
    "C08": "AAABBCDE",
    "C13": "BBBBBBBB",
}
QUICK_S = 45
THOROUGH_S = 600

LEVEL = "exploration"


def die(msg, code=2):
    print("harness: " + msg, flush=True)
    sys.exit(code)


def host_avx2():
    try:
        with open("/proc/cpuinfo") as f:
            return " avx2" in f.read()
    except OSError:
        return True


def binary(b):
    return os.path.join(TARGET, b, "release", "simd-dst")


def build(names):
    """Builds the simulators, all at once. Cargo decides what has changed in /repo."""
    os.makedirs(TARGET, exist_ok=True)
    procs = []
    t0 = time.time()
    for b in names:
        tc, feats, flags, _ = BUILDS[b]
        env = dict(os.environ)
        env["RUSTFLAGS"] = ("--cfg vsimd_sim " + flags).strip()
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, b)
        env.pop("CARGO_BUILD_TARGET", None)
        env["CARGO_INCREMENTAL"] = "0"
        if tc is None:
            env["RUSTC_BOOTSTRAP"] = "1"
        cmd = ["cargo"] + ([tc] if tc else []) + ["build", "--offline", "--locked", "--release", "--quiet"]
        if feats:
            cmd += ["--features", feats]
        log = tempfile.TemporaryFile("w+")
        procs.append((b, subprocess.Popen(cmd, cwd=SIM, env=env, stdout=log, stderr=log), log))
    for b, p, log in procs:
        if p.wait() != 0:
            log.seek(0)
            sys.stderr.write(log.read()[-6000:])
            die("build %s failed" % b)
    return time.time() - t0


class Lock:
    """Two checks at once would share the build folders."""

    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def known_findings(prop):
    """Lines 'finding: property=Cxx class=<class> match=<text of the message>'."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                cls = line.split("class=", 1)[1].split(" ", 1)[0]
                out.append((cls, line.split("match=", 1)[1]))
    return out


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def reach(prop, seconds, base, tmp):
    """The search: eight workers, each with its own part of the seeds. Returns results and violations."""
    lay = WORKERS.get(prop, WORKERS["default"])
    if not host_avx2():
        lay = lay.replace("C", "A")
    ncpu = os.cpu_count() or 8
    known = known_findings(prop)
    jobs = []
    for w, b in enumerate(lay):
        n = lay.count(b)
        first = lay[:w].count(b)
        jobs.append({"b": b, "stride": n, "first": first, "w": w, "seg": 0, "end": time.time() + seconds})

    def start(j):
        j["out"] = os.path.join(tmp, "v%d.%d.json" % (j["w"], j["seg"]))
        j["sets"] = os.path.join(tmp, "s%d.%d.bin" % (j["w"], j["seg"]))
        j["res"] = os.path.join(tmp, "r%d.%d.json" % (j["w"], j["seg"]))
        left = max(1, int(j["end"] - time.time() + 0.5))
        j["p"] = subprocess.Popen(
            [binary(j["b"]), "search", "--property", prop, "--build", j["b"], "--seed", str(base),
             "--first", str(j["first"]), "--stride", str(j["stride"]), "--seconds", str(left),
             "--out", j["out"], "--sets", j["sets"], "--pin", str(j["w"] % ncpu)],
            stdout=open(j["res"], "w"), stderr=subprocess.STDOUT)

    for j in jobs:
        start(j)
    results, violations, notes = [], [], {}
    live = list(jobs)
    while live:
        time.sleep(0.05)
        for j in list(live):
            rc = j["p"].poll()
            if rc is None:
                if time.time() > j["end"] + 120:
                    j["p"].kill()
                    die("worker %d (build %s) does not end" % (j["w"], j["b"]))
                continue
            live.remove(j)
            text = open(j["res"]).read()
            if rc != 0:
                for k in live:
                    k["p"].kill()
                die("worker %d (build %s) ended with %d: %s" % (j["w"], j["b"], rc, text[-800:]))
            r = json.loads(text.strip().splitlines()[-1])
            r["build"] = j["b"]
            r["sets"] = j["sets"]
            results.append(r)
            v = r["violation"]
            if v:
                listed = [m for c, m in known if c == v["class"] and m in v["message"]]
                if listed:
                    notes[listed[0]] = notes.get(listed[0], 0) + 1
                    if time.time() < j["end"] - 1:
                        j["first"] = r["next"] + j["stride"]
                        j["seg"] += 1
                        start(j)
                        live.append(j)
                else:
                    violations.append((j, v))
        if violations:
            # one is enough; the others stop
            for j in live:
                j["p"].kill()
                j["p"].wait()
            break
    return lay, results, violations, notes


def merge_sets(results):
    """Distinct values over all workers, per kind, and what each worker had alone."""
    sets = {1: set(), 2: set(), 3: set()}
    for r in results:
        if not os.path.exists(r["sets"]):
            continue
        data = open(r["sets"], "rb").read()
        for tag, x in struct.iter_unpack("<QQ", data[: len(data) // 16 * 16]):
            # the builds are different systems: equal hashes of two builds are two executions
            sets[tag].add((r["build"], x))
    return {t: len(s) for t, s in sets.items()}


def reproduce(b, path):
    p = subprocess.run([binary(b), "replay", path, "--quiet"], capture_output=True, text=True, timeout=300)
    return p.returncode


def report(prop, j, v, seed):
    """Minimises a violation and makes sure the file reproduces it in a fresh process."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    raw = j["out"]
    stem = os.path.join(HERE, "replays", "%s-%s-%s" % (prop, j["b"], v["hash"]))
    small, full = stem + ".json", stem + "-full.json"
    with open(raw) as f:
        open(full, "w").write(f.read())
    got = None
    try:
        m = subprocess.run([binary(j["b"]), "minimise", raw, small, "--seconds", "60"], capture_output=True, text=True, timeout=240)
        if m.returncode == 0 and reproduce(j["b"], small) == 1 and reproduce(j["b"], small) == 1:
            got = small
            os.unlink(full)
    except subprocess.TimeoutExpired:
        pass
    if got is None:
        rc = [reproduce(j["b"], full) for _ in range(3)]
        if rc[0] in (1, 3) and rc.count(rc[0]) == 3:
            got = full
            if os.path.exists(small):
                os.unlink(small)
        else:
            die("a violation of %s (%s: %s) did not reproduce: %s" % (prop, v["class"], v["message"], rc))
    d = json.load(open(got))
    print("%s: %s (process %d thread %d operation %d step %d, build %s)" % (
        d["violation"]["class"], d["violation"]["message"], d["violation"]["process"], d["violation"]["thread"],
        d["violation"]["operation"], d["violation"]["step"], j["b"]))
    for line in d.get("trace", [])[-25:]:
        print("  | " + line)
    print("VIOLATION property=%s replay=%s" % (prop, got), flush=True)


FAULTS = [
    "context_switches", "preemptions_inside_an_operation", "preemptions_inside_a_first_call",
    "threads_suspended_inside_an_operation", "threads_killed_inside_an_operation", "operations_interrupted_by_another",
    "allocations_failed", "reallocations_moved", "reallocations_in_place", "addresses_reused",
    "conversions_with_changing_answer", "conversions_that_panicked", "conversions_that_reentered",
    "sinks_failed", "sinks_panicked", "pool_pieces_stolen", "pool_joins", "messages_lost", "messages_duplicated",
    "messages_reordered", "messages_damaged", "messages_intact_to_another_machine", "process_restarts",
    "destinations_too_short", "operations_with_read_only_source", "buffers_ending_at_an_unmapped_page",
    "buffers_starting_at_an_unmapped_page", "operations_on_adjacent_shared_memory",
]

RULE = (
    "One run = one seed = one fully explicit scenario (processes, machine levels, threads, operations with inputs, "
    "placement and faults, schedule) executed deterministically. Non-trivial: at least one library operation was "
    "executed and judged. Distinct: counted by the hash over the run's event history (operations with outcome and "
    "result digest, switch and fault points, allocations), per build."
)

REAL = [
    "all crates of /repo (vsimd, base64-simd, base32-simd, hex-simd, uuid-simd, unicode-simd), compiled from the working tree",
    "the machine code of every reachable SIMD level, on the host CPU", "std, the rayon front end (build B)",
]
STUB = [
    "CPU feature detection answers (vsimd::sim hook, cfg vsimd_sim)", "global allocator inside operations (simulated heap)",
    "rayon-core (rayon-core-sim: every split, steal and order decided by the scenario, build B)",
    "the channel between processes (shared mailbox)", "the thread scheduler (one baton; single-stepping)",
]
ASSUME = [
    "sequentially consistent interleavings at instruction granularity: hardware store reordering is not simulated",
    "x86-64 only; a machine lacking an extension is the host with that extension reported absent, and executing it is a violation",
    "machine levels form the chain none < sse2 < ssse3 < sse4.1 < avx2; AVX-512 paths run only as far as the host and the code dispatch to them",
    "inputs are sampled (random, structured, damaged and swept), not enumerated",
    "the stepper is on only in runs with a schedule, stall, interrupt or instruction check; other runs execute natively",
]


def run(prop, tier):
    t0 = time.time()
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    seconds = int(os.environ.get("SIM_SECONDS", THOROUGH_S if tier == "thorough" else QUICK_S))
    if prop in foreign.WORKERS:
        with Lock():
            return foreign.run(prop, tier, base, seconds)
    with Lock():
        lay = WORKERS.get(prop, WORKERS["default"])
        build_s = build(sorted(set(lay if host_avx2() else lay.replace("C", "A"))))
        with tempfile.TemporaryDirectory(prefix="simd-dst.") as tmp:
            s0 = time.time()
            lay, results, violations, notes = reach(prop, seconds, base, tmp)
            search_s = time.time() - s0
            sets = merge_sets(results)
            for text, n in sorted(notes.items()):
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
            ctr, runs_with, profiles, machines = {}, {}, {}, {}
            samples = []
            per_build = {}
            for r in results:
                add(ctr, r["counters"])
                add(runs_with, r["runs_with"])
                add(profiles, r["profiles"])
                add(machines, r["machines"])
                add(per_build, {r["build"]: r["runs"]})
                if len(samples) < 3:
                    samples += r["samples"][: 3 - len(samples)]
            if not samples and results:
                samples = [{"profile": p, "runs": n} for p, n in profiles.items()]
            runs = sum(r["runs"] for r in results)
            evidence = {
                "property": prop,
                "tier": tier,
                "seed": base,
                "level": LEVEL,
                "coverage": {
                    "evaluations": runs,
                    "distinct_nontrivial": sets[3],
                    "rule": RULE,
                    "samples": samples,
                    "runs_per_hour": int(runs * 3600 / max(search_s, 0.001)),
                    "runs_per_hour_note": "every run is a seed of its own",
                    "simulated_time": "the library has no clock; %d instructions were executed under the simulator's single-step clock, %d operations in all"
                    % (ctr.get("instructions_stepped", 0), ctr.get("operations", 0)),
                    "operations": ctr.get("operations", 0),
                    "instructions_stepped": ctr.get("instructions_stepped", 0),
                    "instructions_checked_against_the_machine": ctr.get("instructions_checked_against_the_machine", 0),
                    "memory_accesses_checked": ctr.get("memory_accesses_checked", 0),
                    "faults_injected": {k: ctr[k] for k in FAULTS if k in ctr},
                    "runs_with_fault": {k: runs_with[k] for k in FAULTS if k in runs_with},
                    "distinct_interleavings": sets[2],
                    "distinct_interleavings_measure": "hash over the sequence of (switch reason, thread, code address and operation at every preemption, stall)",
                    "distinct_states": sets[1],
                    "distinct_states_measure": "(operation, variant, machine level, length class, outcome) reached, per build; each worker keeps at most 600000",
                    "counters": ctr,
                    "profiles": profiles,
                    "simulated_machines": machines,
                    "runs_per_build": {b: {"runs": n, "what": BUILDS[b][3]} for b, n in sorted(per_build.items())},
                    "slowest_run_ms": max((r["slowest_ms"] for r in results), default=0),
                    "ran_real": REAL,
                    "ran_stub": STUB,
                    "search_wall_s": round(search_s, 2),
                    "build_wall_s": round(build_s, 2),
                },
                "assumptions": ASSUME,
                "violations": len(violations),
                "wall_s": 0.0,
            }

            def save():
                evidence["wall_s"] = round(time.time() - t0, 2)
                os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
                with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                    json.dump(evidence, f, indent=1)
                    f.write("\n")

            save()
            if violations:
                j, v = violations[0]
                report(prop, j, v, base)
                save()
                return 1
            if runs == 0:
                die("nothing was run")
            if not all(os.path.exists(binary(b)) for b in set(lay)):
                die("a simulator is missing")
    print("%s: no violation in %d runs (%d distinct executions, %d operations, %d instructions stepped), %.0f s" % (
        prop, runs, sets[3], ctr.get("operations", 0), ctr.get("instructions_stepped", 0), time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    if d["build"] == "foreign":
        with Lock():
            return foreign.replay(path)
    with Lock():
        build([d["build"]])
    return subprocess.run([binary(d["build"]), "replay", path]).returncode


def determinism(n):
    with Lock():
        build(sorted(BUILDS))
    bad = 0
    for prop in ["C%02d" % i for i in range(1, 18)]:
        for b in sorted(set(WORKERS.get(prop, WORKERS["default"]))):
            def go(first, stride, *more):
                return subprocess.Popen(
                    [binary(b), "search", "--property", prop, "--build", b, "--first", str(first), "--stride", str(stride),
                     "--max", str(n), "--seconds", "3000", "--digests", *more], stdout=subprocess.PIPE, text=True)
            # in one process, and in three which go through the text of each scenario as a replay does
            ps = [go(0, 1)] + [go(k, 3, "--reread") for k in range(3)]
            outs = [p.communicate()[0].split("\n") for p in ps]
            one = sorted(x for x in outs[0] if x)
            two = sorted(x for o in outs[1:] for x in o if x)
            same = one == two and len(one) == n
            bad += not same
            print("%s %s %d executions %s" % (prop, b, len(one), "identical" if same else "DIFFER"), flush=True)
    with Lock():
        bad += foreign.determinism(n)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        with Lock():
            print("built in %.1f s" % build([b for b in BUILDS if b != "C" or host_avx2()]))
            for m, why in sorted(foreign.build().items()):
                print("note: %s is not available: %s" % (m, " ".join(why.split())[-300:]))
        return 0
    if a[:1] == ["run"] and len(a) >= 2:
        return run(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["determinism"]:
        return determinism(int(a[1]) if len(a) > 1 else 100)
    if a[:1] == ["manifest"]:
        import manifest
        return manifest.write()
    die(__doc__)


if __name__ == "__main__":
    sys.exit(main())
