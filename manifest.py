"""Writes MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))

NOTES = {
    "C01": "Judges every base64 operation against an executable RFC 4648 model on five machine levels and five builds, under racing first calls, instruction-level preemption and guarded buffers. The input part is sampled and swept, not enumerated.",
    "C02": "Judges the three forgiving forms against an executable WHATWG model and one another. The input part is sampled and swept, not enumerated.",
    "C03": "Judges every base32 operation against an executable RFC 4648 model, as C01. The input part is sampled and swept, not enumerated.",
    "C04": "Judges every hex operation against an executable model, as C01. The input part is sampled and swept, not enumerated.",
    "C05": "Judges UUID parsing and formatting against an executable model, as C01. The input part is sampled and swept, not enumerated.",
    "C06": "Judges the unicode operations against an executable model, as C01. The input part is sampled and swept, not enumerated.",
    "C07": "Every instruction the library executes in a run is decoded and compared with the simulated machine, including during racing first calls. Trusts the instruction classifier (prefix/opcode tables) and the chain of machine levels.",
    "C08": "Unmapped pages, canaries, read-only sources, poison, threads interleaved on adjacent memory, and, in instruction-checked runs, the memory operand of every instruction the library executes judged against the operation's buffers. Relies on the operand decoder (unknown encodings are not judged).",
    "C09": "Threads are suspended for ever at a chosen instruction, others must finish within a step bound and must not enter a futex wait; operations are interrupted at a chosen instruction by another one.",
    "C10": "Fails chosen allocations with an unwinding allocation-error handler, then checks result, append target, leaks and retry.",
    "C11": "Simulated heap with guard pages, layout checks, poison, reuse, moving and in-place growth; conservation per operation and at the end of the process.",
    "C12": "Histories of appends on targets with chosen length, spare capacity and reallocation behaviour against a concatenation model.",
    "C13": "The real rayon front end over a simulated rayon-core: every split, steal, order and interleaving is the scenario's. Result, surroundings and short destinations are judged.",
    "C14": "Conversions which change their answer, panic or re-enter, on every operation that takes one.",
    "C15": "Sinks which fail after a number of bytes or calls, or panic; all styles of width, fill, alignment and precision against the formatting of a str of the right text.",
    "C16": "Several forked processes with different machine levels exchange messages through a channel that loses, repeats, reorders, damages and splices them.",
    "C17": "Long and concurrent histories of all crates with restarts, killed and interrupted threads; each call is judged against the stateless model.",
    "C18": "Lengths around 2^31 and 2^32 and up to usize::MAX on 64-bit and 32-bit machines and WebAssembly: gigabytes of periodic content in windows which show the same memory over and over, blocks granted from such windows or refused, numbers near every overflow. What is written in a wrong period at the right phase is seen only in chosen pages.",
    "C20": "The crates compiled for AArch64: interpreted by Miri (seeded scheduling, preemption, weak memory, addresses; every access checked; some hundred runs per minute) and translated to host code with guard pages (tens of thousands of runs per second). Same reference models.",
    "C21": "The crates compiled for 32-bit ARM with NEON: translated to code of a 32-bit host process with guard pages, and interpreted by Miri. Same reference models. The compiler's feature gates which `unstable` names and today's nightly lacks are declared in a copy of core.",
    "C22": "The crates compiled to WebAssembly in node, with buffers at the very end of linear memory, with and without simd128. Same reference models. Single-threaded; no failing allocations.",
    "C23": "The crates compiled for 32-bit x86 (32-bit processes with guard pages at three levels, and interpreted by Miri with run-time detection and racing first calls) and for big-endian machines (interpreted). Same reference models.",
}

TRUST = " Seeded search, so no proof. x86-64, sequentially consistent interleavings; trusts the reference models and the simulator."
TRUST_FOREIGN = " Seeded search, so no proof. Trusts the reference models, Miri, node and LLVM; a machine that cannot be built or interpreted is left out and named in the evidence."

NA = {
    "C19": "Pure lane arithmetic on register values, with no concurrency, fault or environment but the instruction set; C01-C07 and C20-C23 execute the operations the codecs use on every level and machine, but a statement over all lane values is an input property that simulation cannot address.",
}


def write():
    checks = []
    for p in sorted(NOTES):
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py run %s quick" % p,
            "thorough_cmd": "python3 check.py run %s thorough" % p,
            "technique": "deterministic simulation with fault injection (seeded search over schedules, machines and faults; reference model and invariants)",
            "level": "exploration",
            "level_note": NOTES[p] + (TRUST_FOREIGN if p >= "C18" else TRUST),
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py build",
        "hooks": {
            "guard": "cfg(vsimd_sim)",
            "enable": "RUSTFLAGS=\"--cfg vsimd_sim\" (check.py sets it when it builds /verif/sim, which depends on /repo's crates by path)",
            "source_commits": ["2158d3d8200a2d3da89e9d29e17af6323248dc24"],
        },
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
        "notes": "Replay a violation: python3 check.py replay FILE. Determinism of the simulator: python3 check.py determinism.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    return 0
