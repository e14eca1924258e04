#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIMU = "deterministic simulation with fault injection: "
T = {
 "C01": ("seeded search over thread interleavings of concurrent callers; fresh-process and reference-model oracles, race detector", "Seeded random schedules (several policies, preemption before any memory access or basic block) of 2-5 real threads calling the real headers; every outcome compared with the same call made first in a fresh process and, where exact, with an independent model; vector-clock race detector."),
 "C02": ("seeded call histories with failed calls, reused storage, stale memory and clock jumps; fresh-process oracle", "Seeded histories of 2 to 3000 calls, with injected failures, poisoned stack and heap, reused addresses and thread hops; every outcome compared bit for bit with the same call made first in a fresh process, and the floating-point environment compared around each call."),
 "C03": ("every write of the instrumented code checked against the operands while schedules and faults are searched", "Invariant checked at every instrumented store and memory-function call in seeded runs with concurrent readers and failing element operations, plus byte comparison of the operands after every call."),
 "C04": ("element operations fail at seeded points; identity of the exception, object and memory balance, operands, retry", "Failure point swept and sampled over all element operations of each call on the fault-injecting element type; same exception object must arrive, every element and allocation released exactly once, repeat must give the right result."),
 "C05": ("all memory requests fail while seeded calls run; outcome equals the fresh-process one", "Heap exhausted for the duration of the calls; any request for memory other than for an exception object is a violation, and results must equal the fresh-process ones."),
 "C06": ("memory requests of the histograms fail at seeded points; bad_alloc, balance, retry against a reference model", "k-th request fails once, repeatedly or for ever; only bad_alloc may come out, allocation balance must be zero, the retry must give the complete map of the model."),
 "C07": ("seeded erroneous and regular calls inside handlers, unwinding and next to other threads; exact singularity model", "Each outcome is compared with an exact rational model of which calls must fail, in three call contexts (plain, inside a handler, during unwinding) and under seeded schedules."),
 "C08": ("output device with failing, short and lost writes, exceptions and crashes under seeded schedules; prefix and flush oracle", "Real std::ostream formatting over a simulated device; text, flush points, formatting state and what survives a crash are checked for every printed matrix."),
 "C09": ("threads swap and write disjoint rows and columns of one matrix under seeded schedules and failing element moves", "Footprint invariant on every instrumented access, race detector, and the final matrix compared with the sequential result."),
 "C10": ("callers stopped for ever or failing at seeded points; bounded steps and deadlock detection for everyone else", "Every other call has to complete within its step bound with its normal outcome while any set of callers is suspended inside theirs; extreme operand values included."),
 "C12": ("callers keep results while seeded calls are made, operands destroyed and results overwritten; kept results read again, later calls against the fresh-process oracle", "Results are held without copying across other complete calls of the same and other threads, re-read bit for bit, then overwritten; every later outcome compared with that of a fresh process."),
 "C11": ("calls interrupted at seeded points by complete other calls on the same thread, nested up to eleven deep; fresh-process oracle", "Interruptions at any instrumented access, basic block or element operation; outer and inner outcomes compared with those of a fresh process."),
}
TRUST = " Trusts: g++ instrumentation, the simulator in sim/, sequentially consistent interleavings; sampled, so evidence and not proof."
pure = "Pure function of its operands, single-threaded and without time, I/O, memory or failure to depend on: no schedule or fault the simulator controls can change whether it holds, so simulation would only be input testing under another name."
NA = {"F%02d" % k: pure for k in range(1, 10)}
NA["F01"] = pure + " (C01 still compares every simulated call with an exact reference model, so gross violations surface there.)"
NA["F10"] = "Decided by the compiler from the program text; there is no execution to simulate."
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": SIMU + t, "level": "exploration", "level_note": n + TRUST} for p, (t, n) in sorted(T.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: the seams are the element type, the callers' threads, the allocator, the stream buffer of std::cout and compiler instrumentation of the unmodified headers. Replay a violation with 'python3 tools/check.py --replay FILE'."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
