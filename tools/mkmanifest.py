#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    props[p["id"]] = p
T = "deterministic simulation with fault injection: "
TECH = {
 "S01": T + "seeded search over thread interleavings, stale loads and re-entrant calls of the real library; answers compared with solo runs",
 "S02": T + "seeded search over interleavings under a weak-memory model with a vector-clock race detector on every access",
 "S03": T + "seeded search over racing first uses with memory faults, stalls and lost threads; history checked against the set-up life cycle",
 "S04": T + "seeded search over instants at which the initialising thread stalls or is lost, on a virtual clock; bounded-wait liveness",
 "S05": T + "seeded failure of the table memory under seeded schedules; fail-closed answers and conservation",
 "S06": T + "seeded failure of any memory request of any call; containment, conservation and retry checked",
 "S07": T + "seeded damage to the stored tables at seeded instants of the expansion; fail-closed answers",
 "S08": T + "seeded streams, damage and capacities decoded by the real decompressor against a model decoder",
 "S09": T + "seeded call histories with aborted calls and reused outputs; each answer compared with the call alone",
 "S10": T + "seeded placement of library start-up and tear-down between calls of several threads",
 "S11": T + "seeded search with the table expansion in progress, stuck, lost or failed; table-free calls must not wait or request memory",
 "S12": T + "seeded schedules and memory faults with every access checked against live memory; guarded read-only shared inputs",
 "S13": T + "seeded histories and faults over an accounting allocator",
 "S15": T + "seeded heavy inputs and memory faults under a cooperative scheduler that counts every step of library work; work per call bounded by a declared polynomial, set-up by a constant",
 "S16": T + "seeded heavy inputs and memory faults with the stack depth of every library frame measured; constant bound",
 "S17": T + "the schedules, faults and rules of the other checks run over each build variant of the tree, against answers of the default build",
 "S18": T + "seeded heavy inputs, series of calls of doubling length and memory faults with the heap each call holds measured; linear bound and growth",
 "S19": T + "seeded suspension and loss of threads at instants inside calls made after set-up; other threads' calls must answer without blocking or polling",
 "S14": T + "seeded over-limit calls with memory exhausted and within-limit calls under a heap quota",
}
BASE = ("Seeded exploration, not proof: holds on the runs executed (counts in the evidence file). The library's "
        "code is real, compiled from the working tree; threads, atomics, heap, clocks, locks and start-up/exit are simulated. ")
NOTE = {
 "S01": "Expected answers come from the same tree's call alone in a fresh process.",
 "S02": "Sequentially-inconsistent behaviours covered: stale atomic loads; not covered: out-of-thin-air values.",
 "S03": "The tables are recognised by the size class of their memory request, measured on a solo run of the same tree.",
 "S04": "Waiting is counted in polls of the wait loop (virtual time); the hook skips poll ranges only while nobody else could act.",
 "S05": "Covers every operation of the public interface that needs tables.",
 "S06": "Single, multiple and persistent failures; which requests are failed is seeded.",
 "S07": "Random damage that keeps the 32-bit checksum is outside the property.",
 "S08": "Trusts the model decoder; streams on which DEFLATE implementations legitimately differ (incomplete codes, trailing bytes) are not judged for acceptance.",
 "S09": "Histories of up to a few dozen calls on up to 4 threads.",
 "S10": "Static initialisers and exit handlers are those the compiler emits for this tree.",
 "S11": "Wait means a poll of the wait loop, a blocked lock, a sleep or a yield.",
 "S12": "Access checks at byte granularity through compiler instrumentation plus guard zones.",
 "S13": "Counts memory obtained through malloc family, operator new and mmap by library code.",
 "S15": "Work is counted in instrumented memory accesses and branches of library code, so the bound is on simulated steps, not on seconds.",
 "S16": "Frames are those of the instrumented simulator build (clang -O1); the limit leaves a wide margin over the largest measured.",
 "S17": "Variants: the amalgamated single file (made afresh by singleheader/amalgamate.py, compiled with unsigned char) and ADA_USE_SIMDUTF, with a scalar stand-in for the simdutf library itself, which is not in the tree.",
 "S18": "Heap of the call itself: what it holds at once above what was held at entry, the caller's own outputs included, the one-time table memory excepted.",
 "S19": "A call waits if it blocks on a lock or condition, sleeps, or re-reads an unchanged atomic; waits inside the C library itself (malloc) are outside the library.",
 "S14": "Quota of 4 MiB includes tables, temporaries and the result.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "hooks": {"guard": "ADA_IDNA_SIM", "enable": "-DADA_IDNA_SIM when check.py compiles sim/shim.cpp (which includes /repo/src/idna.cpp) for the simulator",
           "source_commits": ["7479a67"]},
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
             "thorough_cmd": "python3 check.py %s --tier thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration",
             "level_note": BASE + NOTE[p]} for p in sorted(props) if p in TECH],
 "not_applicable": [{"property": p, "reason": props[p].get("na", "A pure function of its input with no concurrency, time, I/O, fault or multi-party behaviour: there is no schedule or fault for a simulator to choose; deciding it would be plain input testing or proof, another technique.")}
                    for p in sorted(props) if p not in TECH],
 "notes": "See DESIGN.md. Replay a file with: python3 check.py replay FILE",
}
full = os.popen("git -C /repo rev-parse 7479a67").read().strip()
if full: m["hooks"]["source_commits"] = [full]
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
