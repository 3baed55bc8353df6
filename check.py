#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs one property's check.

  check.py setup                 build everything once (the checks rebuild if /repo changed)
  check.py S01 [--tier T] [--seed N] [--runs N]
  check.py replay FILE           re-execute a replay file exactly

exit 0: the property held on everything explored
exit 1: "VIOLATION property=<id> replay=<path>" was printed
exit 2: the check itself could not be carried out
"""
import fcntl, hashlib, json, os, shutil, struct, subprocess, sys, time, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")
WORKERS = min(8, os.cpu_count() or 1)

# runs in the quick and the thorough tier; a wall-clock cap ends a tier early
# on a slower machine (the evidence file then says how many runs were made)
RUNS = {
    "S01": (18000, 380000), "S02": (15000, 320000), "S03": (11000, 240000),
    "S04": (10000, 200000), "S05": (90000, 2500000), "S06": (20000, 420000),
    "S07": (14000, 320000), "S08": (350000, 8000000), "S09": (28000, 600000),
    "S10": (11000, 240000), "S11": (22000, 480000), "S12": (24000, 520000),
    "S13": (20000, 420000), "S14": (13000, 280000), "S15": (9000, 190000),
    "S16": (9000, 190000), "S17": (16000, 340000),
    "S18": (9000, 190000), "S19": (45000, 900000),
}
CAP = {"quick": 240, "thorough": 760}

RULE = {
    "S01": "Each run draws 2-5 threads with 1-8 calls each from a seeded pool of inputs (cold or warm tables, re-entrant calls from the allocator), a schedule policy, stale-read probability and time jumps.",
    "S02": "As S01, plus happens-before race detection on every byte the library reads or writes; atomic loads may return any value the C++ memory model allows.",
    "S03": "Threads race on first use while table memory may fail, initialisers are stalled and threads are lost; the history is checked against the life cycle uninitialised -> (ready | failed).",
    "S04": "An initialising thread is stalled or lost at a seeded instant (or merely slow) while other threads call in; virtual time jumps by whole poll ranges.",
    "S05": "The table memory request fails in some thread at some instant under a seeded schedule; calls before, meanwhile and afterwards are judged.",
    "S06": "One, several or all memory requests of seeded calls fail; the same call is repeated afterwards on the same output objects.",
    "S07": "The stored table bytes are damaged (bit flips, byte sets, zeroed ranges, truncation, targeted header, code-length, trailer damage) before or at a seeded instant during expansion.",
    "S08": "Each case writes a DEFLATE stream with a seeded encoder (all block types, code shapes, distances), optionally malformed or damaged, decodes it at a seeded capacity and compares with an independent model decoder.",
    "S09": "Histories of calls in seeded order with repeats, dirty reused outputs, rejected calls and calls aborted by failing allocations, on one or several threads, in seeded surroundings (locale, environment variables, date, random and process numbers, alignment of texts).",
    "S10": "Calls are placed before the library's static initialisers, after its exit handlers, static and thread-local destructors, from several threads and schedules.",
    "S11": "Table-free calls run beside an expansion that is in progress, stalled, lost or failed.",
    "S12": "Inputs sit in guarded exact-size read-only buffers shared by threads; every instrumented access is checked against live memory, under seeded schedules and allocation failures.",
    "S13": "Histories with rejected, aborted and racing calls; the simulated allocator accounts for every block until all outputs are released and threads ended.",
    "S14": "Over-limit inputs with memory exhausted, and within-limit inputs (including dense expansions) under a 4 MiB heap quota, before, during and after table expansion.",
    "S15": "Each run makes 1-10 calls, mostly on inputs shaped to make some loop of the library long (lengths 40 bytes to 16 KiB, over-limit to 300 KiB), in one thread or several, with or without failing allocations; memory accesses of each call are counted and compared with its bound; a third of the runs are series of four calls of one shape and doubling length, whose growth is compared.",
    "S16": "As S15; the deepest stack use of each call is recorded at every memory access and compared with 32 KiB.",
    "S17": "The histories of S01-S03, S05-S07 and S09-S14 and S19 with those properties' rules, on two other builds of the library; expected answers come from the default build.",
    "S18": "As S15 with one thread; the most heap each call holds at once is compared with 256 bytes per byte of input plus 16 KiB, and over four calls of doubling length with linear growth.",
    "S19": "After the tables are set up (or have failed to be), 2-5 threads make 1-8 calls each; up to two of them are suspended or lost at seeded instants inside their calls, memory requests fail and the allocator re-enters the library; no call may block or poll, and every answer is judged.",
}


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def sources():
    out = []
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), SIM):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "singleheader", "amalgamate.py"))
    return [p for p in out if os.path.exists(p)]


def tree_hash():
    h = hashlib.sha256()
    for p in sources() + [os.path.abspath(__file__)]:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    return r.returncode, r.stdout


CXX = ["clang++", "-std=c++20", "-g1"]
FUNCS = ["call", "slot_new", "slot_free", "slot_fill"]


def inc():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + SIM]


def objects(path):
    """(name, bytes) of every initialised data object in a relocatable ELF file, largest first."""
    with open(path, "rb") as f:
        e = f.read()
    shoff, = struct.unpack_from("<Q", e, 40)
    shentsize, shnum = struct.unpack_from("<HH", e, 58)
    secs = [struct.unpack_from("<IIQQQQIIQQ", e, shoff + i * shentsize) for i in range(shnum)]
    if shnum == 0:
        shnum = struct.unpack_from("<Q", e, shoff + 32)[0]
        secs = [struct.unpack_from("<IIQQQQIIQQ", e, shoff + i * shentsize) for i in range(shnum)]
    out = []
    for s in secs:
        if s[1] != 2:      # SHT_SYMTAB
            continue
        strs = secs[s[6]][4]
        for o in range(s[4], s[4] + s[5], 24):
            name, info, _, shndx, value, size = struct.unpack_from("<IBBHQQ", e, o)
            if info & 15 != 1 or size < 4096 or shndx == 0 or shndx >= shnum or secs[shndx][1] != 1:
                continue   # not an initialised object of some size
            n = e[strs + name:e.index(b"\0", strs + name)].decode()
            at = secs[shndx][4] + value
            out.append((n, e[at:at + size]))
    return sorted(out, key=lambda x: -len(x[1]))


def stored_tables(path):
    """The compressed tables in an object file: the data that decompresses to the most bytes."""
    best, score = (None, b""), 1 << 16
    for n, b in objects(path):
        try:
            k = len(zlib.decompressobj(-15).decompress(b))
        except zlib.error:
            k = 0
        if "table_blob" in n and n.endswith("compressedE"):
            k += 1 << 16   # even if this tree's are damaged
        if k >= score:
            best, score = (n, b), k + 1
    return best


# Other builds of the library, judged against solo answers of the default one.
VARIANTS = {
    "amalgamated": "the single-file amalgamation made by singleheader/amalgamate.py, plain char unsigned",
    "simdutf": "transcoding by an external simdutf library (a stand-in)",
}


def variant_flags(d, variant):
    if variant == "simdutf":
        return ["-DADA_USE_SIMDUTF", "-I" + os.path.join(SIM, "simdutf")]
    if variant == "amalgamated":
        out = os.path.join(d, "single")
        os.makedirs(out, exist_ok=True)
        env = dict(os.environ, AMALGAMATE_OUTPUT_PATH=out, AMALGAMATE_SOURCE_PATH=os.path.join(REPO, "src"),
                   AMALGAMATE_INCLUDE_PATH=os.path.join(REPO, "include"), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, os.path.join(REPO, "singleheader", "amalgamate.py")], cwd=d,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        if r.returncode or not os.path.exists(os.path.join(out, "ada_idna.cpp")):
            print("note: amalgamation failed: " + r.stdout[-600:], file=sys.stderr)
            return None
        for f in ("demo.cpp", "singleheader.zip"):
            if os.path.exists(os.path.join(out, f)):
                os.unlink(os.path.join(out, f))
        return ["-DSHIM_AMALGAMATED", "-funsigned-char", "-I" + out]
    return []


def build_sim(d, variant):
    """lib3.o: the library, instrumented; ref3.o: a plain copy for solo answers."""
    jobs = []
    for f in ("rt", "sim", "ops"):
        cmd = CXX + ["-O2", "-fno-pie"] + inc() + ["-c", os.path.join(SIM, f + ".cpp"), "-o", f + ".o"]
        jobs.append((cmd, subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                           text=True)))
    lib = CXX + ["-O1", "-fno-pie", "-fsanitize=thread", "-fsanitize=bounds", "-fsanitize-trap=bounds",
                 "-fstack-protector-strong", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DADA_IDNA_SIM",
                 "-D__builtin_ia32_pause()=sim_pause()", "-include", os.path.join(SIM, "prelude.h")] + inc()
    ref = CXX + ["-O2", "-fno-pie"] + inc()
    shim = os.path.join(SIM, "shim.cpp")
    vf = variant_flags(d, variant)
    tries = [(vf, "full")]
    if variant in VARIANTS:
        # whether a variant compiles is not what is judged
        tries += [(["-funsigned-char"], "variant does not build; default sources with plain char unsigned")]
    for vf, mode in tries:
        rc, o = (1, "amalgamation failed") if vf is None else \
            sh(lib[:1] + vf + lib[1:] + ["-DSHIM(x)=x", "-c", shim, "-o", "lib.o"], d)
        if rc == 0:
            rc, o2 = sh(ref + ["-DSHIM(x)=ref_##x", "-c", shim, "-o", "ref.o"], d)
            o = o2 if rc else o
        if rc == 0:
            break
        print("note: %s build (%s): %s" % (variant, mode, o[-600:]), file=sys.stderr)
    else:
        die("the library does not compile for the simulator:\n" + o[-3000:])
    rc, o = sh(["ld", "-r", "--force-group-allocation", "lib.o", "-o", "lib2.o"], d)
    if rc:
        die("ld -r\n" + o[-3000:])
    sym, data = stored_tables(os.path.join(d, "lib2.o"))
    if not sym:
        mode += ", stored tables not located: they are not damaged"
    with open(os.path.join(d, "stored.c"), "w") as f:
        f.write("extern const unsigned long sim_stored_size;\nconst unsigned long sim_stored_size = %d;\n"
                % len(data))
    rename = ["--redefine-sym", sym + "=sim_stored_data", "--globalize-symbol=" + sym,
              "--globalize-symbol=sim_stored_data"] if sym else []
    steps = [
        ["clang", "-c", "stored.c", "-o", "stored.o"],
        ["objcopy"] + rename + ["lib2.o", "lib2b.o"],
        ["objcopy", "--redefine-syms=" + os.path.join(SIM, "redefine.txt"),
         "--rename-section", ".init_array=sim_init_array",
         "--rename-section", ".fini_array=sim_fini_array"] +
        ["--keep-global-symbol=" + f for f in ["shim_" + f for f in FUNCS] + ["sim_stored_data"]] +
        ["lib2b.o", "lib3.o"],
        ["ld", "-r", "--force-group-allocation", "ref.o", "-o", "ref2.o"],
        ["objcopy"] + ["--keep-global-symbol=ref_shim_" + f for f in FUNCS] + ["ref2.o", "ref3.o"],
    ]
    for c in steps:
        rc, o = sh(c, d)
        if rc:
            die(" ".join(c) + "\n" + o[-3000:])
    for cmd, j in jobs:
        o, _ = j.communicate()
        if j.returncode:
            die(" ".join(cmd) + "\n" + o[-3000:])
    rc, o = sh(["clang++", "-static", "-no-pie", "sim.o", "rt.o", "ops.o", "lib3.o", "ref3.o", "stored.o", "-lpthread",
                "-o", "sim"], d)
    if rc:
        die("link failed\n" + o[-3000:])
    return mode


def build_inflate(d):
    """isim, or None if this tree has no decompressor that can be called on its own."""
    src = os.path.join(REPO, "src", "idna.cpp")
    rc, o = sh(CXX + ["-O0"] + inc() + ["-c", src, "-o", "plain.o"], d)
    if rc:
        die("the library does not compile for the simulator:\n" + o[-3000:])
    data = stored_tables(os.path.join(d, "plain.o"))[1]
    with open(os.path.join(d, "stored.bin"), "wb") as f:
        f.write(data)
    with open(os.path.join(d, "stored.s"), "w") as f:
        f.write(".section .rodata\n.globl sim_stored_data, sim_stored_size\nsim_stored_data:\n"
                ".incbin \"stored.bin\"\n.balign 8\nsim_stored_size: .quad %d\n"
                ".section .note.GNU-stack,\"\",@progbits\n" % len(data))
    san = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    for cmd in (CXX + san + ["-femit-all-decls"] + inc() + ["-c", src, "-o", "dec.o"],
                ["clang", "-c", "stored.s", "-o", "stored.o"],
                CXX + san + inc() + ["-c", os.path.join(SIM, "inflate_sim.cpp"), "-o", "isim.o"]):
        rc, o = sh(cmd, d)
        if rc:
            die(" ".join(cmd) + "\n" + o[-3000:])
    # the function from (bytes, length) to (bytes, capacity), whatever its name
    _, o = sh(["nm", "--defined-only", "dec.o"], d)
    cand = [l.split()[2] for l in o.splitlines()
            if l.split()[1] in "TtWw" and l.split()[2].startswith("_ZN") and l.endswith("EPKhmPhm")]
    cand.sort(key=lambda n: ("inflate_raw" not in n, "inflate" not in n, "deflate" not in n, n))
    good = []
    for k, n in enumerate(cand):
        for cmd in (["objcopy", "--globalize-symbol=" + n, "--redefine-sym", n + "=sim_inflate", "dec.o",
                     "dec%d.o" % k],
                    ["clang++", "-fsanitize=address,undefined", "isim.o", "dec%d.o" % k, "stored.o", "-o",
                     "isim%d" % k]):
            rc, o = sh(cmd, d)
            if rc:
                print("note: " + " ".join(cmd) + "\n" + o[-600:], file=sys.stderr)
                break
        if rc == 0:
            works = sh([os.path.join(d, "isim%d" % k), "probe"], d)[0] == 0
            good.append((not works, k))
    if not good:
        return None
    os.rename(os.path.join(d, "isim%d" % min(good)[1]), os.path.join(d, "isim"))
    return "full"


def build(part):
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    d = os.path.join(BUILD, key + "-" + part)
    done = os.path.join(d, "done")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(done):
            old = sorted((e for e in os.listdir(BUILD) if e.endswith("-" + part)),
                         key=lambda e: os.path.getmtime(os.path.join(BUILD, e)))
            for e in old[:-3]:
                shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            mode = build_inflate(d) or "none" if part == "inflate" else build_sim(d, part)
            with open(done, "w") as f:
                f.write(mode)
            for f in os.listdir(d):
                if f.endswith(".o"):
                    os.unlink(os.path.join(d, f))
    with open(done) as f:
        return d, f.read().strip()


def known_lines(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: property=%s sig=" % prop):
                out.append(l.strip())
    return out


REAL = ["every public operation of ada::idna, compiled from /repo/src and /repo/include with access "
        "instrumentation", "table store: first-use state machine, decompression, checksum, layout"]
STUB = ["threads (cooperative fibres under the seeded scheduler)", "C++ atomics (weak-memory model)",
        "heap (simulated allocator with fault injection)", "clocks, sleeps, yields, mutexes, once, futex",
        "static start-up, exit and thread-exit handlers (run by the simulator)",
        "memcpy/memmove/memset/memcmp/strlen (checked equivalents)"]


def evidence_sim(prop, tier, seed, j, wall, mode):
    c = j["counters"]
    runs = j["runs"]
    hours = max(j["wall_search_s"], 1e-3) / 3600
    faults = {k: c[k] for k in ("preemptions", "stale_reads", "stalls", "kills", "alloc_failures",
                                "table_alloc_failures", "quota_failures", "corruptions", "reentries",
                                "time_jumps", "early_calls", "late_calls")}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": j["distinct_nontrivial"],
        "rule": RULE[prop] + " A run is non-trivial if at least one thread was pre-empted or one fault "
                "fired; two runs are distinct if the hashes of their recorded histories (every scheduling "
                "decision, atomic value, allocation, fault and result, in order) differ.",
        "samples": j["samples"],
        "distinct_interleavings": j["distinct_interleavings"],
        "distinct_interleavings_measure": "hash of the sequence (thread, access kind, location class) at "
                                          "every context switch and synchronising access of a run",
        "runs_with_faults_or_preemption": j["runs_with_faults_or_preemption"],
        "runs_per_hour": int(runs / hours),
        "seeds_per_hour": int(runs / hours),
        "simulated_seconds": c["simulated_ns"] / 1e9,
        "simulated_steps": c["steps"],
        "library_calls": c["calls"],
        "polls_of_waiting_threads_simulated": c["polls"],
        "faults_injected": faults,
        "schedule_policies": j["policies"],
        "counters": c,
        "base_seed": seed,
        "history_hash": j["history_hash"],
        "input_pool": j["pool"],
        "real_components": REAL,
        "stub_components": STUB,
        "build": mode,
        "search_wall_s": j["wall_search_s"],
    }
    return cov


def evidence_inflate(prop, tier, seed, j, wall, mode):
    runs = j["runs"]
    hours = max(j["wall_search_s"], 1e-3) / 3600
    return {
        "evaluations": runs,
        "distinct_nontrivial": j["distinct_nontrivial"],
        "rule": RULE[prop] + " A case is non-trivial if its stream holds at least one block and is "
                "malformed, damaged, limited in capacity or of a dynamic, fixed or mixed type; two cases "
                "are distinct if stream, capacity or outcome differ.",
        "samples": [s[:1500] for s in j["samples"]],
        "distinct_situations": j["distinct_situations"],
        "distinct_situations_measure": "combinations of block types, code shapes, damage, malformation, "
                                       "capacity class and model outcome",
        "runs_per_hour": int(runs / hours),
        "seeds_per_hour": int(runs / hours),
        "simulated_seconds": 0,
        "simulated_time_note": "the decompressor has no notion of time",
        "faults_injected": j["damage"],
        "malformed_streams": j["malformed"],
        "capacities": j["capacity"],
        "model_outcomes": j["model_outcome"],
        "shipped_stream_variants": j["shipped_stream"],
        "stream_bytes": j["stream_bytes"],
        "base_seed": seed,
        "history_hash": j["history_hash"],
        "real_components": ["raw_inflate.hpp, compiled from /repo with address and undefined-behaviour checks"],
        "stub_components": ["the store the stream is read from (buffers of exact size, damaged by the simulator)"],
        "build": mode,
        "search_wall_s": j["wall_search_s"],
    }


def search(prop, part, tier, seed, runs):
    """One search; returns its exit code, its summary and how the library was built."""
    d, mode = build(part)
    out = os.path.join(d, "out-%s-%d.json" % (prop, os.getpid()))
    cap = CAP[tier] / (len(VARIANTS) if part in VARIANTS else 1)
    cmd = [os.path.join(d, "isim" if part == "inflate" else "sim"), "check", "--prop", prop,
           "--seed", str(seed), "--runs", str(runs), "--cap", str(cap), "--workers", str(WORKERS),
           "--out", out, "--replays", REPLAYS, "--known", KNOWN]
    if part in VARIANTS:
        cmd += ["--variant", part]
    r = subprocess.run(cmd, cwd=d)
    if r.returncode not in (0, 1):
        die("%s ended with %d" % (" ".join(cmd), r.returncode))
    with open(out) as f:
        j = json.load(f)
    os.unlink(out)
    if (r.returncode == 1) != bool(j["violation"]):
        die("inconsistent outcome")
    return r.returncode, j, mode


def combine(covs):
    """The coverage of several builds' searches as one record."""
    c = {}
    names = list(covs)
    for k, v in covs[names[0]].items():
        vs = [covs[n][k] for n in names]
        if isinstance(v, bool) or not isinstance(v, (int, float, dict)):
            c[k] = v
        elif isinstance(v, dict):
            c[k] = {x: sum(u[x] for u in vs) for x in v}
        elif k in ("base_seed", "input_pool"):
            c[k] = v
        elif k.endswith("_per_hour"):
            c[k] = int(sum(vs) / len(vs))
        else:
            c[k] = sum(vs)
    c["samples"] = [x for n in names for x in covs[n]["samples"][:1]]
    c["history_hash"] = {n: covs[n]["history_hash"] for n in names}
    c["build"] = {n: covs[n]["build"] for n in names}
    c["variants"] = {n: {"what": VARIANTS[n], "evaluations": covs[n]["evaluations"],
                         "distinct_nontrivial": covs[n]["distinct_nontrivial"]} for n in names}
    return c


def run_check(prop, tier, seed, runs):
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if runs is None:
        runs = RUNS[prop][0 if tier == "quick" else 1]
    kind = "inflate" if prop == "S08" else "sim"
    if prop == "S08" and build("inflate")[1] == "none":
        # judged where the library uses it: the damaged stored tables of S07
        kind, runs = "sim", max(1, runs // 25)
    evidence = evidence_inflate if kind == "inflate" else evidence_sim
    covs, rc, violation = {}, 0, None
    for part in (VARIANTS if prop == "S17" else [kind]):
        rc, j, mode = search(prop, part, tier, seed, runs // len(VARIANTS) if prop == "S17" else runs)
        covs[part] = evidence(prop, tier, seed, j, 0, mode)
        if rc:
            violation = j["violation"]
            break
    cov = combine(covs) if prop == "S17" else covs[kind]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": ASSUME[kind],
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if rc else 0,
    }
    if rc:
        ev["coverage"]["violation"] = violation
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for l in known_lines(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" sig=", 1)[1]))
    sys.stdout.flush()
    sys.exit(rc)


ASSUME = {
    "sim": ["clang's -fsanitize=thread instrumentation reports every memory access of the library; accesses "
            "inside stand-ins for libc functions are reported by the stand-ins",
            "the simulator's memory model: happens-before by vector clocks, atomic loads may return stale "
            "values within coherence; no out-of-thin-air, no compiler reordering beyond clang -O1's",
            "expected answers are those of an uninstrumented copy of the same tree making the call alone in "
            "a fresh process (known answers where the call needs no tables)"],
    "inflate": ["the model decoder and encoder in sim/refinflate.h and sim/inflate_sim.cpp",
                "AddressSanitizer and UndefinedBehaviorSanitizer report accesses outside the buffers"],
}


def replay(path):
    with open(path) as f:
        head = f.read(4096)
    part = "inflate" if "# replay file: streams" in head else "sim"
    for v in VARIANTS:
        if "\nvariant %s\n" % v in head:
            part = v
    d, _ = build(part)
    sys.exit(subprocess.run([os.path.join(d, "isim" if part == "inflate" else "sim"), "replay", path]).returncode)


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    opt = {}
    for i, x in enumerate(a):
        if x.startswith("--") and i + 1 < len(a):
            opt[x] = a[i + 1]
    if a[0] == "setup":
        for part in ["sim", "inflate"] + list(VARIANTS):
            build(part)
        return
    if a[0] == "replay":
        replay(os.path.abspath(a[1]))
    prop = a[0]
    if prop not in RUNS:
        die("unknown property " + prop)
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt.get("--seed", os.environ.get("VERIF_SEED", "1")))
    run_check(prop, tier, seed, int(opt["--runs"]) if "--runs" in opt else None)


if __name__ == "__main__":
    main()
