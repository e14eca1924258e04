#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree and decide one property.

  check.py setup             build everything once
  check.py C01               decide property C01 (tier and seed from VERIF_TIER, VERIF_SEED)
  check.py --replay FILE     replay a recorded violation
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
OPS = ["ops_f_lin", "ops_f_any", "ops_d_lin", "ops_d_any", "ops_i_lin", "ops_i_any", "ops_r_lin", "ops_r_any", "ops_r_big", "ops_cu", "ops_xls", "ops_b", "ops_d_more"]
RT = ["rt", "gen", "model", "main"]
WRAP = """memcpy memmove memset malloc free calloc realloc aligned_alloc posix_memalign pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire
__cxa_guard_release __cxa_guard_abort sched_yield time clock clock_gettime gettimeofday rand random getenv secure_getenv sched_getcpu
_ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv _ZNSt13random_device9_M_getvalEv
pthread_mutex_timedlock pthread_mutex_clocklock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait
pthread_cond_signal pthread_cond_broadcast _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv
_ZNSt18condition_variable10notify_allEv nanosleep usleep
_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE
_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE
_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj""".split()

# property -> (quick runs, thorough runs); a run is one simulated execution
RUNS = {"C01": (32000, 900000), "C02": (16000, 160000), "C03": (32000, 700000), "C04": (70000, 900000), "C05": (32000, 500000), "C06": (40000, 600000),
        "C07": (30000, 500000), "C08": (50000, 700000), "C09": (50000, 700000), "C10": (32000, 700000), "C11": (24000, 500000), "C12": (24000, 500000)}
WALL = {"quick": 400, "thorough": 3000}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def files(d):
    out = []
    for base, dirs, names in os.walk(d):
        dirs.sort()
        out += [os.path.join(base, n) for n in names]
    return out


def groups():
    with open(os.path.join(SIM, "ops.h")) as f:
        return re.findall(r"#ifndef NO_(\w+)", f.read())


def compile_ops(tu, out, opt, log):
    """Compile one instrumented unit; leave out groups that do not compile for its element type."""
    base = [CXX, "-std=gnu++14", opt, "-g0", "-w", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-I", os.path.join(REPO, "matrix"), "-c", os.path.join(SIM, tu + ".cpp")]
    r = sh(base + ["-o", out])
    if r.returncode == 0:
        return []
    log.append(r.stdout[-2000:])
    gs, bad = groups(), []
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda g: sh(base + ["-fsyntax-only"] + ["-DNO_" + x for x in gs if x != g]).returncode, gs))
    bad = [g for g, rc in zip(gs, res) if rc]
    if len(bad) < len(gs):
        r = sh(base + ["-o", out] + ["-DNO_" + x for x in bad])
        if r.returncode == 0:
            return [tu + "/" + g for g in bad]
    if os.path.exists(out):
        os.unlink(out)
    return [tu]


def build(opt="-O0"):
    os.makedirs(BUILD, exist_ok=True)
    simsrc = [f for f in files(SIM) if f.endswith((".cpp", ".h", ".inc"))]
    flags = " ".join(WRAP) + opt
    key = digest(simsrc + files(os.path.join(REPO, "matrix")), flags)
    rtkey = digest([f for f in simsrc if not os.path.basename(f).startswith("ops")], flags)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d, rd = os.path.join(BUILD, "sim-" + key), os.path.join(BUILD, "rt-" + rtkey)
        info = os.path.join(d, "info.json")
        if not os.path.exists(info):
            for n in os.listdir(BUILD):          # keep the disk small
                p = os.path.join(BUILD, n)
                if n.startswith("sim-") and time.time() - os.path.getmtime(p) > 1800:
                    shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d); os.makedirs(rd, exist_ok=True)
            left, log, errs = [], [], []
            with cf.ThreadPoolExecutor(8) as ex:
                fo = [ex.submit(compile_ops, tu, os.path.join(d, tu + ".o"), opt, log) for tu in OPS]
                fr = []
                for u in RT:
                    o = os.path.join(rd, u + ".o")
                    if not os.path.exists(o):
                        def one(u=u, o=o):
                            r = sh([CXX, "-std=gnu++17", "-O2", "-c", os.path.join(SIM, u + ".cpp"), "-o", o + ".tmp"])
                            if r.returncode:
                                errs.append(r.stdout[-4000:])
                            else:
                                os.rename(o + ".tmp", o)
                        fr.append(ex.submit(one))
                for f in fo:
                    left += f.result()
                for f in fr:
                    f.result()
            if errs:
                raise BuildError("simulator does not compile:\n" + errs[0])
            objs = [os.path.join(d, tu + ".o") for tu in OPS if os.path.exists(os.path.join(d, tu + ".o"))]
            if not objs:
                raise BuildError("the library does not compile:\n" + (log[0] if log else ""))
            link = lambda: sh([CXX, "-no-pie", "-pthread", "-o", os.path.join(d, "sim")] + objs + [os.path.join(rd, u + ".o") for u in RT] + ["-Wl,--wrap=" + w for w in WRAP])
            r = link()
            while r.returncode:                  # leave out units that need a library we do not have
                bad = [o for o in objs if os.path.basename(o) + ":" in r.stdout]
                if not bad or len(bad) == len(objs):
                    raise BuildError("link failed:\n" + r.stdout[-4000:])
                left += [os.path.basename(o)[:-2] for o in bad]
                objs = [o for o in objs if o not in bad]
                r = link()
            for o in objs:
                os.unlink(o)
            with open(info + ".tmp", "w") as f:
                json.dump({"left_out": left, "opt": opt, "key": key}, f)
            os.rename(info + ".tmp", info)
        os.utime(d)
        with open(info) as f:
            return os.path.join(d, "sim"), json.load(f)


RULE = {
    "C01": "one evaluation = one simulated run of 2-5 caller threads over shared and private operands under one seeded schedule; non-trivial = more than one call, at least one preemption or switch, and an event hash not seen before",
    "C02": "one evaluation = one simulated history of calls (2 to 3000, failing ones included, on reused storage, hopping between threads); non-trivial = more than one call and an event hash not seen before",
    "C03": "one evaluation = one simulated run of 1-4 caller threads, with element and allocation failures, every write of the code under test checked against the operands; non-trivial = a preemption, a fired fault or more than one call, and an event hash not seen before",
    "C04": "one evaluation = one simulated run in which element operations fail at chosen points and the call is repeated; non-trivial = a fired fault or more than one call, and an event hash not seen before",
    "C05": "one evaluation = one simulated run of calls made while the heap is exhausted; non-trivial = more than one call or a fired fault, and an event hash not seen before",
    "C06": "one evaluation = one simulated run of histogram calls with failing memory requests and retries; non-trivial = a fired fault or more than one call, and an event hash not seen before",
    "C07": "one evaluation = one simulated run of erroneous and regular calls, inside handlers and unwinding, and next to other threads; non-trivial = more than one call, and an event hash not seen before",
    "C08": "one evaluation = one simulated run of printing calls over a faulty output device (errors, short writes, failing flushes, exceptions, crash); non-trivial = a fired fault, a preemption or more than one call, and an event hash not seen before",
    "C09": "one evaluation = one simulated run of swaps and writes by 1-4 threads on disjoint rows or columns of one matrix, some swaps failing partway; non-trivial = a preemption, fired fault or more than one call, and an event hash not seen before",
    "C10": "one evaluation = one simulated run in which some callers are stopped for ever inside a call and some calls fail; non-trivial = a fired fault, a preemption or more than one call, and an event hash not seen before",
    "C12": "one evaluation = one simulated run in which callers keep results while other calls are made and operands are destroyed, read them again, overwrite them and call again; non-trivial = a result was kept or more than one call was made, and an event hash not seen before",
    "C11": "one evaluation = one simulated run in which calls are interrupted at chosen points by complete other calls on the same thread, up to eleven deep; non-trivial = a nested call fired or more than one call, and an event hash not seen before",
}


def run_sim(sim, prop, seed, runs, wall, out, timeout):
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    cmd = [sim, "search", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--wall", str(wall), "--workers", str(max(1, min(8, len(os.sched_getaffinity(0))))), "--out", out, "--replay-dir", rdir]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    with open(out, errors="replace") as f:
        return p.returncode, p.stdout, json.load(f)


def evidence(prop, tier, seed, st, infos, wall, rc):
    tot = {}
    for s in st:
        for k, v in s.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
    faults = {}
    for s in st:
        for k, v in s["faults"].items():
            if v:
                faults[k] = faults.get(k, 0) + v
    runs = tot["runs"]
    cov = {
        "evaluations": runs, "distinct_nontrivial": tot["nontrivial"], "rule": RULE[prop],
        "samples": [x for s in st for x in s["samples"]][:6] or ["no run completed"],
        "runs_per_hour": int(runs / max(1e-6, tot["search_s"]) * 3600), "seeds": runs,
        "simulated_time": {"steps": tot["steps"], "unit": "instrumented memory accesses, basic blocks, element operations, allocator, device and lock operations of the code under test; the library has no timers, so simulated time is counted in steps"},
        "calls": tot["calls"], "calls_returned": tot["calls_returned"], "calls_that_threw": tot["calls_threw"],
        "fault_kinds_fired": faults, "distinct_interleavings": tot["interleavings"],
        "interleaving_measure": "distinct hashes of the sequence of (task, call, step, next task) scheduling decisions of runs with at least one switch",
        "switches": tot["switches"], "preemptions_inside_calls": tot["preemptions"],
        "runs_with_two_calls_in_flight": tot["runs_with_2_calls_in_flight"], "runs_with_three_calls_in_flight": tot["runs_with_3_calls_in_flight"],
        "fresh_process_oracle_runs": tot["alone_runs"], "reference_model_checks": tot["model_checks"], "reference_model_opinions": tot["model_opinions"],
        "accesses_to_static_heap_or_thread_local_memory": tot["static_heap_tls_accesses"], "lock_operations": tot["sync_ops"],
        "runs_repeated_for_determinism": tot["rechecked"], "runs_not_repeatable": tot["nondeterministic"],
        "runs_skipped_or_inconclusive": tot["skipped"] + tot["filtered"],
        "instantiations": st[0]["operations"], "element_types": st[0]["types"], "groups_that_did_not_compile": sorted({g for i in infos for g in i["left_out"]}),
        "builds": [i["opt"] for i in infos],
        "real_code": "all of /repo/matrix/*.hpp, libstdc++ containers and algorithms, std::ostream formatting, C++ exception handling, real threads (released one at a time)",
        "stubs": "thread scheduler, memory allocator, the device behind std::cout, clocks and randomness, mutexes/once/static guards (none used by the unchanged library), the element type Rat",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["interleavings are sequentially consistent (weak-memory effects are covered only through the race detector)",
                          "accesses inside precompiled libstdc++ code are not scheduling points",
                          "a clean search is evidence over the sampled runs, not proof"],
          "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in WALL else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    passes = [("-O0", seed, RUNS[prop][tier == "thorough"])]
    if tier == "thorough":
        passes.append(("-O2", seed + 1000003, RUNS[prop][1] // 4))
    st, infos, rc = [], [], 0
    for opt, sd, runs in passes:
        sim, info = build(opt)
        out = os.path.join(os.path.dirname(sim), "result-%s-%d.json" % (prop, os.getpid()))
        rc, text, s = run_sim(sim, prop, sd & 0xffffffffffffffff, runs, WALL[tier] if opt == "-O0" else WALL[tier] / 3, out, WALL[tier] + 500)
        os.unlink(out)
        st.append(s); infos.append(info)
        if info["left_out"]:
            print("note: does not compile for some element types, left out:", ", ".join(info["left_out"]))
        sys.stdout.write(text)
        if rc:
            break
    wall = time.time() - t0
    evidence(prop, tier, seed, st, infos, wall, rc)
    n = sum(s["runs"] for s in st)
    if rc == 0:
        if not n:
            print("no run was executed"); return 2
        print("%s held on %d simulated runs (%d distinct non-trivial), %.1f s" % (prop, n, sum(s["nontrivial"] for s in st), wall))
    return rc


def main():
    a = sys.argv[1:]
    try:
        if a == ["setup"]:
            print(build()[0]); return 0
        if len(a) == 2 and a[0] == "--replay":
            sim, _ = build()
            rc = subprocess.run([sim, "replay", os.path.abspath(a[1])]).returncode
            return 1 if rc == 3 else rc
        if len(a) == 1 and a[0] in RUNS:
            return check(a[0])
    except BuildError as e:
        print("error:", e, file=sys.stderr); return 2
    print(__doc__); return 2


if __name__ == "__main__":
    sys.exit(main())
