#!/usr/bin/env python3
"""Deterministic simulation of CODD: build the simulator from /repo's working tree, search over seeds,
confirm, minimise and report violations, write evidence.

  check.py build                       build only
  check.py run C01 [--seed S] [--tier quick|thorough] [--runs N] [--max-s T] [--repo DIR]
  check.py replay FILE                 run a replay file again (exit 1: it reproduces, 0: it does not)
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
CORES = min(8, os.cpu_count() or 1)
FLAGS = ["-std=gnu++23", "-O2", "-g1", "-D_NDEBUG", "-DNDEBUG", "-DCODD_SIM", "-w"]

# runs of a quick check (fixed, so that the same seed covers the same executions), about 20 s on 8 cores
QUICK = {"C01": 500000, "C02": 280000, "C03": 280000, "C04": 400000, "C05": 350000, "C06": 1200000, "C07": 900000,
         "C08": 700000, "C09": 40000, "C10": 200000, "C11": 45000, "C12": 110000, "C13": 70000, "C14": 450000, "C15": 45000, "C16": 400000}
QUICK_CAP, THOROUGH_CAP = 240, 600

COMPONENTS = {
    "_search": {"real": ["branch and bound (search.cpp)", "relaxed/restricted/exact diagrams (dd.cpp, dd.hpp)", "nodes, node tables, frontier heap, hash tables, queues, pools (all of src/)", "libstdc++ containers and streams"],
                "stub": ["clocks: every clock source reads simulated time", "heap: operator new/delete served by a simulated arena with drawn placement, fill and failures", "console: std::cout writes into a captured device that can fail", "models: generated problem instances"]},
    "_thread": {"real": ["as for a single search; threads are real std::threads, only one runs at a time"],
                "stub": ["schedule: a baton passed by a seeded scheduler at model calls, allocations, clock reads, console writes, lock waits and between basic blocks of the library", "clocks, heap, console, models as above"]},
    "_store": {"real": ["pool.cpp/pool.hpp, store.cpp, heap.hpp, queue.hpp, hashtable.hpp, lighthash.hpp, vec.hpp, node lists"],
               "stub": ["heap: simulated arena with drawn placement, fill and allocation failures", "no search, no model"]},
    "_value": {"real": ["GNSet, NatSet, Range, FArray, Matrix (util.hpp)"],
               "stub": ["heap: simulated arena with drawn placement, fill and allocation failures", "no search, no model"]},
    "_display": {"real": ["diagram computation and display (dd.hpp, dd.cpp)", "std::ofstream / iostream formatting"],
                 "stub": ["mkstemp/open/write/close/rename/unlink, fork/exec/posix_spawn/system, wait: an in-memory system that records and fails calls as drawn; no program is ever started, no file outside the simulator is touched", "heap and console as above"]},
}
FINE = {"C09"}                     # properties whose schedules preempt between basic blocks
KIND = {"C09": "_thread", "C13": "_store", "C14": "_store", "C15": "_display", "C16": "_value"}
RULE = {
    "C01": "one run = drawn model (random layered system, knapsack, TSP, MISP, golomb), width, capacities, heap layout, clock, initial incumbent, up to 4 searches on the same objects; non-trivial: the first search needed more than one subproblem; distinct by the hash of all model calls and results",
    "C02": "as C01 with 1-7 callbacks registered over 1-3 searches; non-trivial: at least one incumbent was announced; distinct by the hash of model calls and announcements",
    "C03": "as C01 with 1-3 interruptions (limit, exception from model / callback / limit predicate / console) followed by a resumed search; non-trivial: at least one interruption really happened; distinct by the hash of model calls and announcements",
    "C04": "as C01 with a drawn limit predicate, stalls and wall-clock jumps, compared with the same search without limit; non-trivial: the limit was consulted more than once or answered true; distinct by model calls, polls and elapsed times",
    "C05": "as C01 under a drawn clock with stalls, output lines parsed and compared with simulated truth; non-trivial: at least one progress line was printed; distinct by model calls and line counts",
    "C06": "a random layered system, up to 8 relaxed diagrams from the root or from cutset states of earlier ones, some preceded by an interrupted computation; non-trivial: at least one non-empty cutset was checked; distinct by values, cutset states and model calls",
    "C07": "as C06 for restricted diagrams; non-trivial: at least one diagram dropped states; distinct by values and model calls",
    "C08": "exact diagrams: computed, reset, copied, interrupted, applied at roots and subproblems; non-trivial: more than 20 model calls; distinct by values and model calls",
    "C09": "2-4 searches interleaved by the scheduler (down to single basic blocks) or one nested in another, compared with each one alone; non-trivial: more than two switches, or the nested search ran; distinct by schedule and model calls",
    "C10": "one search repeated in 2-4 environments (heap layout and fill, clocks, broken console, other searches before); non-trivial: more than 20 model calls; distinct by model calls and announcements",
    "C11": "one search whose n-th allocation fails (once or from then on), followed by a search with memory available; non-trivial: the search makes more than 40 allocations; distinct by model calls and failing allocation",
    "C12": "2-9 searches, interrupted in various ways, and a diagram rebuilt 20 times; non-trivial: more than 40 model calls; distinct by model calls",
    "C13": "a sequence of pool operations (allocate, mark, cut, clear, destroy) with failing system allocations against an interval model; non-trivial: at least one cut and several segments; distinct by operation and address pattern",
    "C14": "operation sequences on pool-backed containers sharing one pool against plain models, with failing allocations; non-trivial: at least one growth; distinct by operations and results",
    "C15": "a diagram displayed under drawn failures of file, process and wait calls; non-trivial: a fault was injected or a child process existed; distinct by the recorded system calls",
    "C16": "a history of 1-400 constructions, copies, moves, assignments and operations on 5 growing sets, 3 fixed-size sets, arrays, matrices and a standard vector of sets, in dirty memory, one run in twelve with failing allocations (in a child process); non-trivial: more than 20 operations, or failing allocations; distinct by final values and choices",
}

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build(repo, fine=False):
    """fine: the library and the models are compiled so that the scheduler can preempt between basic blocks"""
    srcs = sorted(glob.glob(repo + "/src/*.cpp")) + sorted(glob.glob(HERE + "/sim/*.cpp"))
    deps = srcs + sorted(glob.glob(repo + "/src/*.h*")) + sorted(glob.glob(HERE + "/sim/*.hpp"))
    h = hashlib.sha256(" ".join(FLAGS + [str(fine)]).encode())
    for f in deps: h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    key = h.hexdigest()[:20]
    top = os.path.join(HERE, "build"); os.makedirs(top, exist_ok=True)
    final = os.path.join(top, key)
    if os.path.exists(final + "/simrun"): return final + "/simrun", key
    tmp = tempfile.mkdtemp(prefix="tmp.", dir=top)
    try:
        def traced(f): return fine and (not f.startswith(HERE + "/sim/") or f.endswith("/models.cpp"))
        def cc(f):
            o = os.path.join(tmp, os.path.basename(os.path.dirname(f)) + "_" + os.path.basename(f) + ".o")
            r = sh(["g++", *FLAGS, *(["-fsanitize-coverage=trace-pc"] if traced(f) else []), "-I" + repo + "/src", "-I" + HERE + "/sim", "-c", f, "-o", o])
            if r.returncode and os.path.basename(f).startswith("p_"):     # a harness that does not fit the tree: only its own properties go without an answer
                print("check warning: compilation of %s failed:\n%s" % (f, r.stdout[-1500:]), file=sys.stderr); return None
            if r.returncode: raise RuntimeError("compilation of %s failed:\n%s" % (f, r.stdout[-3000:]))
            return o
        srcs.sort(key=lambda f: -os.path.getsize(f))
        with cf.ThreadPoolExecutor(CORES) as ex: objs = list(ex.map(cc, srcs))
        srcs, objs = [f for f, o in zip(srcs, objs) if o], [o for o in objs if o]
        objs = [o for f, o in zip(srcs, objs) if traced(f)] + [o for f, o in zip(srcs, objs) if not traced(f)]   # of a function compiled twice the first copy is taken
        r = sh(["g++", *objs, "-o", tmp + "/simrun", "-lpthread", "-ldl"])
        if r.returncode: raise RuntimeError("link failed:\n" + r.stdout[-3000:])
        for o in objs: os.remove(o)
        try: os.rename(tmp, final)
        except OSError: pass
        old = sorted((d for d in glob.glob(top + "/*") if os.path.basename(d) != key), key=os.path.getmtime)
        for d in old[:-5]: shutil.rmtree(d, ignore_errors=True)
    finally:
        if os.path.exists(tmp): shutil.rmtree(tmp, ignore_errors=True)
    return final + "/simrun", key

class Sim:
    def __init__(self, binp, prop, seed, scratch):
        self.bin, self.prop, self.seed, self.dir, self.n = binp, prop, seed, scratch, 0
    def args(self, extra):
        return [self.bin, "--prop", self.prop, "--seed", str(self.seed), *map(str, extra)]
    def start(self, extra):
        self.n += 1; out = "%s/o%d" % (self.dir, self.n)
        p = subprocess.Popen(self.args([*extra, "--out", out]), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.dir, start_new_session=True)
        return p, out
    @staticmethod
    def kill(p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        p.wait()
    @staticmethod
    def rec(out):
        try:
            with open(out) as f: return json.loads(f.readline())
        except (OSError, ValueError): return None
    def once(self, extra, timeout=520):
        """one process; returns (returncode or None when it had to be killed, record)"""
        p, out = self.start(extra)
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired: self.kill(p); rc = None
        r = self.rec(out)
        if os.path.exists(out): os.remove(out)
        return rc, r
    def tape(self, tape, extra=(), timeout=520):
        self.n += 1; fn = "%s/t%d" % (self.dir, self.n)
        with open(fn, "w") as f: f.write(" ".join(map(str, tape)))
        rc, r = self.once(["--tape", fn, "--isolate", *extra], timeout)
        os.remove(fn)
        return rc, r

def minimise(sim, tape, cls, budget):
    t0 = time.time(); tried = 0
    def bad(t):
        rc, r = sim.tape(t)
        return r["tape"] if rc == 10 and r and r["class"] == cls else None
    def left(): return budget - (time.time() - t0)
    def first(cands):
        nonlocal tried
        i = 0
        while i < len(cands) and left() > 0:
            part = cands[i:i + CORES]; i += CORES; tried += len(part)
            with cf.ThreadPoolExecutor(CORES) as ex:
                for c, r in zip(part, ex.map(bad, part)):
                    if r is not None and (len(r), sum(r)) < (len(tape), sum(tape)): return r
        return None
    while tape and tape[-1] == 0: tape = tape[:-1]
    progress = True
    while progress and left() > 0:
        progress = False
        n = len(tape)
        r = first([tape[:k] for k in sorted({n * j // 16 for j in range(16)})])
        if r is not None: tape = r; progress = True; continue
        for size in [s for s in (256, 64, 16, 8, 4, 2, 1) if s <= max(1, n)]:
            i = 0
            while i < len(tape) and left() > 0:
                starts = list(range(i, len(tape), size))[:CORES]
                c = []
                for s in starts:
                    if any(tape[s:s + size]): c.append(tape[:s] + [0] * len(tape[s:s + size]) + tape[s + size:])
                    c.append(tape[:s] + tape[s + size:])
                r = first(c)
                if r is not None: tape = r; progress = True
                else: i = starts[-1] + size
        for i in range(len(tape)):
            if left() <= 0: break
            if i < len(tape) and tape[i] > 1:
                r = first([tape[:i] + [v] + tape[i + 1:] for v in sorted({1, tape[i] // 2, tape[i] - 1}) if v < tape[i]])
                if r is not None: tape = r; progress = True
    return tape, tried

def known():
    out = []
    fn = HERE + "/known_findings.txt"
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def search(sim, runs, cap, isolate, findings, hits):
    """fixed set of runs spread over the workers; returns (violations, stats list, trouble)"""
    t0 = time.time(); jobs = {}; stats = []; viol = []; trouble = []; hashes = set()
    dbl = 50
    def launch(w, frm, iso):
        st, hs = "%s/s%d.%d" % (sim.dir, w, frm), "%s/h%d.%d" % (sim.dir, w, frm)
        rest = max(1.0, cap - (time.time() - t0))
        p, out = sim.start(["--from", frm, "--to", runs, "--step", CORES, "--double", dbl, "--stats", st, "--hashes", hs, "--max-s", "%.1f" % rest] + (["--isolate"] if iso else []))
        jobs[w] = (p, out, st, hs, frm, iso)
    for w in range(CORES): launch(w, w, isolate)
    while jobs:
        time.sleep(0.05)
        for w in list(jobs):
            p, out, st, hs, frm, iso = jobs[w]
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > cap + 200: sim.kill(p); trouble.append(("stuck", w, frm)); del jobs[w]
                continue
            del jobs[w]
            if rc == 0:
                stats.append(json.load(open(st)))
                b = open(hs, "rb").read(); hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
                continue
            r = sim.rec(out)
            if rc == 10 and r:
                k = [f for f in findings if f[0] == sim.prop and f[1] == r["class"] and re.search(f[2], r["msg"])]
                if k:
                    hits.add(k[0]); launch(w, r["index"] + CORES, iso); continue
                r["worker_from"], r["isolated"] = frm, iso; viol.append(r)
            else: trouble.append((rc, w, frm, r and r.get("msg")))
        if viol or (trouble and not isolate):
            time.sleep(0.3)
            for w, (p, out, *rest) in list(jobs.items()):
                if p.poll() == 10:
                    r = sim.rec(out)
                    if r: r["worker_from"], r["isolated"] = rest[2], rest[3]; viol.append(r)
                sim.kill(p)
            jobs.clear()
    viol.sort(key=lambda r: r["index"])
    return viol, stats, trouble, hashes

def confirm(sim, v):
    """an identical failure twice in fresh processes -> ('tape'|'range', record)"""
    a = sim.once(["--from", v["index"], "--to", v["index"] + 1, "--isolate"])
    b = sim.once(["--from", v["index"], "--to", v["index"] + 1, "--isolate"])
    if a[0] == 10 and b[0] == 10 and a[1]["class"] == b[1]["class"] and (a[1]["behaviour"] == b[1]["behaviour"] or a[1]["class"] == "no-progress"): return "tape", a[1]
    if v["isolated"]: return None, None
    # it depends on what earlier runs left in the process: the history of the whole process is the execution
    lo = v["worker_from"]
    def rng(f): return sim.once(["--from", f, "--to", v["index"] + 1, "--step", CORES])
    def ok(x): return x[0] == 10 and x[1] and x[1]["index"] == v["index"] and x[1]["class"] == v["class"]
    back = 1
    while True:
        f = max(lo, v["index"] - back * CORES)
        x = rng(f)
        if ok(x):
            y = rng(f)
            if ok(y) and x[1]["behaviour"] == y[1]["behaviour"]: x[1]["from"] = f; return "range", x[1]
        if f == lo: return None, None
        back *= 4

def report(sim, mode, rec, key, prop):
    os.makedirs(HERE + "/replays", exist_ok=True)
    t1 = time.time()
    rep = {"property": prop, "class": rec["class"], "msg": rec["msg"], "seed": sim.seed, "index": rec["index"], "mode": mode, "build": key}
    if mode == "tape":
        rc, again = sim.tape(rec["tape"])
        slow = time.time() - t1
        if rc != 10 or again["class"] != rec["class"]: return None
        tape, tried = minimise(sim, again["tape"], rec["class"], 25 if slow < 3 else 45)
        rc, m = sim.tape(tape, ["--verbose"]); rc2, m2 = sim.tape(tape, ["--verbose"])
        if rc != 10 or rc2 != 10 or m["class"] != rec["class"] or (m["behaviour"] != m2["behaviour"] and rec["class"] != "no-progress"): return None
        rep.update(tape=m["tape"], original_tape_length=len(rec["tape"]), minimiser_replays=tried, msg=m["msg"], behaviour=m["behaviour"], events=m.get("events", []))
        name = hashlib.sha256(json.dumps([prop, m["tape"]]).encode()).hexdigest()[:10]
    else:
        rep.update({"from": rec["from"], "step": CORES, "behaviour": rec["behaviour"]})
        name = hashlib.sha256(json.dumps([prop, sim.seed, rec["from"], rec["index"]]).encode()).hexdigest()[:10]
    fn = "%s/replays/%s-%s.json" % (HERE, prop, name)
    with open(fn, "w") as f: json.dump(rep, f, indent=1)
    return fn, rep

def replay(sim, rep):
    if rep["mode"] == "tape": rc, r = sim.tape(rep["tape"], ["--verbose"])
    else: rc, r = sim.once(["--from", rep["from"], "--to", rep["index"] + 1, "--step", rep["step"]])
    return rc, r

def samples(sim, runs):
    got = []
    for i in range(0, min(runs, 60)):
        st = "%s/sample" % sim.dir
        rc, r = sim.once(["--from", i, "--to", i + 1, "--verbose", "--stats", st])
        if rc != 0: continue
        d = json.load(open(st))
        if d["nontrivial"]: got.append({"seed": sim.seed, "index": i, "events": d.get("events", [])[:30], "counters": d["counters"]})
        if len(got) == 2: break
    return got

def run(a):
    prop, t0 = a.prop, time.time()
    binp, key = build(a.repo, prop in FINE)
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="codd-sim.")
    try:
        sim = Sim(binp, prop, a.seed, scratch)
        thorough = a.tier == "thorough"
        runs = a.runs or (1 << 40 if thorough else QUICK[prop])
        cap = a.max_s or (THOROUGH_CAP if thorough else QUICK_CAP)
        findings, hits, notes = known(), set(), []
        ts = time.time()
        result, total = None, []
        isolate = False
        viol, stats, trouble, hashes = search(sim, runs, cap, False, findings, hits)
        conf = None
        for v in viol[:3]:
            mode, rec = confirm(sim, v)
            if mode: conf = (mode, rec); break
        if not conf and (trouble or viol):
            # runs in one process disturb each other (something static, something leaked): one process per run
            notes.append("runs were not independent inside one process (%s); every run was given a process of its own" % (trouble[:2] or [x["class"] for x in viol[:2]],))
            isolate = True
            viol, stats, trouble, hashes = search(sim, runs, cap, True, findings, hits)
            for v in viol[:3]:
                mode, rec = confirm(sim, v)
                if mode: conf = (mode, rec); break
            if not conf and (viol or trouble):
                print("check error: %s" % ((viol and viol[0]["msg"]) or trouble), file=sys.stderr); return 2
        wall = time.time() - ts
        rep = None
        if conf:
            rep = report(sim, conf[0], conf[1], key, prop)
            if not rep: print("check error: a violation could not be replayed: %s" % conf[1]["msg"], file=sys.stderr); return 2
        n = sum(s["runs"] for s in stats); cnt = {}
        for s in stats:
            for k, v in s["counters"].items(): cnt[k] = cnt.get(k, 0) + v
        if conf: n = max(n, 1)
        faults = {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault.")}
        other = {k: v for k, v in sorted(cnt.items()) if not k.startswith("fault.")}
        ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 1 if conf else 0,
              "coverage": {
                  "evaluations": n, "distinct_nontrivial": len(hashes), "rule": RULE[prop], "samples": samples(sim, runs) if not conf else [{"violation": rep[1]["msg"], "replay": rep[0]}],
                  "nontrivial_runs": sum(s["nontrivial"] for s in stats),
                  "runs_per_hour": int(n / max(wall, .001) * 3600),
                  "seed_meaning": "every run has a seed of its own, (VERIF_SEED, property, run index), which determines it completely: seeds per hour = runs per hour",
                  "simulated_seconds": round(sum(s["sim_ms"] for s in stats) / 1000, 3),
                  "faults_injected": faults, "probes": other,
                  "distinct_measure": "64-bit hash of the recorded history of a run (see rule)",
                  "runs_executed_twice_and_compared": sum(s["doubles"] for s in stats),
                  "process_per_run": isolate, "workers": CORES, "search_wall_s": round(wall, 2), "build_wall_s": round(tb, 2),
                  "components": COMPONENTS[KIND.get(prop, "_search")], "known_findings_hit": sorted(f[3] for f in hits), "notes": notes},
              "assumptions": ["the reference optimum of a generated model is computed by exhaustive dynamic programming or enumeration in the harness", "models are layered (plus early arrival at the sink) with valid merge, sound local bound and sound dominance"]}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(HERE + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
        for f in sorted(hits): print("KNOWN-FINDING: property=%s %s" % (prop, f[3]))
        if conf:
            print("%s [%s] seed %d run %d: %s" % (prop, rep[1]["class"], sim.seed, rep[1]["index"], rep[1]["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, rep[0])); return 1
        print("%s: %d runs, %d distinct non-trivial, %.1f s of search, faults %s%s" % (prop, n, len(hashes), wall, faults, " [isolated]" if isolate else ""))
        return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser(); sp = ap.add_subparsers(dest="cmd", required=True)
    b = sp.add_parser("build"); b.add_argument("--repo", default="/repo")
    r = sp.add_parser("run"); r.add_argument("prop"); r.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    r.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    r.add_argument("--runs", type=int, default=0); r.add_argument("--max-s", type=float, default=0); r.add_argument("--repo", default="/repo")
    p = sp.add_parser("replay"); p.add_argument("file"); p.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    try:
        if a.cmd == "build": print(build(a.repo)[0]); print(build(a.repo, True)[0]); return 0
        if a.cmd == "run": return run(a)
        rep = json.load(open(a.file)); binp, key = build(a.repo, rep["property"] in FINE)
        scratch = tempfile.mkdtemp(prefix="codd-sim.")
        try: rc, rec = replay(Sim(binp, rep["property"], rep["seed"], scratch), rep)
        finally: shutil.rmtree(scratch, ignore_errors=True)
        if rc == 10 and rec["class"] == rep["class"]:
            for e in rec.get("events", []): print(e)
            exact = rec["behaviour"] == rep["behaviour"]
            print("reproduced%s: [%s] %s" % (" exactly" if exact else " (the history differs: other build?)", rec["class"], rec["msg"]))
            print("VIOLATION property=%s replay=%s" % (rep["property"], os.path.abspath(a.file))); return 1
        print("not reproduced (rc %s %s)" % (rc, rec and rec["class"])); return 0
    except RuntimeError as e:
        print("check error: %s" % e, file=sys.stderr); return 2
if __name__ == "__main__": sys.exit(main())
