"""Common part of every check: build, seeded search, determinism gate, minimisation, replay, evidence."""
import argparse, collections, hashlib, json, os, random, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF); sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as builder
from pool import Pool

FAULT = {n: i for i, n in enumerate(["error", "error-window", "error-file", "short-transfer", "interrupt", "crash-before", "crash-after", "crash-torn", "clock-jump", "stall", "user-command", "allocation-failure", "error-nth"])}
OP = {n: i for i, n in enumerate(["open-read", "open-write", "read", "write", "truncate", "close", "unlink", "rename", "symlink", "mkdir", "stat", "shell", "copy", "stdin"])}

class Verdict:
    """what one trial showed. violations: list of (kind, text); `kind` is what minimisation preserves"""
    def __init__(self):
        self.violations = []; self.runs = []; self.key = None; self.nontrivial = False; self.inconclusive = 0
        self.notes = collections.Counter(); self.sample = None
    def bad(self, kind, text): self.violations.append((kind, text))
    def kinds(self): return [k for k, _ in self.violations]

class Ctx:
    """runs one trial's jobs and cleans up after it"""
    def __init__(self, pool): self.pool = pool; self.junk = []; self.runs = []
    def dir(self, files=None):
        d = self.pool.new_dir(); self.junk.append(d)
        self.put(d, files or {})
        return d
    def put(self, d, files):
        for name, text in files.items():
            p = os.path.join(d, name)
            sub = os.path.dirname(p)
            if not os.path.isdir(sub):
                os.makedirs(sub)
                q = sub
                while q != d: os.chmod(q, 0o777); q = os.path.dirname(q)
            mode = "wb" if isinstance(text, bytes) else "w"
            with open(p, mode) as f: f.write(text)
            os.chmod(p, 0o666)
    def run(self, spec, d=None, **kw):
        spec = dict(spec, **kw)
        sw = spec.pop("switches", None)
        d = d or self.dir()
        with self.pool.lock: self.pool.count += 1; n = self.pool.count
        od = "%s/o%06d" % (self.pool.work, n); os.mkdir(od); os.chmod(od, 0o777)
        self.junk.append(od)
        if sw is not None:
            spec["replay"] = od + "/switches"
            with open(spec["replay"], "w") as f: f.writelines("%d %d %d %d\n" % tuple(s) for s in sw)
        hot = spec.pop("hot", None)
        if hot is not None:
            spec["hot"] = od + "/hot"
            with open(spec["hot"], "w") as f: f.writelines("%d %d\n" % tuple(s) for s in hot)
        spec.setdefault("wall", 100)
        r, d, o = self.pool.run(spec, d, od + "/out")
        r.spec = spec; r.out = o; r.dir = d
        self.runs.append(r)
        return r
    def console(self, r):
        try: return open(r.out + ".console", errors="replace").read()
        except OSError: return ""
    def trace(self, r):
        try: return [list(map(int, l.split())) for l in open(r.out + ".trace")]
        except OSError: return None
    def conflicts(self, r):
        try: return [list(map(int, l.split())) for l in open(r.out + ".conflicts")]
        except OSError: return []
    def log(self, r):
        """[(number, type, size, faulted, path)] of the simulated system calls of a run (needs log=1)"""
        res = []
        try:
            for l in open(r.out + ".log", errors="replace"):
                p = l.rstrip("\n").split(" ", 4)
                if len(p) == 5 and p[0].isdigit(): res.append((int(p[0]), p[1], int(p[2]), int(p[3]), p[4]))
        except OSError: pass
        return res
    def close(self):
        for p in self.junk: shutil.rmtree(p, ignore_errors=True)

def sections(path):
    """the recorded observations of a run: name -> list or text"""
    import struct, array
    res = {}
    try: f = open(path, "rb")
    except OSError: return res
    with f:
        f.readline()
        while True:
            k = f.read(1)
            if not k: break
            n, = struct.unpack("<I", f.read(4)); name = f.read(n).decode(errors="replace")
            m, _ = struct.unpack("<Qd", f.read(16))
            if k == b"S": res[name] = f.read(m).decode(errors="replace")
            else:
                a = array.array("q" if k == b"I" else "d"); a.frombytes(f.read(8*m)); res[name] = a.tolist()
    return res

def stable_seed(*a): return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "little")

class Check:
    """one property; subclasses define trials and how to judge them"""
    id = None; level = "exploration"; rule = ""; assumptions = []; real = []; stub = []
    n_quick = 100; n_thorough = 100000; t_quick = 75.; t_thorough = 600.; gate = 4
    def prepare(self, pool, seed): pass           # anything shared by the trials
    def trial(self, i, rng): raise NotImplementedError
    def judge(self, ctx, trial): raise NotImplementedError
    def shrink(self, trial, ctx): return []       # candidates simpler than `trial`, most promising first
    def summary(self, trial): return trial
    def extra(self): return {}
    def listed(self, trial, kind, text, known): return None

KNOWN = os.path.join(VERIF, "known_findings.jsonl")
def load_known(pid):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("fixed:") or l.startswith("#"): continue
            k = json.loads(l)
            if k["property"] == pid: res.append(k)
    return res

def judge(check, pool, trial):
    ctx = Ctx(pool)
    try:
        v = check.judge(ctx, trial)
        v.runs = ctx.runs
        v.idents = [r.ident(r.spec["scen"] not in ("inspect", "pair", "visdata", "corrupt", "shape")) for r in ctx.runs if r.how != "timeout"]
        v.timeouts = sum(r.how == "timeout" for r in ctx.runs)
        return v
    finally: ctx.close()

def minimise(check, pool, trial, verdict, limit):
    """greedy: take any simpler trial that shows the same kind of violation"""
    end = time.time() + limit
    kind = verdict.kinds()[0]
    steps = tried = 0
    changed = True
    while changed and time.time() < end:
        changed = False
        ctx = Ctx(pool)
        try: cands = list(check.shrink(trial, ctx))
        finally: ctx.close()
        for i in range(0, len(cands), pool.n):
            if time.time() > end: break
            chunk = cands[i:i + pool.n]
            tried += len(chunk)
            with ThreadPoolExecutor(pool.n) as ex: res = list(ex.map(lambda c: judge(check, pool, c), chunk))
            ok = [(c, v) for c, v in zip(chunk, res) if kind in v.kinds()]
            if ok:
                trial, verdict = ok[0]; steps += 1; changed = True
                break
    return trial, verdict, steps, tried

class Stats:
    def __init__(self):
        self.trials = 0; self.runs = 0; self.keys = set(); self.nontrivial = set(); self.orders = set(); self.ios = set(); self.digests = set()
        self.injected = collections.Counter(); self.probes = collections.Counter(); self.ops = collections.Counter(); self.status = collections.Counter()
        self.notes = collections.Counter(); self.sim_time = 0.; self.ticks = 0; self.switches = 0; self.lock_acq = 0; self.lock_block = 0; self.regions = 0
        self.samples = []; self.timeouts = 0; self.inconclusive = 0; self.n_ops = 0
    def add(self, check, trial, v):
        self.trials += 1
        self.inconclusive += v.inconclusive
        self.timeouts += v.timeouts
        self.notes.update(v.notes)
        k = json.dumps(v.key) if v.key is not None else None
        if k: self.keys.add(k)
        if v.nontrivial and k: self.nontrivial.add(k)
        if v.nontrivial and len(self.samples) < 5: self.samples.append(v.sample or check.summary(trial))
        for r in v.runs:
            self.runs += 1
            self.status[r.status] += 1
            h = r.h
            if not h: continue
            self.orders.add(h["order_hash"]); self.ios.add(h["io_hash"]); self.digests.add(h["digest"])
            self.injected.update(h["injected"]); self.probes.update(h["probes"]); self.ops.update(h["by_type"])
            self.sim_time += h["sim_time"]; self.ticks += h["ticks"]; self.switches += h["switches"]; self.lock_acq += h["lock_acq"]; self.lock_block += h["lock_block"]; self.regions += h["team_regions"]; self.n_ops += h["ops"]

def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)

def main(checks):
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay"); ap.add_argument("--exe"); ap.add_argument("--n", type=int); ap.add_argument("--start", type=int, default=0); ap.add_argument("--budget", type=float)
    ap.add_argument("--keep-going", action="store_true", help="report every violating trial (development)")
    a = ap.parse_args()
    if a.property not in checks: die("no such check: " + a.property)
    check = checks[a.property]()
    t0 = time.time()
    if a.exe: exe = a.exe
    else:
        try: exe = builder.build(os.environ.get("HEXSIM_BUILD") or os.path.join(VERIF, "_build"), log=lambda s: print(s, flush=True))
        except builder.Build_error as e: die("BUILD FAILED\n" + str(e))
    t_build = time.time() - t0
    pool = Pool(exe)
    code = 2
    try: code = replay(check, pool, a) if a.replay else search(check, pool, a, exe, t0, t_build)
    finally: pool.close()
    sys.stdout.flush()
    os._exit(code)

def replay(check, pool, a):
    rec = json.load(open(a.replay))
    check.prepare(pool, rec.get("seed", 1))
    v = judge(check, pool, rec["trial"])
    for k, t in v.violations: print("%s: %s" % (k, t))
    want = rec.get("violations")
    same = want is None or [list(x) for x in v.violations] == want
    print("identity %s" % hashlib.sha256(repr(v.idents).encode()).hexdigest()[:16])
    if not v.violations: print("replay: no violation"); return 0
    if not same: print("replay: a different violation than recorded"); return 1 if any(k == want[0][0] for k, _ in v.violations) else 3
    print("VIOLATION property=%s replay=%s" % (check.id, a.replay))
    return 1

def search(check, pool, a, exe, t0, t_build):
    quick = a.tier != "thorough"
    n = a.n or (check.n_quick if quick else check.n_thorough)
    budget = a.budget or (check.t_quick if quick else float(os.environ.get("VERIF_BUDGET", check.t_thorough)))
    known = load_known(check.id)
    st = Stats(); found = []; known_seen = collections.OrderedDict(); gated = 0
    check.prepare(pool, a.seed)
    t1 = time.time()
    def one(i):
        rng = random.Random(stable_seed(check.id, a.seed, i))
        tr = check.trial(i, rng)
        v = judge(check, pool, tr)
        if i < a.start + check.gate or (i % 97 == 5): # determinism gate: the same trial again, in other processes
            w = judge(check, pool, tr)
            v.gate = not (v.timeouts or w.timeouts) and (v.idents != w.idents or v.violations != w.violations)
            v.gated = True
            if v.gate: v.gate_text = [(x, y) for x, y in zip(v.idents, w.idents) if x != y][:1]
        else: v.gate = v.gated = False
        return i, tr, v
    it = iter(range(a.start, a.start + n)); pending = set(); stop = False
    with ThreadPoolExecutor(pool.n) as ex:
        while True:
            while not stop and len(pending) < pool.n + 2 and time.time() - t1 < budget:
                try: i = next(it)
                except StopIteration: stop = True; break
                pending.add(ex.submit(one, i))
            if not pending: break
            done, pending = wait(pending, return_when=FIRST_COMPLETED)
            for f in done:
                i, tr, v = f.result()
                if v.gate: print("NOT DETERMINISTIC: trial %d %s %s" % (i, json.dumps(tr)[:600], v.gate_text)); os._exit(4)
                gated += v.gated
                st.add(check, tr, v)
                new = []
                for k, t in v.violations:
                    e = next((e for e in known if check.listed(tr, k, t, e)), None)
                    if e: known_seen[e["what"]] = known_seen.get(e["what"], 0) + 1
                    else: new.append((k, t))
                if new:
                    v.violations = new
                    found.append((i, tr, v))
                    if a.keep_going: print("trial %d: %s | %s" % (i, new[0], json.dumps(check.summary(tr))[:700]), flush=True)
                    else: stop = True
    t_sim = time.time() - t1
    for e in known:
        print("KNOWN-FINDING: property=%s %s" % (check.id, e["what"]))
    code = 0
    result = None
    if found and not a.keep_going:
        found.sort(key=lambda x: x[0])
        i, tr, v = found[0]
        print("trial %d: %s: %s" % (i, v.violations[0][0], v.violations[0][1]))
        again = judge(check, pool, tr)
        if again.violations and [x for x in again.violations if x in v.violations] != v.violations: die("the violation did not repeat identically: machinery error\n%s\n%s" % (v.violations, again.violations), 4)
        if not again.violations: die("the violation did not repeat: machinery error", 4)
        mt, mv, steps, tried = minimise(check, pool, tr, again, 60 if quick else 240)
        rdir = os.path.join(VERIF, "_run", "replay"); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d-%d.json" % (check.id, a.seed, i))
        rec = {"property": check.id, "seed": a.seed, "trial_number": i, "trial": mt, "violations": [list(x) for x in mv.violations], "original": tr, "minimisation": {"steps": steps, "tried": tried}}
        json.dump(rec, open(path, "w"), indent=1)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check.id, "--replay", path, "--exe", exe, "--seed", str(a.seed)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 1: die("replay in a fresh process did not reproduce the violation: machinery error\n" + p.stdout[-1500:], 4)
        print("minimised in %d steps (%d tried): %s" % (steps, tried, json.dumps(check.summary(mt))[:1500]))
        for k, t in mv.violations[:6]: print("  %s: %s" % (k, t[:600]))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        code = 1
    elif found: code = 1
    ev = {"property": check.id, "tier": "quick" if quick else "thorough", "seed": a.seed, "level": check.level, "wall_s": round(time.time() - t0, 2), "violations": len(found),
          "assumptions": check.assumptions,
          "coverage": {
              "evaluations": st.trials, "distinct_nontrivial": len(st.nontrivial), "rule": check.rule, "samples": st.samples or [],
              "simulated_runs": st.runs, "runs_per_hour": int(st.runs/max(t_sim, 1e-9)*3600), "seeds_per_hour": int(st.trials/max(t_sim, 1e-9)*3600), "simulated_seconds": round(st.sim_time, 3),
              "faults_injected": dict(st.injected), "simulated_system_calls": dict(st.ops),
              "schedules": {"distinct_interleavings_by_hash_of_all_scheduling_decisions": len(st.orders), "distinct_system_call_histories": len(st.ios), "distinct_outcomes": len(st.digests), "context_switches": st.switches, "parallel_regions_with_a_team": st.regions, "memory_accesses_and_sync_points": st.ticks, "lock_acquisitions": st.lock_acq, "lock_waits": st.lock_block},
              "endings": dict(st.status), "probes": dict(st.probes), "notes": dict(st.notes), "determinism": {"trials_run_twice_and_identical": gated}, "timeouts_not_judged": st.timeouts, "inconclusive": st.inconclusive,
              "real_components": check.real, "stub_components": check.stub, "known_findings_seen": dict(known_seen), "build_s": round(t_build, 1), "simulation_s": round(t_sim, 1)}}
    ev["coverage"].update(check.extra())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (check.id, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(VERIF, "evidence", check.id + ".json"))
    print("%s %s: %d trials, %d runs, %d distinct non-trivial, %.1f simulated s, %s, %s, build %.0f s, simulation %.0f s, violations %d" % (check.id, ev["tier"], st.trials, st.runs, len(st.nontrivial), st.sim_time, dict(st.injected), dict(st.status), t_build, t_sim, len(found)))
    return code
