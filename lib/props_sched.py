"""Properties of the multithreaded mesher and solver: any schedule against the serial reference."""
import copy, json, random
from engine import Check, Verdict, stable_seed

REAL = ["mesh adaptation, connectivity, layers (Accessible_mesh, Element_container, Tree, Mesh_face, Vertex, Lock, ...)", "solver and kernels (Solver, Kernel_*)", "geometry, boundary conditions, HDF5 output (real HDF5 library on real files in a scratch directory)", "std library, Eigen"]
STUB = ["OpenMP runtime and locks/atomics at instruction level: replaced by a deterministic scheduler of fibres that decides every interleaving", "clocks: simulated", "heap: simulated, addresses and initial content decided by the seed", "system calls on files: real, counted and interceptable"]

STRAT = ["in order", "random switches", "round robin", "one thread starved", "switch at synchronisation only", "reverse order", "hold threads at conflicting accesses until they meet"]

def random_schedule(r, i):
    sp = dict(threads=r.choice([2, 2, 3, 4, 5, 6, 8]), strat=r.choice([1, 1, 1, 1, 2, 3, 4, 5, 0]), seed=r.getrandbits(40), gap=r.choice([30, 100, 1000, 10000, 100000]), psync=r.choice([0, 0, .02, .1, .3, 1]), preg=r.choice([.2, 1, 1]),
              layout=r.choice([0, r.getrandbits(30), r.getrandbits(30)]), fill=r.choice([0xa5, 0xa5, 0, 0xff, 0x7f]))
    return sp

def schedules(r, i):
    """three schedules: any; one with conflict detection; one steered to the conflicts the second one has found"""
    a, b, c = (random_schedule(r, i) for _ in range(3))
    b["race"] = 1; b["phot"] = r.choice([0, 0, .02, .1, .5]); b["conflicts"] = 1
    for k in ("threads", "layout", "fill"): c[k] = b[k]
    c["strat"] = 6; c["phot"] = r.choice([.1, .3, .6, .9]); c["preg"] = r.choice([.3, 1]); c["meet"] = 1
    return r.choice([[a, b, c], [b, c], [b, c]])

class Sched_check(Check):
    scen = None; noise = False; rtol = 1e-9; real = REAL; stub = STUB; tail = {}
    want_invariants = False; want_equal = True
    assumptions = ["interleavings are sequentially consistent (weaker memory orderings of the hardware are not simulated)",
                   "the numerical result may depend on the order of floating point summation: differences below 1e-9 of the largest entry are equal",
                   "basis row sizes 2 to 4, meshes up to a few hundred elements, 1 to 8 threads"]
    def trial(self, i, r):
        return {"cfg": r.getrandbits(32), "opts": self.options(i, r), "alt": self.schedules(r, i)}
    def options(self, i, r): return {}
    def schedules(self, r, i): return schedules(r, i)
    def base(self, t): return dict(scen=self.scen, cfg=t["cfg"], ticks=self.ticks, **t["opts"])
    ticks = 1000000000
    def judge(self, ctx, t):
        v = Verdict()
        ref = ctx.run(self.base(t), threads=1)
        v.key = [ref.h["digest"] if ref.h else ref.how]
        if ref.how == "timeout": v.inconclusive += 1; return v
        if self.serial(ref, v, t): return v
        if ref.status == "hang": v.inconclusive += 1; return v # far too long: a mesh with inverted elements
        races = []
        for sp in t["alt"]:
            if sp.pop("meet", 0): sp["hot"] = races[:4000]
            a = ctx.run(dict(self.base(t), ticks=4*self.ticks), trace=int(bool(t.get("want_trace"))), **sp)
            if a.how == "timeout": v.inconclusive += 1; continue
            self.pair(ctx, ref, a, v, sp)
            if a.h:
                v.key.append(a.h["order_hash"])
                if sp.get("conflicts"): races = ctx.conflicts(a)
                v.notes["threads held at a conflicting access"] += a.h["held"]; v.notes["threads brought together at the same data"] += a.h["met"]; v.notes["conflicting pairs of accesses seen"] += len(a.h["races"])
                if a.h["switches"] and ref.status == "ok" and "empty mesh" not in a.h["probes"]: v.nontrivial = True
            if t.get("want_trace"): self.last = a; t["_trace"] = ctx.trace(a)
        return v
    def serial(self, ref, v, t):
        if ref.status != "ok": v.notes["reference ended with " + ref.status] += 1
    def pair(self, ctx, ref, a, v, sp):
        if self.want_invariants and a.h and ref.status == "ok":
            for x in a.h["violations"]: v.bad("invariant", x)
        if not self.want_equal: return
        if a.status != ref.status:
            if ref.status == "ok" or a.status.startswith(("deadlock", "signal", "misuse")): v.bad("ending " + a.status, "the serial execution ends with %s, this schedule with %s: %s" % (ref.status, a.status, (a.h or {}).get("detail", "")[:300]))
            return
        if ref.status != "ok": return
        c = ctx.pool.compare(ref.out, a.out, self.rtol)
        if c.get("equal") is not True and c.get("worst", 1) < 1e-3: # is the configuration itself ill-conditioned (sensitive to rounding)?
            w = 0
            tests = [dict(layout=k) for k in (1, 2, 3, 4, 5)]
            if self.noise: tests += [dict(noise="%de-15" % k) for k in (1, 2)]
            for x in tests:
                n = ctx.run(dict(ref.spec, **x))
                d = ctx.pool.compare(ref.out, n.out, self.rtol)
                if n.status != ref.status or (d.get("n_diff") and d["worst"] <= self.rtol): continue
                w = max(w, d.get("worst", 0))
            if w < 1e-3 and c["worst"] < 1e2*w: v.notes["configuration sensitive to rounding, numbers not judged"] += 1; v.inconclusive += 1; return
        if c.get("equal") is not True: v.bad(self.kind_of(ref, c), "; ".join(c.get("diffs", [str(c)]))[:700])
    def kind_of(self, ref, c): return "different result"
    def summary(self, t):
        return {"configuration": t["cfg"], "options": t["opts"], "schedules": [{("strategy" if k == "strat" else k): (STRAT[x] if k == "strat" else len(x) if k == "switches" else len(x) if k == "hot" else x) for k, x in s.items()} for s in t["alt"]]}
    def shrink(self, t, ctx):
        c = []
        def var(**k): n = copy.deepcopy(t); n.pop("_trace", None); n.update(k); return n
        if len(t["alt"]) > 1: return [var(alt=[s]) for s in t["alt"]]
        s = t["alt"][0] if t["alt"] else None
        o = t["opts"]
        for k in self.tail:
            for x in self.tail[k]:
                if int(o.get(k, self.tail[k][-1] + 1)) > x: c.append(var(opts=dict(o, **{k: x})))
        if s is None: return c
        if "switches" not in s:
            for th in (2, 3):
                if s["threads"] > th: c.append(var(alt=[dict(s, threads=th)]))
            for k, x in (("layout", 0), ("fill", 0xa5), ("psync", 0), ("race", 0), ("phot", 0), ("strat", 0)):
                if s.get(k, x) != x: c.append(var(alt=[dict(s, **{k: x})]))
            # as an explicit list of switches
            d = ctx.run(self.base(t), trace=1, **s)
            tr = ctx.trace(d)
            if tr is not None and len(tr) <= 20000: c.append(var(alt=[dict(threads=s["threads"], layout=s.get("layout", 0), fill=s.get("fill", 0xa5), switches=tr)]))
        else:
            w = s["switches"]; n = len(w)
            m = 2
            while m <= min(n, 16):
                k = (n + m - 1)//m
                for j in range(0, n, k): c.append(var(alt=[dict(s, switches=w[:j] + w[j + k:])]))
                m *= 2
            if n <= 24:
                for j in range(n): c.append(var(alt=[dict(s, switches=w[:j] + w[j + 1:])]))
        return c

class C01(Sched_check):
    id = "C01"; scen = "mesh"; n_quick = 420; tail = {"steps": [1, 2], "max_elems": [30, 60, 100]}
    rule = "A trial is a random meshing history (dimension, geometry, criteria, refinement sweeps, relaxation, layer splits) run serially and under two random schedules; non-trivial if at least one involuntary thread switch happened in a run that completed; distinct by outcome and hash of all scheduling decisions."
    def options(self, i, r): return {"max_elems": r.choice([60, 100, 150, 250]), "steps": r.choice([2, 3, 4, 5])}
    def kind_of(self, ref, c): # the known finding is only about the warping of faces, and what is computed from it
        only = all(d.split("[")[0].strip().endswith(("face warping", "volume")) for d in c.get("diffs", ["?"]))
        return "face warping of elements with several surface faces" if only and "element with several surface faces" in ref.h["probes"] else "different result"
    def listed(self, t, kind, text, e): return kind == e["kind"]

class C02(Sched_check):
    id = "C02"; scen = "flow"; noise = True; n_quick = 420; tail = {"iters": [1, 2], "max_elems": [20, 40]}
    rule = "A trial is a random mesh and flow set-up (physics, local or global time step, artificial viscosity, admissibility fix, filter) advanced some iterations serially and under two random schedules; non-trivial if at least one involuntary thread switch happened in a run that completed on a non-empty mesh; distinct by outcome and hash of all scheduling decisions."
    def options(self, i, r): return {"iters": r.choice([2, 3, 4, 6])}

class C04(Sched_check):
    id = "C04"; scen = "mesh"; n_quick = 500; tail = {"steps": [1, 2], "max_elems": [30, 60, 100]}; want_invariants = True; want_equal = False
    rule = "A trial is a random meshing history, run serially and under random schedules, whose mesh is written to a file after every step; each file is checked by an independent reader; non-trivial if at least one involuntary thread switch happened in a run that completed; distinct by outcome and hash of all scheduling decisions."
    assumptions = Sched_check.assumptions[:1] + Sched_check.assumptions[2:] + ["the refinement criteria are functions of the element only", "elements that have not been deformed are required to be at their nominal position only in two dimensions"]
    def options(self, i, r): return {"max_elems": r.choice([60, 100, 150, 250]), "steps": r.choice([2, 3, 4, 5, 6]), "each": 1}
    def schedules(self, r, i): return schedules(r, i)[:2]
    def serial(self, ref, v, t):
        super().serial(ref, v, t)
        self.invariants(ref, v, "serial execution")
    def invariants(self, r, v, where):
        if not r.h: return
        for x in r.h["violations"]: v.bad("invalid mesh", "%s: %s" % (where, x))
        v.notes["runs whose mesh files were checked"] += 1
    def pair(self, ctx, ref, a, v, sp):
        if ref.status == "ok" and a.status != "ok": v.bad("ending " + a.status, "the serial execution succeeds, this schedule ends with %s: %s" % (a.status, (a.h or {}).get("detail", "")[:300])); return
        self.invariants(a, v, "%d threads" % sp["threads"])

class Physics(Sched_check):
    scen = "physics"; tail = {"iters": [1, 2], "max_elems": [20, 40]}; want_equal = False; limit = None
    JAC = (.02, 50.)
    assumptions = Sched_check.assumptions[:1] + Sched_check.assumptions[2:] + ["only meshes without inverted or nearly inverted elements are judged (ratio of volumes between 1/50 and 50)"]
    def options(self, i, r): return {"iters": r.choice([2, 3, 4, 6, 8]), "uniform": self.uniform}
    def serial(self, ref, v, t): super().serial(ref, v, t); return self.error(ref, v, "serial execution")
    def pair(self, ctx, ref, a, v, sp): self.error(a, v, "%d threads" % sp["threads"])
    def error(self, r, v, where):
        from engine import sections
        if not r.h or "empty mesh" in r.h["probes"]: return True
        s = sections(r.out)
        jac = s.get("inverse jacobian", []) + s.get("inverse jacobian after split", [])
        if not jac or not all(self.JAC[0] < x < self.JAC[1] for x in jac): v.notes["not judged because of inverted elements"] += 1; return True
        if r.status == "exception" and "unprocessed connection" in r.h["detail"]: return
        v.notes["runs judged"] += 1
        if r.status != "ok": v.bad("flow ends with " + r.status, "%s: the flow solution ends with %s: %s" % (where, r.status, r.h["detail"][:300])); return
        e = s["error"][0]
        if not e <= self.limit: v.bad(self.kind, "%s: after %d iterations %s" % (where, s["iterations"][0], self.text % (s["variable"][0], e)))
        if not s["admissible"][0]: v.bad("inadmissible state", "%s: the flow state is not admissible" % where)

class C15(Physics):
    id = "C15"; uniform = 1; n_quick = 500; limit = 1e-10; kind = "uniform flow disturbed"; text = "variable %d differs from the uniform flow by %.3g of its scale"
    rule = "A trial is a random mesh history with a uniform flow on it (random physics, boundary conditions, layer splits while the flow is advanced), run serially and under random schedules; non-trivial if at least one involuntary thread switch happened in a run that completed on a non-empty mesh; distinct by outcome and hash of all scheduling decisions."

class C16(Physics):
    id = "C16"; uniform = 0; n_quick = 500; limit = 1e-12; kind = "not conserved"; text = "the integral of variable %d has changed by %.3g of its scale"
    rule = "A trial is a random mesh history with a non-uniform flow in a closed, impermeable box on it (random physics, layer splits while the flow is advanced), run serially and under random schedules; non-trivial if at least one involuntary thread switch happened in a run that completed on a non-empty mesh; distinct by outcome and hash of all scheduling decisions."
