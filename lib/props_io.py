"""Properties of whole simulations: checkpoints, restarts, errors, runtime commands, clocks."""
import copy, json, os, random, re, shutil
import casegen
from engine import Check, Verdict, FAULT, sections, stable_seed
from props_sched import STRAT

REAL = ["the whole program: input language, mesher, solver, checkpoint, visualisation, output (src/, include/*.hil), entered through the main() of hexecute or hil", "HDF5, libxml2, OpenCASCADE (STL), std library, Eigen; /bin/sh for shell commands", "file system semantics: real files in a scratch directory"]
STUB = ["system calls on files, allocation, clocks: intercepted; each is a numbered operation at which the simulator injects faults", "OpenMP runtime: deterministic scheduler of fibres", "a process crash ends the simulated process at the numbered operation: buffered data is lost, completed writes survive"]
ENOSPC, EIO, EACCES, EDQUOT, EMFILE, EROFS, ENOMEM = 28, 5, 13, 122, 24, 30, 12
ERRNO = {28: "ENOSPC", 5: "EIO", 13: "EACCES", 122: "EDQUOT", 24: "EMFILE", 30: "EROFS", 12: "ENOMEM"}

def io_schedule(r):
    """most I/O trials run serially; the others under any schedule"""
    sp = dict(ioseed=r.getrandbits(30))
    if r.random() < .25: sp.update(threads=r.choice([2, 3, 4]), strat=r.choice([1, 2, 3, 5]), seed=r.getrandbits(30), gap=r.choice([1000, 100000]), preg=r.choice([.1, .3]))
    else: sp["threads"] = 1
    return sp

class Case_check(Check):
    real = REAL; stub = STUB; t_quick = 70.
    assumptions = ["a crash kills the process, not the machine: the program never calls fsync, and survival of a power failure is not claimed",
                   "the file system is used by one simulation at a time (and by the simulated user's runtime command file)",
                   "basis row sizes 2 to 4, meshes up to a few hundred elements"]
    vis = None; small = True
    def options(self, r): return casegen.random_case(r, small=self.small, vis=self.vis)
    def base(self, t): return dict(scen="case", arg="run.hil", ticks=20000000000, **t["sched"])
    def files(self, t, **kw): return casegen.files(t["case"], **kw)
    def start(self, ctx, t, d=None, **kw):
        d = d or ctx.dir(self.files(t))
        return ctx.run(dict(self.base(t), **kw), d)
    def wd(self, t): return os.path.normpath(casegen.working_dir(t["case"]))
    def inspect(self, ctx, d, wd):
        r = ctx.run(dict(scen="inspect", dirs=wd), d)
        s = sections(r.out)
        res = {"file": {}, "link": {}, "refs": {}, "elements": {}, "why": {}}
        for k, v in s.items():
            a, _, b = k.partition(" ")
            if a in res: res[a][b] = v
        return res
    def summary(self, t): return t
    def shrink(self, t, ctx):
        for o in casegen.simpler(t["case"]): yield dict(copy.deepcopy(t), case=o)
        if t["sched"].get("threads", 1) != 1: yield dict(copy.deepcopy(t), sched={"threads": 1, "ioseed": t["sched"].get("ioseed", 0)})
        for k in ("points", "faults"):
            if k in t and len(t[k]) > 1:
                for i in range(len(t[k])): yield dict(copy.deepcopy(t), **{k: [t[k][i]]})

def checkpoint(name):
    m = re.fullmatch(r"iter(\d+)\.(mesh|state)\.h5", name)
    return (int(m[1]), m[2]) if m else None

def pick(log, r_class, u, sel=None):
    """operation number for a crash point of a class, given a uniform number"""
    def is_h5(p): return p.endswith(".h5")
    cand = {"latest": lambda o: "latest" in o[4],
            "meta": lambda o: o[1] in ("rename", "symlink", "unlink", "truncate", "close", "open-write") and (is_h5(o[4]) or "latest" in o[4]),
            "data": lambda o: o[1] == "write" and is_h5(o[4]),
            "xmf": lambda o: o[4].endswith(".xmf"),
            "shell": lambda o: o[1] == "shell" or o[4].endswith("runtime_cmd.hil"),
            "modify": lambda o: o[1] in ("write", "copy", "open-write", "truncate", "rename", "symlink", "mkdir", "close", "unlink"),
            "any": lambda o: True}[r_class]
    ops = [o for o in log if cand(o) and (sel is None or sel(o))] or log
    return ops[min(len(ops) - 1, int(u*len(ops)))][0] if ops else 0

def reported(console): return console.count("writing mesh/state data...done")

def error_fault(log, r_class, u, kind, errno, sel=None):
    op = pick(log, r_class, u, sel)
    return op, "%d:%d:%d" % (FAULT[kind], op, errno) + (":%d" % (3 + int(u*20)) if kind == "error-window" else "")

def open_up(d):
    for q, ds, fs in os.walk(d):
        os.chmod(q, 0o777)
        for f in fs:
            if not os.path.islink(os.path.join(q, f)): os.chmod(os.path.join(q, f), 0o666)

class C05(Case_check):
    id = "C05"; n_quick = 400; vis = False
    rule = "A trial is a random simulation killed at several points of its system call history (before, after or in the middle of an operation; biased to the operations on checkpoint files and links); non-trivial if a checkpoint existed at one of them; distinct by the system call history up to the crash."
    def trial(self, i, r):
        n = r.choice([6, 10])
        t = {"case": self.options(r), "sched": io_schedule(r), "points": [[r.choice(["latest", "latest", "meta", "meta", "data", "any"]), r.random(), r.choice(["crash-before", "crash-before", "crash-after", "crash-torn"])] for _ in range(n)]}
        if r.random() < .25:
            # the directory holds the files of another simulation
            b = self.options(r); b.update(wd=t["case"]["wd"]); t["before"] = b; t["points"] = t["points"][:5]
        return t
    def judge(self, ctx, t):
        v = Verdict(); v.key = []
        ref = self.start(ctx, t, log=1)
        if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        wd = self.wd(t)
        full = self.inspect(ctx, ref.dir, wd)
        v.key.append(ref.h["io_hash"])
        if t.get("before"): self.used_directory(ctx, t, v, full["file"], wd); return v
        log = ctx.log(ref)
        pts = sorted({(p[1] if p[0] == "op" else pick(log, p[0], p[1]), p[2]) for p in t["points"]}, key=lambda p: (p[0] + (p[1] == "crash-after"), p[1]))
        seen = {"mesh": -1, "state": -1}; done = {}
        end = [(len(log), None)]
        for op, kind in pts + end:
            if kind:
                r = self.start(ctx, t, faults="%d:%d" % (FAULT[kind], op))
                if r.status != "crashed":
                    if r.status == "timeout": v.inconclusive += 1; continue
                    v.bad("crash point not reached", "machinery: run ended with %s" % r.status); continue
                got = self.inspect(ctx, r.dir, wd); con = ctx.console(r)
                v.key.append([r.h["io_hash"], kind])
            else: got = full; con = ctx.console(ref)
            where = "at the end" if kind is None else "killed %s operation %d (%s)" % ({"crash-before": "before", "crash-after": "after", "crash-torn": "during"}[kind], op, " ".join(str(x) for x in log[op][1:]))
            self.rule_latest(v, full, got, con, seen, done, where)
        return v
    def used_directory(self, ctx, t, v, full, wd):
        """a simulation in a directory that holds the files of another one must leave the same files as in an empty directory"""
        first = ctx.run(dict(scen="case", arg="run.hil", ticks=20000000000, threads=1), ctx.dir(casegen.files(dict(t["before"], wd=t["case"].get("wd", "wd")))))
        if first.status != "ok": v.inconclusive += 1; v.notes["session before ended with " + first.status] += 1; return
        old = self.inspect(ctx, first.dir, wd)["file"]
        ctx.put(first.dir, self.files(t)); open_up(first.dir)
        def fresh():
            d = ctx.dir(); shutil.rmtree(d); shutil.copytree(first.dir, d, symlinks=True); os.chmod(d, 0o777); open_up(d); return d
        again = self.start(ctx, t, fresh(), log=1)
        if again.status != "ok": v.bad("abnormal end", "in a directory with files of another simulation the program ended with %s: %s" % (again.status, again.h["detail"][:300] if again.h else "")); return
        log = ctx.log(again)
        pts = sorted({(p[1] if p[0] == "op" else pick(log, p[0], p[1]), p[2]) for p in t["points"]}, key=lambda p: (p[0] + (p[1] == "crash-after"), p[1]))
        for op, kind in pts + [(len(log), None)]:
            r = again if kind is None else self.start(ctx, t, fresh(), faults="%d:%d" % (FAULT[kind], op))
            if kind and r.status != "crashed":
                if r.status == "timeout": v.inconclusive += 1
                else: v.bad("crash point not reached", "machinery: run ended with %s" % r.status)
                continue
            v.key.append([r.h["io_hash"], kind, "used"])
            got = self.inspect(ctx, r.dir, wd)["file"]; con = ctx.console(r)
            where = "in a directory with files of another simulation, " + ("at the end" if kind is None else "killed %s operation %d (%s)" % ({"crash-before": "before", "crash-after": "after", "crash-torn": "during"}[kind], op, " ".join(str(x) for x in log[op][1:])))
            v.nontrivial = True
            due = {n for n in full if checkpoint(n) or n in ("latest.mesh.h5", "latest.state.h5")} if kind is None else set()
            for k in range(reported(con)):
                it = C06.reported_iteration(self, t, k)
                due |= {"iter%010d.%s.h5" % (it, k2) for k2 in ("mesh", "state")} & set(full)
            for n in sorted(due):
                if got.get(n, "missing") != full[n]: v.bad("checkpoint reported as done, but wrong", "%s: %s is %s" % (where, n, got[n] if got.get(n) in ("unreadable", "dangling") else "missing" if n not in got else "that of the other simulation" if got[n] == old.get(n) else "neither its own nor that of the other simulation")); break
            both = {x for y in (full, old) for n, x in y.items() if checkpoint(n)}
            for n, x in sorted(got.items()):
                if (checkpoint(n) or n in ("latest.mesh.h5", "latest.state.h5")) and x not in both: v.bad("checkpoint damaged", "%s: %s is %s" % (where, n, x if x in ("unreadable", "dangling") else "neither of this nor of the other simulation")); break
            for n in ("latest.mesh.h5", "latest.state.h5"):
                if n in old and n not in got: v.bad("latest gone", "%s: there is no %s any more" % (where, n))
    def rule_latest(self, v, full, got, con, seen, done, where):
        iters = {}
        for kind in ("mesh", "state"):
            name = "latest.%s.h5" % kind
            if name not in got["file"]:
                if seen[kind] >= 0: v.bad("latest %s gone" % kind, "%s: %s no longer exists (it pointed to iteration %d before)" % (where, name, seen[kind]))
                elif reported(con): v.bad("latest %s gone" % kind, "%s: a checkpoint was reported but there is no %s" % (where, name))
                continue
            target = got["link"].get(name)
            c = checkpoint(target or "")
            if c is None: v.bad("latest %s not a checkpoint" % kind, "%s: %s points to %s" % (where, name, target)); continue
            v.nontrivial = True
            iters[kind] = c[0]
            ident = got["file"][name]
            if ident in ("unreadable", "dangling") or ident != full["file"].get(target):
                v.bad("latest %s incomplete" % kind, "%s: %s -> %s is %s" % (where, name, target, ident if ident in ("unreadable", "dangling") else "not the data that was to be written")); continue
            if c[0] < seen[kind]: v.bad("latest %s went back" % kind, "%s: %s points to iteration %d, earlier to %d" % (where, name, c[0], seen[kind]))
            seen[kind] = max(seen[kind], c[0])
        if len(iters) == 2:
            # the pair must fit: the mesh that `latest` names must be the one the state was computed on
            m = "iter%010d.mesh.h5" % iters["state"]
            a, b = full["file"].get(m), got["file"]["latest.mesh.h5"]
            if a is not None and a != b and b not in ("unreadable", "dangling"): v.bad("latest mesh and state do not match" if iters["mesh"] <= iters["state"] else "latest mesh newer than latest state and different", "%s: the latest state is of iteration %d, but the latest mesh, of iteration %d, is a different one" % (where, iters["state"], iters["mesh"]))
        for n, ident in got["file"].items():
            if checkpoint(n) and ident == full["file"].get(n): done[n] = where
        for n in done:
            ident = got["file"].get(n, "missing")
            if ident != full["file"].get(n): v.bad("checkpoint damaged", "%s: %s is %s, but was complete when %s" % (where, n, ident if ident in ("missing", "unreadable", "dangling") else "different", done[n]))
    def listed(self, t, kind, text, e): return kind == e["kind"] and bool(t["case"].get("adapt"))
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if t.get("before"):
            yield {k: x for k, x in copy.deepcopy(t).items() if k != "before"}
            for o in casegen.simpler(t["before"]): yield dict(copy.deepcopy(t), before=o)
        if len(t["points"]) == 1 and t["points"][0][0] != "op" and not t.get("before"):
            ref = self.start(ctx, t, log=1)
            if ref.status == "ok":
                p = t["points"][0]
                yield dict(copy.deepcopy(t), points=[["op", pick(ctx.log(ref), p[0], p[1]), p[2]]])
        if len(t["points"]) == 1 and t["points"][0][2] != "crash-before": yield dict(copy.deepcopy(t), points=[t["points"][0][:2] + ["crash-before"]])

class C06(Case_check):
    id = "C06"; n_quick = 400; vis = False
    rule = "A trial is a random simulation during which system calls that modify its mesh and state files (and exported PolyMesh files) fail (once, for a while, or for one file from some moment on; no space, I/O error, permission, too many files, ...); non-trivial if a fault hit; distinct by system call history."
    def trial(self, i, r):
        return {"case": self.polymesh(self.options(r), r), "sched": io_schedule(r),
                "faults": [[r.choice(["latest", "meta", "meta", "data", "data", "data", "xmf", "modify"]), r.random(), r.choice(["error", "error", "error-window", "error-file"]), r.choice([ENOSPC, ENOSPC, EIO, EACCES, EDQUOT, EMFILE, EROFS])] for _ in range(r.choice([4, 6]))]}
    def polymesh(self, o, r):
        if o["n_dim"] == 3 and r.random() < .6: o["poly"] = 1
        return o
    def judge(self, ctx, t):
        v = Verdict(); v.key = []
        ref = self.start(ctx, t, log=1)
        if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        wd = self.wd(t)
        full = self.inspect(ctx, ref.dir, wd)
        log = ctx.log(ref)
        order = sorted(checkpoint(n)[0] for n in full["file"] if (checkpoint(n) or (0, ""))[1] == "state")
        data = lambda o: o[4].endswith((".h5", ".xmf")) or "polyMesh" in o[4]
        for f in t["faults"]:
            if f[0] == "op": op = f[1]; spec = "%d:%d:%d%s" % (FAULT[f[2]], op, f[3], ":%d" % f[4] if len(f) > 4 else "")
            else: op, spec = error_fault(log, f[0], f[1], f[2], f[3], data)
            r = self.start(ctx, t, faults=spec)
            if r.status == "timeout": v.inconclusive += 1; continue
            v.key.append(r.h["io_hash"] if r.h else r.how)
            if not r.h or not any(r.h["injected"].values()): continue
            v.nontrivial = True
            where = "%s %s at operation %d (%s)" % (f[2], ERRNO[f[3]], op, " ".join(str(x) for x in log[op][1:]))
            v.notes["ended with " + r.status] += 1
            if r.status not in ("ok", "exception", "terminate"): v.bad("abnormal end", "%s: the program ended with %s: %s" % (where, r.status, r.h["detail"][:300])); continue
            got = self.inspect(ctx, r.dir, wd); con = ctx.console(r)
            if r.status == "ok":
                for n, ident in full["file"].items():
                    if (checkpoint(n) or n.startswith("latest")) and got["file"].get(n, "missing") != ident: v.bad("success reported, but a file is wrong", "%s: the program reported success, but %s is %s (%s)" % (where, n, got["file"].get(n, "missing"), got["why"].get(n, ""))); break
                for n in ("points", "faces", "owner", "neighbour", "boundary") if t["case"].get("poly") else ():
                    a, b = (self.read(os.path.join(x, wd, "polyMesh", n)) for x in (ref.dir, r.dir))
                    if a != b: v.bad("success reported, but a file is wrong", "%s: the program reported success, but polyMesh/%s is %s" % (where, n, "missing" if b is None else "%d bytes instead of %d" % (len(b), len(a or b"")))); break
            for k in range(reported(con)):
                for kind in ("mesh", "state"):
                    n = "iter%010d.%s.h5" % (self.reported_iteration(t, k), kind)
                    if n in full["file"] and got["file"].get(n, "missing") != full["file"][n]:
                        v.bad("checkpoint reported as done, but incomplete", "%s: `writing mesh/state data...done` was printed %d times, but %s is %s (%s)" % (where, reported(con), n, got["file"].get(n, "missing"), got["why"].get(n, "")))
        return v
    def reported_iteration(self, t, k): # iterations at which write_iter writes: multiples of write_freq reached by 1, p, 2p, ...
        o = dict(casegen.DEFAULTS, **t["case"]); p = o["print_freq"]; w = p*o["write_every"]
        return C06.nth(p, w, k)
    @staticmethod
    def read(p):
        try: return open(p, "rb").read()
        except OSError: return None
    @staticmethod
    def nth(p, w, k):
        its = [1] + [p*j for j in range(1 if p > 1 else 2, 40)]
        its = [i for i in its if i%w == 0]
        return its[k] if k < len(its) else -1
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if len(t["faults"]) == 1 and t["faults"][0][0] != "op":
            f = t["faults"][0]
            ref = self.start(ctx, t, log=1)
            if ref.status == "ok":
                op, spec = error_fault(ctx.log(ref), f[0], f[1], f[2], f[3], lambda o: o[4].endswith((".h5", ".xmf")) or "polyMesh" in o[4])
                p = spec.split(":")
                yield dict(copy.deepcopy(t), faults=[["op", op, f[2], f[3]] + ([int(p[3])] if len(p) > 3 else [])])

class C07(Case_check):
    id = "C07"; n_quick = 400; vis = False; rtol = 1e-9
    rule = "A trial is a random simulation and a chain of one to three sessions that restart it (from the latest files after a kill at a random operation, or from the files of a chosen iteration, in the same or another directory); non-trivial if a restarted session was compared with the uninterrupted one after at least one iteration; distinct by the system call histories."
    def trial(self, i, r):
        o = self.options(r)
        o.update(ramp=0, n_iter=r.choice([2, 2, 3, 4]), write_every=1)
        if o["n_dim"] == 3: o["n_iter"] = 2
        ch = []
        for k in range(r.choice([1, 1, 2, 3])):
            ch.append({"kill": [r.choice(["any", "meta", "latest", "data", "modify"]), .25 + .75*r.random(), r.choice(["crash-before", "crash-after", "crash-torn"])] if r.random() < .6 else None, "from": r.choice(["latest", "latest", "iteration"]), "pick": r.random(), "same": r.random() < .7})
        return {"case": o, "sched": io_schedule(r), "chain": ch}
    def judge(self, ctx, t):
        v = Verdict(); v.key = []
        o = dict(casegen.DEFAULTS, **t["case"]); p = o["print_freq"]; n_ref = o["n_iter"] + (1 if o["n_dim"] == 3 else 3); N = n_ref*p
        ref = self.start(ctx, t, ctx.dir(casegen.files(o, n_iter=n_ref)))
        if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        v.key.append(ref.h["io_hash"])
        wd = self.wd(t); refdir = os.path.join(ref.dir, wd)
        pairs = {}
        def ref_pair(i):
            if i not in pairs:
                f = "iter%010d.%s.h5"
                pairs[i] = ctx.run(dict(scen="pair", mesh=f%(i, "mesh"), state=f%(i, "state")), refdir)
            return pairs[i]
        if p > 1 and not self.has(refdir, N): v.inconclusive += 1; return v
        # the first session
        s = 0; d = None; cur = None; offset = 0; prev = None; log = None; before = None; shared = set()
        for k, c in enumerate(t["chain"]):
            # leave the previous session, possibly by a kill
            spec = {}
            if k == 0:
                d = ctx.dir(self.files(t)); cur = wd
                if c["kill"]:
                    full = self.start(ctx, t, log=1)
                    if full.status != "ok": v.inconclusive += 1; break
                    log = ctx.log(full)
                    spec["faults"] = "%d:%d" % (FAULT[c["kill"][2]], pick(log, c["kill"][0], c["kill"][1]))
                prev = self.start(ctx, t, d, **spec)
                if prev.status == "timeout": v.inconclusive += 1; return v
            src = self.source(os.path.join(d, cur), c, cur in shared)
            if src is None: v.notes["no checkpoint to restart from"] += 1; break
            base, it = src
            # in a directory used by several sessions, the latest state may still be that of an earlier one
            s = (old_offset if before is not None and self.latest_id(os.path.join(d, cur)) == before else offset) + it
            if o["adapt"] and s <= p: v.notes["restart before the adaptation, not judged"] += 1; break
            left = N - s
            if left <= 0: v.notes["nothing left to do"] += 1; left = 0
            n_it = max(1, min(left//p, 3))
            new = cur if c["same"] else "next%d" % k
            before = self.latest_id(os.path.join(d, cur)) if c["same"] else None
            if c["same"]: shared.add(cur)
            old_offset = s - (it if before is not None else 0)
            ro = dict(o, adapt="", init="")
            inp = None if c["same"] and base == "latest" else os.path.join(cur, base)
            ctx.put(d, {"run.hil": casegen.script(ro, restart=True, wd=new, input_data=inp, n_iter=n_it)})
            nxt = t["chain"][k + 1] if k + 1 < len(t["chain"]) else None
            # the next session: if a further one follows, it may be killed; run it to the end first in a copy to know its operations
            if nxt and nxt["kill"]:
                import shutil
                d2 = ctx.dir(); shutil.rmtree(d2); shutil.copytree(d, d2, symlinks=True); os.chmod(d2, 0o777); self.open_up(d2)
                full = self.start(ctx, t, d2, log=1)
                if full.status != "ok": self.compare(ctx, v, full, d2, new, s, n_it, p, N, ref_pair, refdir, base, t); break
                r = self.start(ctx, t, d, faults="%d:%d" % (FAULT[nxt["kill"][2]], pick(ctx.log(full), nxt["kill"][0], nxt["kill"][1])))
                if r.status == "timeout": v.inconclusive += 1; break
                self.compare(ctx, v, full, d2, new, s, n_it, p, N, ref_pair, refdir, base, t)
            else:
                r = self.start(ctx, t, d)
                if not self.compare(ctx, v, r, d, new, s, n_it, p, N, ref_pair, refdir, base, t): break
            v.key.append(r.h["io_hash"] if r.h else r.how)
            offset = s; cur = new
            if v.violations: break
        return v
    @staticmethod
    def open_up(d):
        for q, ds, fs in os.walk(d):
            os.chmod(q, 0o777)
    @staticmethod
    def has(d, i): return os.path.exists("%s/iter%010d.state.h5" % (d, i))
    @staticmethod
    def latest_id(d):
        try: st = os.stat(d + "/latest.state.h5"); return st.st_ino, st.st_mtime_ns
        except OSError: return None
    def source(self, d, c, shared):
        """(file name, iteration) of what to restart from"""
        its = sorted(checkpoint(n)[0] for n in (os.listdir(d) if os.path.isdir(d) else []) if (checkpoint(n) or (0, ""))[1] == "state" and os.path.exists(os.path.join(d, n.replace("state", "mesh"))))
        if not its: return None
        if c["from"] == "latest" or shared: # (with several sessions in one directory, only `latest` says which files belong together)
            try: m = checkpoint(os.readlink(d + "/latest.state.h5"))
            except OSError: return None
            if not os.path.exists(d + "/latest.mesh.h5"): return None
            return "latest", m[0]
        it = its[min(len(its) - 1, int(c["pick"]*len(its)))]
        return "iter%010d" % it, it
    def compare(self, ctx, v, r, d, wd, s, n_it, p, N, ref_pair, refdir, base, t):
        where = "session restarted from total iteration %d (%s)" % (s, base)
        if r.status == "timeout": v.inconclusive += 1; return False
        if r.status != "ok":
            if s + n_it*p <= N: v.bad("restart fails", "%s ends with %s: %s" % (where, r.status, (r.h or {}).get("detail", "")[:400]))
            return False
        for j in range(1, n_it*p + 1):
            if s + j > N or not self.has(refdir, s + j) or not self.has(os.path.join(d, wd), j): continue
            f = "iter%010d.%s.h5"
            a = ctx.run(dict(scen="pair", mesh=f%(j, "mesh"), state=f%(j, "state")), os.path.join(d, wd))
            b = ref_pair(s + j)
            c = ctx.pool.compare(b.out, a.out, self.rtol)
            v.nontrivial = True
            v.notes["states compared"] += 1
            if c.get("equal") is not True:
                v.bad("restarted simulation differs", "%s: after %d more iterations: %s" % (where, j, "; ".join(c.get("diffs", [str(c)]))[:600])); break
        return True
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if len(t["chain"]) > 1: yield dict(copy.deepcopy(t), chain=t["chain"][:-1]); yield dict(copy.deepcopy(t), chain=t["chain"][1:])
        for k, c in enumerate(t["chain"]):
            if c["kill"]:
                n = copy.deepcopy(t); n["chain"][k]["kill"] = None; yield n
            if not c["same"]:
                n = copy.deepcopy(t); n["chain"][k]["same"] = True; yield n

class C09(Case_check):
    id = "C09"; n_quick = 500; vis = False
    rule = "A trial is a random simulation that is started or continued with damaged input: mesh, state and geometry files that are missing, empty, truncated, of another simulation, overwritten in part, or with single values damaged; non-trivial if the input differed from the original; distinct by system call history."
    assumptions = Case_check.assumptions[1:] + ["damage to the internal structure of an HDF5 file, other than truncation, is the business of the HDF5 library and is not simulated; damaged values inside it are", "damaged values that yield another valid input cannot be recognised: they may be accepted, but must not make the program crash or hang"]
    SETS = ["vertices/position", "elements/vertices", "nominal_position", "refinement_level", "is_deformed", "conformal", "refined", "boundary", "element_indices", "node_adjustments", "children", "tree/origin"]
    def trial(self, i, r):
        o = self.options(r)
        o.update(adapt="", n_iter=1, write_every=1)
        dm = []
        for _ in range(5):
            k = r.choice(["truncate", "truncate", "missing", "empty", "text", "directory", "other-mesh", "other-state", "other-state", "value", "value", "value", "value", "remove", "geom-truncate", "geom-bytes", "geom-empty", "geom-missing", "script-truncate"])
            dm.append([k, r.choice(["mesh", "mesh", "state"]), r.random(), r.choice(self.SETS), r.choice(["-1", "-1", "count", "next", "other", "other", "2147483647", "-2147483648", "7"]), r.getrandbits(30)])
        other = dict(o)
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(["row", "lev", "lev", "n_dim", "refine", "geom_seed", "splits"])
            other[k] = {"row": {2: 3, 3: 2, 4: 2}[o["row"]], "lev": o["lev"] + 1 if o["lev"] < 3 else 2, "n_dim": 5 - o["n_dim"] if o["n_dim"] > 1 and o["geom"] == "none" else o["n_dim"], "refine": "" if o.get("refine") else "near", "geom_seed": o.get("geom_seed", 0) + 1, "splits": 0 if o.get("splits") else int(o["geom"] != "none")}[k]
        return {"case": o, "sched": io_schedule(r), "damage": dm, "other": other}
    def judge(self, ctx, t):
        import shutil
        v = Verdict(); v.key = []
        ref = self.start(ctx, t)
        if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        wd = self.wd(t)
        names = {}
        for k in ("mesh", "state"):
            try: names[k] = os.readlink(os.path.join(ref.dir, wd, "latest.%s.h5" % k))
            except OSError: v.inconclusive += 1; return v
        oth = None
        for k, which, u, st, val, sd in t["damage"]:
            d = ctx.dir(); shutil.rmtree(d); shutil.copytree(ref.dir, d, symlinks=True)
            r = random.Random(sd)
            mesh_file = os.path.join(d, wd, names[which]); restart = True; must_fail = False
            what = k
            geoms = sorted(casegen.geometry(dict(casegen.DEFAULTS, **t["case"])))
            if k.startswith(("geom", "script")):
                restart = False
                if k != "script-truncate" and not geoms: continue
                g = os.path.join(d, "run.hil" if k == "script-truncate" else r.choice(geoms))
                data = open(g, "rb").read()
                if k == "geom-missing": os.remove(g); must_fail = True
                elif k == "geom-empty": open(g, "wb").close()
                elif k.endswith("truncate"):
                    data = data[:int(u*len(data))]; open(g, "wb").write(data); what = "%s to %d bytes" % (k, len(data))
                elif k == "geom-bytes":
                    b = bytearray(data)
                    for _ in range(r.choice([1, 1, 3, 10])):
                        p = r.randrange(len(b)); c = r.choice([b"nan", b"x", b",", b"\n", b"\x00", b"1e999", b" ", b"-", b"1e-320", b"\xff", b"\r"])
                        b[p:p + r.choice([0, 1, len(c)])] = c
                    open(g, "wb").write(bytes(b))
                what += " (%s)" % os.path.basename(g)
                if k == "script-truncate": shutil.rmtree(os.path.join(d, wd), ignore_errors=True)
            else:
                what += " (%s file)" % which
                if k == "truncate":
                    n = os.path.getsize(mesh_file); m = r.choice([int(u*n), n - 1 - int(u*64), int(u*100), 2048]); m = max(0, min(n - 1, m)); what += " to %d of %d bytes" % (m, n)
                    with open(mesh_file, "r+b") as f: f.truncate(m)
                    must_fail = True
                elif k == "missing": os.remove(mesh_file); must_fail = True
                elif k == "empty": open(mesh_file, "wb").close(); must_fail = True
                elif k == "text": open(mesh_file, "w").write("mesh\n"*100); must_fail = True
                elif k == "directory": os.remove(mesh_file); os.mkdir(mesh_file); must_fail = True
                elif k in ("other-mesh", "other-state"):
                    if oth is None:
                        oth = ctx.run(self.base(t), ctx.dir(casegen.files(t["other"])))
                    if oth.status != "ok": continue
                    q = k[6:]; a = os.path.join(oth.dir, wd, "latest.%s.h5" % q)
                    if not os.path.exists(a): continue
                    shutil.copyfile(a, os.path.join(d, wd, names[q]))
                    x = self.counts(ctx, os.path.join(d, wd)); must_fail = x is not None and not x
                    what = "%s file of another simulation" % q
                elif k in ("value", "remove"):
                    self.open_up(d)
                    c = ctx.run(dict(scen="corrupt", file=mesh_file, set="state" if which == "state" else st, at=u, value=val, remove=int(k == "remove")), d)
                    x = sections(c.out).get("done", "nothing")
                    if x in ("nothing", "no data set", "no file"): continue
                    what = x; must_fail = k == "remove"
            if restart: ctx.put(d, {"run.hil": casegen.script(dict(t["case"], init=""), restart=True, n_iter=1)})
            self.open_up(d); os.chmod(d, 0o777)
            a = ctx.run(dict(self.base(t), ticks=self.limit), d)
            if a.status == "timeout" or (a.status == "hang" and "mass in [" in ctx.console(a)): # damaged, but formally valid, values can make the flow diverge
                v.inconclusive += 1; continue
            v.nontrivial = True; v.key.append(a.h["io_hash"] if a.h else a.how)
            v.notes["%s: %s" % (k, a.status)] += 1
            where = "%s with %s" % ("restart" if restart else "start", what)
            if a.status not in ("ok", "exception", "terminate"):
                v.bad("abnormal end", "%s: the program ends with %s: %s" % (where, a.status, (a.h or {}).get("detail", "")[:300])); continue
            if must_fail and a.status == "ok": v.bad("damaged input accepted", "%s: the program runs to the end as if nothing were wrong" % where)
        return v
    limit = 4000000000
    def counts(self, ctx, wd):
        """do mesh and state have the same number of elements, variables and nodes? None if unknown"""
        x = sections(ctx.run(dict(scen="shape", mesh=os.path.join(wd, "latest.mesh.h5"), state=os.path.join(wd, "latest.state.h5"))).out)
        return None if "match" not in x else bool(x["match"][0])
    @staticmethod
    def open_up(d):
        for q, ds, fs in os.walk(d):
            os.chmod(q, 0o777)
            for f in fs:
                if not os.path.islink(os.path.join(q, f)): os.chmod(os.path.join(q, f), 0o666)
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if len(t["damage"]) > 1:
            for x in t["damage"]: yield dict(copy.deepcopy(t), damage=[x])

class C12(Case_check):
    id = "C12"; n_quick = 400; vis = False
    rule = "A trial is a random simulation (started from its script, restarted from its files, or given runtime commands) during which opening or reading one of its input files fails, at once or after part of the data was transferred, or reads are shortened or interrupted; non-trivial if a fault hit a read of an input; distinct by system call history."
    assumptions = Case_check.assumptions + ["the files of the HIL standard library are not among the simulated files"]
    N_CMD = 40
    def trial(self, i, r):
        o = self.options(r)
        if o["geom"] == "none" and o["n_dim"] == 2 and r.random() < .7: o.update(geom=r.choice(["polygon", "circle", "wedge", "two"]), geom_seed=r.getrandbits(30), ext=r.choice([".csv", ".CSV"]))
        o.update(adapt="", n_iter=1 if o["n_dim"] == 3 else r.choice([1, 2]), write_every=1)
        fl = [[r.choice(["open-read", "read", "read", "read"]), r.random(), r.choice(["error", "error", "partial", "partial", "short-transfer", "interrupt"]), r.choice([EIO, EIO, EACCES, EMFILE])] for _ in range(r.choice([3, 6]))]
        mode = r.choice(["start", "restart", "restart", "command"])
        # checkpoint files are read in many pieces
        if mode == "restart": k = 24; a = r.random(); fl += [["h5", (a + i/k + r.random()/(2*k))%1, r.choice(["error", "error", "error", "partial"]), EIO] for i in range(k)]
        return {"case": o, "sched": io_schedule(r), "mode": mode, "at": r.random(), "faults": fl}
    def judge(self, ctx, t):
        import shutil
        v = Verdict(); v.key = []
        wd = self.wd(t); mode = t["mode"]; extra = {}
        ref = self.start(ctx, t, log=1, **({"user": "x", "user_cmds": "x"} if mode == "command" else {}))
        if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        first = ref.dir
        def fresh():
            if mode != "restart": return ctx.dir(self.files(t))
            d = ctx.dir(); shutil.rmtree(d); shutil.copytree(first, d, symlinks=True); C09.open_up(d); os.chmod(d, 0o777)
            ctx.put(d, {"run.hil": casegen.script(dict(t["case"], init=""), restart=True, n_iter=1)})
            return d
        def run(faults, **kw):
            d = fresh(); f = list(faults)
            if mode == "command":
                f.insert(0, "%d:%d:0" % (FAULT["user-command"], cmd_op))
                kw.update(user=os.path.join(d, wd, "runtime_cmd.hil"), user_cmds=cf)
            if f: kw["faults"] = ",".join(f)
            return ctx.run(dict(self.base(t), **kw), d)
        marks = ["@@%d@@" % k for k in range(self.N_CMD)]
        if mode == "command":
            ops = [o for o in ctx.log(ref) if o[1] == "shell" and "runtime_cmd" in o[4]]
            if len(ops) < 2: v.inconclusive += 1; return v
            cmd_op = ops[1 + int(t["at"]*(len(ops) - 1))][0] if len(ops) > 1 else ops[0][0]
            cf = ctx.dir({"cmds": "\\n".join("println {%s}" % m for m in marks) + "\n"}) + "/cmds"
        if mode != "start":
            ref = run([], log=1)
            if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        full = self.inspect(ctx, ref.dir, wd)
        want = [m for m in marks if m in ctx.console(ref)]
        if mode == "command" and len(want) != len(marks): v.inconclusive += 1; v.notes["commands not executed in the reference"] += 1; return v
        names = {"start": ("run.hil", ".csv", ".CSV", ".stl", ".STL"), "restart": (".h5", "run.hil", ".csv", ".CSV", ".stl", ".STL"), "command": ("runtime_cmd.hil.run",)}[mode]
        inputs = [o for o in ctx.log(ref) if o[1] in ("open-read", "read") and o[4].endswith(names)]
        for f in t["faults"]:
            if f[0] == "op": op = f[1]
            else:
                # all inputs get the same share of the faults, however long they are
                paths = sorted({o[4] for o in inputs if o[1] == f[0]})
                if f[0] == "h5":
                    c = [o for o in inputs if o[1] == "read" and o[4].endswith(".h5")]
                    if c: op = c[int(f[1]*len(c))][0]
                    else: continue
                else:
                    if not paths: continue
                    x = f[1]*len(paths); c = [o for o in inputs if o[1] == f[0] and o[4] == paths[int(x)]]
                    op = c[int((x - int(x))*len(c))][0]
            kind = f[2]
            fs = ["%d:%d:%d" % (FAULT["short-transfer"], op, 0), "%d:%d:%d" % (FAULT["error"], op + 1, f[3])] if kind == "partial" else ["%d:%d:%d" % (FAULT[kind], op, f[3])]
            r = run(fs)
            if r.status == "timeout": v.inconclusive += 1; continue
            v.key.append(r.h["io_hash"] if r.h else r.how)
            if not r.h or not any(r.h["injected"].values()): continue
            v.nontrivial = True
            rec = " ".join(str(x) for x in [o for o in ctx.log(ref) if o[0] == op][0][1:])
            where = "%s with %s %s at operation %d (%s)" % (mode, kind, ERRNO[f[3]], op, rec)
            v.notes["%s, %s: %s" % (mode, kind, r.status)] += 1
            if r.status not in ("ok", "exception", "terminate"): v.bad("abnormal end", "%s: the program ended with %s: %s" % (where, r.status, r.h["detail"][:300])); continue
            if kind in ("short-transfer", "interrupt") and r.status != "ok": v.bad("ordinary short read not tolerated", "%s: the program ended with %s: %s" % (where, r.status, r.h["detail"][:300])); continue
            if r.status != "ok": continue
            got = self.inspect(ctx, r.dir, wd); con = ctx.console(r)
            for n, ident in full["file"].items():
                if (checkpoint(n) or n.startswith("latest")) and got["file"].get(n, "missing") != ident:
                    v.bad("unread part of an STL file ignored" if mode != "command" and kind in ("error", "partial") and rec.startswith("read ") and rec.endswith(".stl") else "unread input changed the result", "%s: the program reports success, but %s is not the same as without the error" % (where, n)); break
            if mode == "command":
                have = [m for m in marks if m in con]
                if have != want and "exception" not in con.lower() and "failed" not in con: v.bad("runtime commands lost without notice", "%s: only %d of %d runtime commands were executed, and no error was reported" % (where, len(have), len(want)))
        return v
    def listed(self, t, kind, text, e): return kind == e["kind"] and t["case"]["geom"] == "stl"
    def shrink(self, t, ctx):
        for o in casegen.simpler(t["case"]): yield dict(copy.deepcopy(t), case=o)
        if t["sched"].get("threads", 1) != 1: yield dict(copy.deepcopy(t), sched={"threads": 1, "ioseed": t["sched"].get("ioseed", 0)})
        if len(t["faults"]) > 1:
            for x in t["faults"]: yield dict(copy.deepcopy(t), faults=[x])
