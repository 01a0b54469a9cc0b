"""Properties of the programs in use: commands from the user, clocks, interrupted system calls, interactive sessions, visualisation."""
import copy, os, re
import casegen
from engine import Verdict, FAULT, OP, sections
from props_io import Case_check, pick, checkpoint, ERRNO, EIO, ENOSPC, EACCES, EMFILE, ENOMEM

def spec_of(f): return ":".join(str(x) for x in [FAULT[f[0]]] + list(f[1:]))

def cut_report(console):
    """the output of a simulation without what depends on the time it took"""
    res = []
    for l in console.splitlines():
        if l.startswith("performance summary"): break
        if l.startswith(("Commencing simulation", "wall clock time")): continue
        res.append(l)
    return res

class C10(Case_check):
    id = "C10"; n_quick = 500
    rule = "A trial is a random simulation to which a simulated user delivers lines of runtime commands at random system calls of its history (biased to those around the command file), some of them wrong, optionally with one failing shell command; non-trivial if a command was executed; distinct by system call history."
    ERR = ["undefined_thing", "x_@ = 1/0", "x_@ = 7%0", "x_@ = {abc}#7", "x_@ = 3; x_@ = {text}", "x_@ = 1 + {a} - 2", "x_@ = -{a}", "x_@ = read {no_such_file}", "working_dir = 7", "abs {a}", "x_@ = \"", "$no_macro", "print_freq = {a}", "(1 + )", "x_@ = 2 * undefined_too",
           "$(3)", "$iteration", "$(flow_time)", "#3", "!{a}", "sqrt {x}", "5 % 2.5", "{a} == 1", "x_@ = 3 4", "x_@ = 1..2..3", "shell 5", "read 7", "x_@ = 99999999999999999999", "{abc}#(-1)", "{abc}#{b}", "iteration = {a}", "flow_time = {now}", "x_@ = 1 < {a}", "x_@ = print_freq # 1", "\\"]
    def trial(self, i, r):
        o = self.options(r)
        o["vis_every"] = o["vis_init"] = o["vis_final"] = 0
        if o["n_dim"] == 3: o["n_iter"] = 2
        cmds = []
        for k in range(r.choice([1, 2, 3, 4, 5])):
            good = "println {@@%d}" % k
            if r.random() < .55: line = good
            else:
                e = [x.replace("@", str(k)) for x in r.sample(self.ERR, r.choice([1, 1, 2, 3]))]
                sep = [r.choice(["; ", "\\n", " ;", "\\n\\n"]) for _ in range(len(e))]
                line = "".join(a + b for a, b in zip(e, sep)) + good
                if r.random() < .3: line += r.choice(["; ", "\\n"]) + r.choice(e)
            cmds.append([line, r.choice(["shell", "shell", "shell", "any"]), r.random()])
        cmds.sort(key=lambda c: c[2])
        return {"case": o, "sched": io_sched(r), "cmds": cmds, "fault": r.random() if r.random() < .25 else 0}
    def judge(self, ctx, t):
        v = Verdict(); v.key = []
        wd = self.wd(t)
        ref = self.start(ctx, t, log=1, user="x", user_cmds="x")
        if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        log = ctx.log(ref)
        # deliveries in order of the operations
        d = ctx.dir(self.files(t))
        pts = []
        for k, (line, cl, u) in enumerate(t["cmds"]): pts.append(u if cl == "op" else pick(log, cl, u))
        order = sorted(range(len(pts)), key=lambda k: pts[k])
        cf = ctx.dir({"cmds": "".join(t["cmds"][k][0] + "\n" for k in order)}) + "/cmds"
        faults = [["user-command", pts[k], j] for j, k in enumerate(order)]
        if t["fault"]:
            sh = [o for o in log if o[1] == "shell"]; mine = [k for k, o in enumerate(sh) if "runtime_cmd" in o[4]] # the k-th shell command fails
            if mine: faults.append(["error-nth", mine[int(t["fault"]*len(mine))], EIO, OP["shell"]])
        r = ctx.run(dict(self.base(t), faults=",".join(spec_of(f) for f in faults), user=os.path.join(d, wd, "runtime_cmd.hil"), user_cmds=cf, log=1), d)
        if r.status == "timeout": v.inconclusive += 1; return v
        v.key.append(r.h["io_hash"] if r.h else r.how)
        if r.status != "ok": v.bad("simulation ended by runtime commands", "the simulation ends with %s although it succeeds without the commands: %s" % (r.status, (r.h or {}).get("detail", "")[:400])); return v
        con = ctx.console(r)
        try: left = open(os.path.join(d, wd, "runtime_cmd.hil"), errors="replace").read()
        except OSError: left = None; v.bad("no command file", "runtime_cmd.hil does not exist at the end")
        s = sections(r.out)
        expect = []
        out = open(os.path.join(d, wd, "output.txt"), errors="replace").read()
        for j, k in enumerate(order):
            if "delivered %d" % j not in s: continue # there was no directory yet
            off = s["delivered %d" % j][0]; at = pts[k]; line = t["cmds"][k][0]
            k = int(re.search(r"@@(\d+)", line)[1])
            n = len(re.findall(r"^@@%d$" % k, con, re.M)); still = left is not None and "println {@@%d}" % k in left
            lines = len(re.findall(r"^ +\d+, ", out[off:], re.M))
            what = "command %r, delivered at operation %d (%s)" % (line, at, " ".join(str(x) for x in log[at][1:]) if at < len(log) else "")
            if n > 1: v.bad("command executed twice", "%s: executed %d times" % (what, n))
            if n and still: v.bad("command executed twice", "%s: executed, but still in the file" % what)
            if not n and not still: v.bad("command lost", "%s: never executed, and no longer in the file" % what)
            if not n and still and lines >= (3 if t["fault"] else 2): v.bad("command ignored", "%s: not executed although %d iterations were reported afterwards" % (what, lines))
            if n: expect.append(k); v.nontrivial = True; v.notes["commands executed"] += 1
        got = [int(x) for x in re.findall(r"^@@(\d+)$", con, re.M)]
        if got != expect and sorted(got) == sorted(expect): v.bad("commands in the wrong order", "delivered in order %s, executed in order %s" % (expect, got))
        return v
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if t["fault"]: yield dict(copy.deepcopy(t), fault=0)
        for k in range(len(t["cmds"])):
            if len(t["cmds"]) > 1: yield dict(copy.deepcopy(t), cmds=t["cmds"][:k] + t["cmds"][k + 1:])

def io_sched(r):
    from props_io import io_schedule
    return io_schedule(r)

class C11(Case_check):
    id = "C11"; n_quick = 400
    rule = "A trial is a random simulation repeated with jumps of the system clock, stalls, partial reads and writes and interrupted calls at random system calls; non-trivial if a disturbance happened; distinct by system call history."
    def trial(self, i, r):
        o = self.options(r)
        lim = r.choice([0, 0, 1])
        alts = []
        for _ in range(r.choice([2, 3])):
            f = []
            for _ in range(r.choice([1, 2, 4])):
                k = r.choice(["clock-jump", "clock-jump", "stall", "short-transfer", "short-transfer", "interrupt", "interrupt"])
                a = {"clock-jump": r.choice([-10**9, -10**5, -100, 50, 10**4, 10**8]), "stall": r.choice([10, 150, 10**5])}.get(k, 0)
                f.append([k, r.choice(["any", "any", "data", "modify", "read"]), r.random(), a])
            if r.random() < .3: f += [["short-transfer", "all", 0, 0]] if r.random() < .5 else [["interrupt", "all", 0, 0]]
            alts.append(f)
        return {"case": o, "sched": io_sched(r), "limit": lim, "alts": alts}
    @staticmethod
    def read_output(d, wd):
        try: return open(os.path.join(d, wd, "output.txt"), "rb").read()
        except OSError: return b""
    def script(self, t):
        # the time limit is far beyond what a simulation takes without a stall
        extra = "done = $({%s}) " % "" if False else ""
        o = dict(t["case"])
        if t["limit"]:
            n = o.get("print_freq", 1)*o.get("n_iter", 3)
            o["extra"] = "done = {iteration >= %d | wall_time > 100.}" % n
        return o
    def judge(self, ctx, t):
        v = Verdict(); v.key = []
        o = self.script(t); fl = casegen.files(o)
        ref = self.start(ctx, t, ctx.dir(fl), log=1)
        if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        wd = self.wd(t); log = ctx.log(ref)
        full = self.inspect(ctx, ref.dir, wd); con = cut_report(ctx.console(ref))
        iters = [int(x) for x in re.findall(r"^ +(\d+), ", ctx.console(ref), re.M)]
        for f in t["alts"]:
            sp = []
            for k, cl, u, a in f:
                if cl == "all": sp += ["%d:%d:0" % (FAULT[k], x[0]) for x in log if x[1] in ("read", "write")][:3000]; continue
                op = u if cl == "op" else pick(log, "any", u, lambda x: x[1] == "read") if cl == "read" else pick(log, cl, u, (lambda x: x[1] in ("read", "write")) if k in ("short-transfer", "interrupt") else None)
                sp.append("%d:%d:%d" % (FAULT[k], op, a))
            r = self.start(ctx, t, ctx.dir(fl), faults=",".join(sp), log=1)
            if r.status == "timeout": v.inconclusive += 1; continue
            v.key.append(r.h["io_hash"] if r.h else r.how)
            if not r.h or not any(r.h["injected"].values()): continue
            v.nontrivial = True
            what = "with %s" % ", ".join("%s at %s" % (k, ("operation %d" % u) if cl == "op" else cl) for k, cl, u, a in f)
            if r.status != "ok": v.bad("abnormal end", "%s: the program ends with %s: %s" % (what, r.status, r.h["detail"][:300])); continue
            c = ctx.console(r)
            stalled = t["limit"] and any(k == "stall" and a > 100 for k, cl, u, a in f)
            if stalled: # the simulation may end early, but only because of the time limit
                m = re.search(r"^wall clock time = ([0-9.e+-]+)s", c, re.M)
                n = [int(x) for x in re.findall(r"^ +(\d+), ", c, re.M)]
                if n != iters[:len(n)]: v.bad("different output", "%s: other iterations reported: %s instead of %s" % (what, n, iters))
                v.notes["time limit exceeded by a stall"] += 1
                # the first stall that exceeds the limit: whatever was reported before it, at most one more report follows
                k_op = min(int(x.split(":")[1]) for x in sp if int(x.split(":")[0]) == FAULT["stall"] and int(x.split(":")[2]) > 100)
                out = self.read_output(r.dir, wd); b = sum(x[2] for x in ctx.log(r) if x[0] < k_op and x[1] == "write" and os.path.basename(x[4]) == "output.txt")
                early = len(re.findall(r"^ +(\d+), ", out[:b].decode(errors="replace"), re.M))
                if len(n) > early + 1: v.bad("time limit ignored", "%s: %d iteration reports were printed after the time limit had been exceeded" % (what, len(n) - early))
                if len(n) < len(iters) and m and float(m[1]) < 100: v.bad("wrong elapsed time", "%s: ended early at wall time %s" % (what, m[1]))
                continue
            got = self.inspect(ctx, r.dir, wd)
            for n in sorted(set(full["file"]) | set(got["file"])):
                if n == "output.txt": continue
                if full["file"].get(n) != got["file"].get(n): v.bad("different file", "%s: %s is %s instead of %s" % (what, n, got["file"].get(n, "missing"), full["file"].get(n, "missing"))); break
            c2 = cut_report(c)
            if c2 != con:
                k = next((k for k in range(min(len(con), len(c2))) if con[k] != c2[k]), min(len(con), len(c2)))
                v.bad("different output", "%s: line %d: %r instead of %r" % (what, k, c2[k:k + 1], con[k:k + 1]))
            m = re.search(r"^wall clock time = ([0-9.e+-]+)s", c, re.M)
            if m and not 0 <= float(m[1]) <= r.h["sim_time"]*1.001 + 1e-3: v.bad("wrong elapsed time", "%s: wall clock time %s s, but the whole run took %g s" % (what, m[1], r.h["sim_time"]))
        return v
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if t["limit"]: yield dict(copy.deepcopy(t), limit=0)
        if len(t["alts"]) > 1:
            for a in t["alts"]: yield dict(copy.deepcopy(t), alts=[a])
        elif len(t["alts"][0]) > 1:
            for k in range(len(t["alts"][0])): yield dict(copy.deepcopy(t), alts=[t["alts"][0][:k] + t["alts"][0][k + 1:]])

class C13(Case_check):
    id = "C13"; n_quick = 900; t_quick = 60.
    rule = "A trial is a random interactive session (the interpreter alone, or a session opened by a simulation's input script): statements, mistakes, and the end of input, a `quit` or an `exit` at a random point; non-trivial if a mistake was followed by further statements; distinct by input."
    assumptions = ["input with unbalanced braces or parentheses is not generated: the language has no way of telling where such a statement ends"]
    BAD = ["undefined_thing", "1/0", "7%0", "{abc}#7", "{abc}#(-1)", "s_ = {a}; s_ = 3", "1 + {a} - 2", "-{a}", "abs {a}", "read {no_such_file}", "\"", "$no_macro", "(1 + )", "1..2..3", "3 4 @", "!{a}", "#3", "sqrt {x}", "5 % 2.5", "{a} == 1", "x = y = z = q", "99999999999999999999", "exception = 5", "!", "{a}{b}#", "$(3)", "a b c", "1 +", "loop_ = ; undefined2", "-2147483647 - 1 - undefined3", "shell 5", "print_ 7", "version_major = {x}"]
    def trial(self, i, r):
        case = None
        if r.random() < .3:
            case = self.options(r); case.update(n_iter=2, vis_every=0, vis_init=0, vis_final=0, adapt="")
        vals = {}
        lines = []
        for k in range(r.choice([1, 3, 6, 12, 20])):
            u = r.random()
            if u < .4: lines.append(["bad", "; ".join(r.sample(self.BAD, r.choice([1, 1, 2, 3]))), None])
            elif u < .6:
                n = "v%d" % r.randrange(4); x = r.randrange(-50, 50); vals[n] = x
                lines.append(["set", "%s = %s" % (n, x if x >= 0 else "0 - %d" % -x), x])
            elif u < .9 or not vals:
                e, x = self.expr(r, vals, 3)
                lines.append(["expr", e, x])
            else: lines.append(["str", "{%s} + %d" % ("w%d" % k, k), "w%d%d" % (k, k)])
        end = r.choice(["eof", "eof", "eof-mid", "quit", "exit"])
        return {"case": case, "lines": lines, "end": end, "sched": {"threads": 1, "ioseed": r.getrandbits(30)}}
    def expr(self, r, vals, depth):
        if depth == 0 or r.random() < .2:
            if vals and r.random() < .5: n = r.choice(sorted(vals)); return n, vals[n]
            x = r.randrange(0, 20); return str(x), x
        op = r.choice("+-*+-*/%=<")
        a, x = self.expr(r, vals, depth - 1); b, y = self.expr(r, vals, depth - 1)
        a, b = "(%s)" % a, "(%s)" % b
        if op in "/%":
            if y == 0: op = "+"
            else:
                q = abs(x)//abs(y)*(1 if (x < 0) == (y < 0) else -1)
                return a + op + b, (q if op == "/" else x - q*y)
        if op == "=": return a + " == " + b, int(x == y)
        if op == "<": return a + " < " + b, int(x < y)
        return a + " " + op + " " + b, {"+": x + y, "-": x - y, "*": x*y}[op]
    def judge(self, ctx, t):
        v = Verdict()
        text = ""
        for k, (kind, line, val) in enumerate(t["lines"]): text += line + "\nprintln {@@%d}\n" % k
        if t["end"] == "eof-mid": text = text[:-1]
        else: text += {"quit": "$quit", "exit": "exit", "eof": ""}[t["end"]] + ("\nprintln {@@after}\n" if t["end"] != "eof" else "")
        fl = {"input": text}
        if t["case"]:
            fl.update(casegen.files(t["case"], body="println {@@begin}\n$repl\nprintln {@@end}\n$start\n$mesh\ninit_state\n$run"))
            d = ctx.dir(fl); r = ctx.run(dict(scen="case", arg="run.hil", ticks=20000000000, stdin=d + "/input", **t["sched"]), d)
        else:
            d = ctx.dir(fl); r = ctx.run(dict(scen="hil", ticks=300000000, stdin=d + "/input", **t["sched"]), d)
        if r.status == "timeout": v.inconclusive += 1; return v
        v.key = text
        con = ctx.console(r)
        if r.status != "ok" and t["case"] and "@@end\n" in con: # does the case itself end like this, whatever was typed in the session?
            d0 = ctx.dir(dict(fl, input="")); r0 = ctx.run(dict(scen="case", arg="run.hil", ticks=20000000000, stdin=d0 + "/input", **t["sched"]), d0)
            if r0.status == r.status: v.inconclusive += 1; v.notes["the case itself fails"] += 1; return v
        if r.status != "ok":
            v.bad("session ended abnormally" if not r.status.startswith(("hang", "tick")) else "session does not end", "the program ends with %s: %s; last output: %r" % (r.status, (r.h or {}).get("detail", "")[:300], con[-200:])); return v
        marks = re.findall(r"@@(\w+)$", con, re.M)
        want = [str(k) for k in range(len(t["lines"]))]
        if t["case"]: want = ["begin"] + want + (["end"] if t["end"] != "exit" else [])
        if marks != want: v.bad("statements not executed", "markers printed: %s, expected %s" % (marks, want))
        if t["case"] and t["end"] != "exit" and "simulation complete" not in con: v.bad("program does not continue", "the simulation did not continue after the interactive session")
        seen_bad = False
        pos = con.find("@@begin\n") + 8 if t["case"] else 0
        for k, (kind, line, val) in enumerate(t["lines"]):
            e = con.find("@@%d\n" % k, pos)
            if e < 0: break
            part = con[pos:e]; pos = e + len("@@%d\n" % k)
            if kind == "bad": seen_bad = True; continue
            if seen_bad: v.nontrivial = True
            got = part.replace("#+^$ ", "").split("\n")[0]
            if "exception" in part or got != str(val): v.bad("wrong result", "statement %r gives %r instead of %r" % (line, got[:100], str(val)))
        if t["end"] in ("quit", "exit") and "after" in marks: v.bad("session does not end", "statements after %s are executed" % t["end"])
        return v
    def shrink(self, t, ctx):
        n = len(t["lines"])
        for a, b in ((0, n//2), (n//2, n)):
            if n > 1: yield dict(copy.deepcopy(t), lines=t["lines"][a:b])
        for k in range(n):
            if n > 1: yield dict(copy.deepcopy(t), lines=t["lines"][:k] + t["lines"][k + 1:])
        if t["case"]:
            yield dict(copy.deepcopy(t), case=None)
            for o in casegen.simpler(t["case"]): yield dict(copy.deepcopy(t), case=o)
        if t["end"] != "eof": yield dict(copy.deepcopy(t), end="eof")

def nth_report(o, every, k):
    """iteration of the k-th report of something that happens every so many iterations"""
    p = o["print_freq"]
    its = [1] + [p*j for j in range(1 if p > 1 else 2, 60)]
    its = [i for i in its if every and i % every == 0]
    return its[k] if k < len(its) else None

class C14(Case_check):
    id = "C14"; n_quick = 400; vis = True
    rule = "A trial is a random simulation with visualisation, killed at random system calls (biased to those on visualisation files) or with failing system calls; non-trivial if a visualisation had been reported as done; distinct by system call history."
    def options(self, r):
        o = super().options(r)
        if o["n_dim"] == 1: o["n_dim"] = 2; o["geom"] = "none"; o["nsample"] = 3; o["surf"] = 0; o["field"] = 1
        o["vis_every"] = r.choice([1, 1, 2]); o["vis_init"] = r.choice([0, 1]); o["vis_final"] = r.choice([0, 1])
        if o["n_dim"] == 3: o["vis_every"] = 1; o["nsample"] = 2
        if o["geom"] == "none": o["surf"] = 0; o["field"] = 1
        if r.random() < .3 and o["n_dim"] == 3: o["extra"] = "vis_edges = true"
        return o
    def trial(self, i, r):
        return {"case": self.options(r), "sched": io_sched(r), "points": [[r.choice(["vis", "vis", "vis", "xmf", "any"]), r.random(), r.choice(["crash-before", "crash-before", "crash-after", "crash-torn", "error", "error-window"])] for _ in range(6)]}
    def judge(self, ctx, t):
        v = Verdict(); v.key = []
        o = dict(casegen.DEFAULTS, **t["case"])
        ref = self.start(ctx, t, log=1)
        if ref.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + ref.status] += 1; return v
        wd = self.wd(t); log = ctx.log(ref)
        full = self.inspect(ctx, ref.dir, wd)
        v.key.append(ref.h["io_hash"])
        isvis = lambda n: re.match(r"(surface|field|skew)(_edges)?_", n) is not None
        names = [n for n in full["file"] if isvis(n)]
        done = self.expected(o, ctx.console(ref))
        self.check(v, full, full, o, done, "at the end", False, names)
        self.copies(v, o, full, full, ctx.console(ref), "at the end", True)
        self.single(ctx, t, v, o, full, done, wd)
        for p in t["points"]:
            sel = (lambda x: isvis(os.path.basename(x[4]))) if p[0] in ("vis", "xmf") else None
            op = p[1] if p[0] == "op" else pick(log, "xmf" if p[0] == "xmf" else "any", p[1], sel)
            kind = p[2]
            sp = "%d:%d" % (FAULT[kind], op) + (":%d" % ENOSPC if kind.startswith("error") else "") + (":6" if kind == "error-window" else "")
            r = self.start(ctx, t, faults=sp)
            if r.status == "timeout": v.inconclusive += 1; continue
            v.key.append([r.h["io_hash"] if r.h else r.how, kind])
            if kind.startswith("crash") and r.status != "crashed": v.bad("crash point not reached", "machinery: run ended with %s" % r.status); continue
            where = "%s at operation %d (%s)" % (kind, op, " ".join(str(x) for x in log[op][1:]))
            if r.status not in ("ok", "exception", "terminate", "crashed"): v.bad("abnormal end", "%s: the program ended with %s: %s" % (where, r.status, r.h["detail"][:300])); continue
            got = self.inspect(ctx, r.dir, wd)
            done = self.expected(o, ctx.console(r))
            if kind.startswith("error"): # the visualisation that was disturbed is not judged, all others are
                m = re.search(r"_iter(\d+)\.", os.path.basename(log[op][4])); k = int(m[1]) if m else None
                done = {i for i in done if k is not None and i < k} if isvis(os.path.basename(log[op][4])) else set()
            else: self.latest(v, got, where); self.copies(v, o, got, full, ctx.console(r), where, False)
            self.check(v, full, got, o, done, where, "simulation complete" in ctx.console(r), names)
        return v
    def kinds(self, o):
        res = []
        if o["field"]:
            res.append("field")
            if o["skew"]: res.append("skew")
            if o["n_dim"] >= 2: res.append("field_edges")
        if o["surf"] and o["geom"] != "none":
            res.append("surface")
            if o["n_dim"] == 3: res.append("surface_edges")
        return res
    def single(self, ctx, t, v, o, full, done, wd):
        """a visualisation is that of its iteration, whatever else is visualised: compare with a simulation that ends there and is visualised only once"""
        done = sorted(i for i in done if i%o["print_freq"] == 0)
        if o["vis_final"]: done = [i for i in done if i != o["print_freq"]*o["n_iter"]] # that one is visualised twice
        if not done or o["adapt"] or o["ramp"] or t["sched"].get("threads", 1) != 1: return
        it = done[t.get("which", 0)%len(done)]
        r = self.start(ctx, dict(t, case=dict(t["case"], vis_every=0, vis_init=0, vis_final=1, n_iter=it//o["print_freq"])))
        if r.status != "ok": v.inconclusive += 1; return
        got = self.inspect(ctx, r.dir, wd)
        tag = "_iter%010d." % it
        for n, ident in sorted(got["file"].items()):
            if tag in n and full["file"].get(n, "missing") != ident: v.bad("visualisation of something else", "%s does not contain the data of iteration %d: it is %s than that of a simulation which is visualised only at this iteration" % (n, it, "missing, other" if n not in full["file"] else "different")); return
        v.notes["compared with a single visualisation"] += 1
    def copies(self, v, o, got, full, con, where, complete):
        """the `latest` copies"""
        its = ([0] if o["vis_init"] and (complete or "visualizing...done" in con) else []) + [i for i in (nth_report(o, o["print_freq"]*o["vis_every"], k) for k in range(con.count("visualizing...done"))) if i is not None]
        if complete and o["vis_final"] and "simulation complete" in con: its.append(o["print_freq"]*o["n_iter"])
        if len(set(its)) < len(its): return # the last iteration is visualised twice
        for k in self.kinds(o):
            if k == "skew": continue
            ident = {full["file"][n]: int(n[-14:-4]) for n in full["file"] if re.fullmatch(k + r"_iter\d{10}\.xmf", n)}
            for j in (1, 0):
                n = "%s_latest%d.xmf" % (k, j); want = its[-2 + j] if len(its) > 1 - j else None
                have = got["file"].get(n)
                if have is None:
                    if want is not None: v.bad("latest visualisation wrong", "%s: there is no %s" % (where, n))
                elif complete:
                    if want is not None and ident.get(have) != want: v.bad("latest visualisation wrong", "%s: %s is that of iteration %s, but should be that of %d" % (where, n, ident.get(have, "?"), want))
                elif have in ident: # a copy that was interrupted is not judged
                    if want is not None and ident[have] < want: v.bad("latest visualisation wrong", "%s: %s is that of iteration %d, but %d was reported as done" % (where, n, ident[have], want))
    def expected(self, o, console):
        """iterations whose visualisation was reported as done"""
        n = console.count("visualizing...done")
        return {nth_report(o, o["print_freq"]*o["vis_every"], k) for k in range(n)} - {None}
    def check(self, v, full, got, o, done, where, again, names):
        for it in sorted(done):
            tag = "_iter%010d." % it
            if again and it == max(done): continue # the last iteration is, or was, visualised again
            if done: v.nontrivial = True
            mine = [n for n in names if tag in n]
            for k in self.kinds(o):
                for e in ("xmf", "h5"):
                    n = k + tag + e
                    if n not in got["file"]: v.bad("visualisation missing", "%s: `visualizing...done` was printed for iteration %d, but there is no %s" % (where, it, n))
            for n in mine:
                ident = got["file"].get(n, "missing")
                if n.endswith(".xmf"):
                    if ident != full["file"][n]: v.bad("visualisation incomplete", "%s: %s of iteration %d, reported as done, is %s" % (where, n, it, ident)); break
                    if n in got["why"]: v.bad("visualisation refers to missing data", "%s: %s: %s" % (where, n, got["why"][n])); break
                    if not got["refs"].get(n) or not got["grids"].get(n, [0])[0]: v.bad("visualisation empty", "%s: %s contains no data" % (where, n)); break
                elif ident in ("unreadable", "missing", "dangling") or ident != full["file"][n]: v.bad("visualisation incomplete", "%s: %s of iteration %d, reported as done, is %s" % (where, n, it, ident)); break
            v.notes["visualisations checked"] += 1
    def latest(self, v, got, where):
        for k in ("field", "surface"):
            n = [k + "_latest%d.xmf" % i for i in (0, 1)]
            if n[0] in got["file"] and not any(got["file"].get(x, "unreadable") != "unreadable" for x in n): v.bad("no latest visualisation", "%s: neither %s nor %s is complete" % (where, n[0], n[1]))
    def inspect(self, ctx, d, wd):
        r = ctx.run(dict(scen="inspect", dirs=wd), d)
        res = {"file": {}, "link": {}, "refs": {}, "elements": {}, "why": {}, "grids": {}}
        for k, x in sections(r.out).items():
            a, _, b = k.partition(" ")
            if a in res: res[a][b] = x
        return res
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if len(t["points"]) == 1 and t["points"][0][2] in ("crash-after", "crash-torn"): yield dict(copy.deepcopy(t), points=[t["points"][0][:2] + ["crash-before"]])

class C08(Case_check):
    id = "C08"; n_quick = 400; vis = False
    rule = "A trial is a random simulation and a second session that continues it in the same directory; one of them suffers a fault (failing system calls, failing memory allocation, a kill); non-trivial if a fault hit after a checkpoint was complete; distinct by system call history."
    def trial(self, i, r):
        o = self.options(r)
        o.update(adapt="", ramp=0, write_every=1)
        return {"case": o, "sched": io_sched(r), "second": int(r.random() < .6), "n2": r.choice([1, 2]),
                "faults": [[r.choice(["latest", "latest", "meta", "meta", "data", "modify", "any"]), r.random(), r.choice(["error", "error", "error-window", "error-file", "crash-before", "crash-torn", "allocation-failure", "allocation-failure"]), r.choice([ENOSPC, EIO, EACCES, EMFILE])] for _ in range(4)]}
    def judge(self, ctx, t):
        v = Verdict(); v.key = []
        first = self.start(ctx, t, log=1)
        if first.status != "ok": v.inconclusive += 1; v.notes["reference ended with " + first.status] += 1; return v
        wd = self.wd(t)
        import shutil
        old = {}
        if t["second"]:
            base = first.dir
            old = self.inspect(ctx, base, wd)["file"]
            ctx.put(base, {"run.hil": casegen.script(dict(t["case"], init=""), restart=True, n_iter=t["n2"])})
            self.open_up(base)
            def fresh():
                d = ctx.dir(); shutil.rmtree(d); shutil.copytree(base, d, symlinks=True); os.chmod(d, 0o777); self.open_up(d); return d
            ref = self.start(ctx, t, fresh(), log=1)
            if ref.status != "ok": v.inconclusive += 1; v.notes["second session ended with " + ref.status] += 1; return v
        else:
            ref = first; fresh = lambda: ctx.dir(self.files(t))
        full = self.inspect(ctx, ref.dir, wd)["file"]
        log = ctx.log(ref)
        ok_states = {k: {x for n, x in list(full.items()) + list(old.items()) if (checkpoint(n) or (0, ""))[1] == k} for k in ("mesh", "state")}
        for f in t["faults"]:
            kind = f[2]
            if kind == "allocation-failure": op = f[1] if f[0] == "op" else int(f[1]*ref.h["allocs"])
            else: op = f[1] if f[0] == "op" else pick(log, f[0], f[1])
            sp = "%d:%d:%d" % (FAULT[kind], op, f[3]) + (":%d" % (2 + op % 20) if kind == "error-window" else "")
            r = self.start(ctx, t, fresh(), faults=sp)
            if r.status == "timeout": v.inconclusive += 1; continue
            v.key.append([r.h["io_hash"] if r.h else r.how, r.h["allocs"] if r.h else 0])
            if not r.h or not any(r.h["injected"].values()): continue
            v.notes["ended with " + r.status] += 1
            where = "%s at %s %d%s, session %d" % (kind + (" " + ERRNO[f[3]] if kind.startswith("error") else ""), "allocation" if kind == "allocation-failure" else "operation", op, "" if kind == "allocation-failure" else " (%s)" % " ".join(str(x) for x in log[op][1:]), 1 + t["second"])
            if kind == "allocation-failure" and r.status.startswith("signal"): pass # how the program ends when memory runs out is not promised, what becomes of the files is
            elif r.status not in ("ok", "exception", "terminate", "crashed"): v.bad("abnormal end", "%s: the program ended with %s: %s" % (where, r.status, r.h["detail"][:300])); continue
            got = self.inspect(ctx, r.dir, wd); con = ctx.console(r)
            n_rep = con.count("writing mesh/state data...done")
            if old or n_rep: v.nontrivial = True
            for k in ("mesh", "state"):
                n = "latest.%s.h5" % k
                ident = got["file"].get(n)
                if ident is None:
                    if old or n_rep: v.bad("latest %s gone" % k, "%s: there is no %s any more" % (where, n))
                elif ident not in ok_states[k]: v.bad("latest %s incomplete" % k, "%s: %s is %s" % (where, n, ident if ident in ("unreadable", "dangling") else "not a complete checkpoint"))
            # every checkpoint that was complete before is still complete (the old or the new one if the same name is written again)
            for n, ident in got["file"].items():
                c = checkpoint(n)
                if c and n in old and ident not in ok_states[c[1]]: v.bad("checkpoint damaged", "%s: %s, complete before this session, is %s" % (where, n, ident))
            for n in old:
                if checkpoint(n) and n not in got["file"]: v.bad("checkpoint damaged", "%s: %s, written by the session before, is gone" % (where, n))
            o = dict(casegen.DEFAULTS, **t["case"])
            for j in range(n_rep):
                it = nth_report(o, o["print_freq"], j)
                for k in ("mesh", "state"):
                    n = "iter%010d.%s.h5" % (it, k)
                    if n in full and got["file"].get(n) not in ok_states[k]: v.bad("checkpoint damaged", "%s: %s, reported as done, is %s" % (where, n, got["file"].get(n, "missing")))
        return v
    @staticmethod
    def open_up(d):
        for q, ds, fs in os.walk(d):
            os.chmod(q, 0o777)
            for f in fs:
                if not os.path.islink(os.path.join(q, f)): os.chmod(os.path.join(q, f), 0o666)
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if t["second"]: yield dict(copy.deepcopy(t), second=0)

def numbers(l): return re.findall(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)", l)

def same_line(a, b, rtol, atol):
    """equal up to rounding of the numbers"""
    if a == b: return True
    x, y = numbers(a), numbers(b)
    if len(x) != len(y) or re.sub(r"[-+.\d]|e(?=[-+\d])", "", a).split() != re.sub(r"[-+.\d]|e(?=[-+\d])", "", b).split(): return False
    for p, q in zip(x, y):
        if p == q: continue
        if re.fullmatch(r"[-+]?\d+", p) and re.fullmatch(r"[-+]?\d+", q): return False
        u, w = float(p), float(q)
        if not abs(u - w) <= rtol*max(abs(u), abs(w)) + atol: return False
    return True

class C03(Case_check):
    id = "C03"; n_quick = 400
    rule = "A trial is a random simulation run serially and under random schedules of several threads; non-trivial if at least one involuntary thread switch happened in a simulation that completed; distinct by outcome and hash of all scheduling decisions."
    assumptions = ["interleavings are sequentially consistent", "differences below 1e-8 of the largest entry (files) or 1e-5 (output, which has nine digits and contains residuals that may cancel) are rounding"]
    def options(self, r):
        o = casegen.random_case(r, small=True)
        if r.random() < .3 and o["n_dim"] == 2 and o["geom"] != "none" and not o.get("adapt"): o["adapt"] = r.choice(["refine", "split"])
        return o
    def trial(self, i, r):
        from props_sched import schedules
        alt = schedules(r, i)[-2:]
        return {"case": self.options(r), "sched": {"ioseed": r.getrandbits(30)}, "alt": alt}
    def judge(self, ctx, t):
        v = Verdict(); v.key = []
        ref = ctx.run(dict(self.base(t), threads=1), ctx.dir(self.files(t)))
        if ref.status != "ok": v.notes["reference ended with " + ref.status] += 1
        if ref.status in ("timeout", "hang"): v.inconclusive += 1; return v
        wd = self.wd(t); races = []
        v.key.append(ref.h["digest"] if ref.h else ref.how)
        full = self.inspect(ctx, ref.dir, wd); con = ctx.console(ref)
        vis = None
        self.copy_of_output(v, ctx, ref, wd, "serial execution")
        for sp in t["alt"]:
            sp = dict(sp)
            if sp.pop("meet", 0): sp["hot"] = races[:4000]
            a = ctx.run(dict(self.base(t), **sp), ctx.dir(self.files(t)))
            if a.status == "timeout": v.inconclusive += 1; continue
            if sp.get("conflicts"): races = ctx.conflicts(a)
            where = "%d threads" % sp["threads"]
            if a.h:
                v.key.append(a.h["order_hash"]); v.notes["threads held at a conflicting access"] += a.h["held"]
                if a.h["switches"] and ref.status == "ok": v.nontrivial = True
            if a.status != ref.status:
                if self.delicate(ctx, t, ref, full, con): v.inconclusive += 1; continue
                v.bad("ending " + a.status, "%s: the serial execution ends with %s, this schedule with %s: %s" % (where, ref.status, a.status, (a.h or {}).get("detail", "")[:300])); continue
            if ref.status != "ok": continue
            self.copy_of_output(v, ctx, a, wd, where)
            bad = self.compare(ctx, t, ref, a, full, con, 1e-8, 1e-5, 1e-7)
            if bad:
                if (bad[2] < 1e-3 or ": nan / " in bad[1]) and self.delicate(ctx, t, ref, full, con): v.notes["simulation sensitive to rounding, numbers not judged"] += 1; v.inconclusive += 1; continue
                v.bad(bad[0], "%s: %s" % (where, bad[1]))
        return v
    def copy_of_output(self, v, ctx, r, wd, where):
        if r.status != "ok": return
        try: o = open(os.path.join(r.dir, wd, "output.txt"), errors="replace").read()
        except OSError: o = None
        if o != ctx.console(r): v.bad("output.txt differs", "%s: output.txt is not a copy of the output" % where)
    def compare(self, ctx, t, ref, a, full, con, ftol, ctol, catol):
        """None or (kind, text, size of the difference)"""
        wd = self.wd(t)
        got = self.inspect(ctx, a.dir, wd)
        if sorted(got["file"]) != sorted(full["file"]): return "different files", "other files: %s" % sorted(set(got["file"]) ^ set(full["file"])), 9
        if got["link"] != full["link"]: return "different files", "links %s instead of %s" % (got["link"], full["link"]), 9
        for n in sorted(full["file"]):
            c = checkpoint(n)
            if not c: continue
            if (full["file"][n] == "unreadable") != (got["file"][n] == "unreadable"): return "different files", "%s is %s" % (n, got["file"][n]), 9
            if c[1] == "state":
                m = n.replace(".state.", ".mesh.")
                ms = m if m in full["file"] else "latest.mesh.h5"
                x = [ctx.run(dict(scen="pair", mesh=os.path.join(wd, ms), state=os.path.join(wd, n)), r.dir) for r in (ref, a)]
                d = ctx.pool.compare(x[0].out, x[1].out, ftol)
                if d.get("equal") is not True: return "different checkpoint", "%s: %s" % (n, "; ".join(d.get("diffs", [str(d)]))[:500]), d.get("worst", 9) if d.get("worst", 0) > ftol else 9
        if any(n.endswith(".xmf") for n in full["file"]):
            x = [ctx.run(dict(scen="visdata", dirs=wd), r.dir) for r in (ref, a)]
            d = ctx.pool.compare(x[0].out, x[1].out, ftol)
            if d.get("equal") is not True: return "different visualisation", "; ".join(d.get("diffs", [str(d)]))[:500], d.get("worst", 9) if d.get("worst", 0) > ftol else 9
        p, q = cut_report(con), cut_report(ctx.console(a))
        for k in range(max(len(p), len(q))):
            if k >= len(p) or k >= len(q) or not same_line(p[k], q[k], ctol, catol): return "different output", "line %d: %r instead of %r" % (k, q[k:k + 1], p[k:k + 1]), 1e-4 if k < len(p) and k < len(q) and same_line(p[k], q[k], 1e-2, 1e-4) else 9
        return None
    def delicate(self, ctx, t, ref, full, con):
        """does the serial simulation itself depend on rounding (order of summation) by more than the tolerance?"""
        for lay in (1, 2, 3, 4, 5):
            n = ctx.run(dict(self.base(t), threads=1, layout=lay), ctx.dir(self.files(t)))
            if n.status != ref.status: return True
            if ref.status == "ok" and self.compare(ctx, t, ref, n, full, con, 1e-10, 1e-7, 1e-9): return True
        return False
    def summary(self, t): return t
    def shrink(self, t, ctx):
        yield from super().shrink(t, ctx)
        if len(t["alt"]) > 1:
            for s in t["alt"]: yield dict(copy.deepcopy(t), alt=[s])
        else:
            s = t["alt"][0]
            for th in (2, 3):
                if s["threads"] > th: yield dict(copy.deepcopy(t), alt=[dict(s, threads=th)])
            for k, x in (("layout", 0), ("fill", 0xa5), ("psync", 0), ("race", 0), ("phot", 0), ("strat", 0)):
                if s.get(k, x) != x: yield dict(copy.deepcopy(t), alt=[dict(s, **{k: x})])
