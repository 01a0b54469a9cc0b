"""Runs simulated executions: a pool of zygote processes, each forking one pristine child per job."""
import json, os, queue, shutil, subprocess, tempfile, threading

class Result:
    def __init__(self, how, wall, head): self.how = how; self.wall = wall; self.h = head
    @property
    def status(self):
        if self.h: return self.h["status"]
        return self.how
    def ident(self, simulated=True):
        """everything a repetition of the same execution must reproduce"""
        h = self.h
        if not h: return (self.how,)
        return (h["status"], h["detail"], h["order_hash"], h["io_hash"], h["digest"], h["ticks"] if simulated else 0, h["ops"], tuple(h["violations"]))

class Zygote:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env={"PATH": "/usr/bin:/bin"}, start_new_session=True)
    def ask(self, line):
        self.p.stdin.write(line + "\n"); self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r: raise RuntimeError("simulator process died")
        return r.strip()
    def close(self):
        try: self.p.stdin.close(); self.p.wait(10)
        except Exception: self.p.kill()

class Pool:
    """`work` is a directory of fixed-length name; run directories are `work/NNNNNN`"""
    def __init__(self, exe, n=None):
        self.exe = exe
        self.n = n or os.cpu_count() or 4
        self.work = tempfile.mkdtemp(prefix="hexsim-", dir="/tmp")
        os.chmod(self.work, 0o755)
        self.free = queue.Queue()
        self.zy = [Zygote(exe) for _ in range(self.n)]
        for z in self.zy: self.free.put(z)
        self.lock = threading.Lock(); self.count = 0; self.runs = 0; self.wall = 0.
    def close(self):
        for z in self.zy: z.close()
        shutil.rmtree(self.work, ignore_errors=True)
    def new_dir(self):
        with self.lock: self.count += 1; n = self.count
        d = "%s/%06d" % (self.work, n)
        os.mkdir(d); os.chmod(d, 0o777)
        return d
    def run(self, spec, d=None, out=None):
        """spec: dict of job parameters. Returns (Result, directory, out path)"""
        if d is None: d = self.new_dir()
        if out is None:
            with self.lock: self.count += 1; n = self.count
            od = "%s/o%06d" % (self.work, n); os.mkdir(od); os.chmod(od, 0o777)
            out = od + "/out"
        line = " ".join("%s=%s" % (k, v) for k, v in dict(spec, id="j", dir=d, out=out).items())
        z = self.free.get()
        try:
            try: r = z.ask(line)
            except RuntimeError:
                z.close(); z = Zygote(self.exe); r = "done j died 0"
        finally: self.free.put(z)
        _, _, how, wall = r.split()
        head = None
        try:
            with open(out, "rb") as f: head = json.loads(f.readline())
        except (OSError, ValueError): head = None
        with self.lock: self.runs += 1; self.wall += float(wall)
        return Result(how, float(wall), head), d, out
    def compare(self, a, b, rtol):
        z = self.free.get()
        try: r = z.ask("cmp %s %s %g" % (a, b, rtol))
        finally: self.free.put(z)
        return json.loads(r)
    def drop(self, *paths):
        for p in paths:
            if p.startswith(self.work + "/"):
                q = os.path.dirname(p) if p.endswith("/out") else p
                shutil.rmtree(q, ignore_errors=True)
