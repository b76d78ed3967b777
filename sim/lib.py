"""Plans, the simulator server, results."""
import os, struct, subprocess, sys, hashlib

def hx(b):
    if isinstance(b, str): b = b.encode("utf-8", "surrogateescape")
    return b.hex()

CLASSES = ("gc mmap malloc open read write close stat seek fsync meta stdin stdout clock net loop crash tty dl sched").split()
EIO, SHORT, EINTR, ENOSPC, EACCES, ENOENT, EMFILE, ENOMEM, EAGAIN, EDQUOT, CUT, GROWN = range(1, 13)
RESET, LOSS, DUP, REFUSE, PART, LATE = range(30, 36)
KIND = {1: "EIO", 2: "short", 3: "EINTR", 4: "ENOSPC", 5: "EACCES", 6: "ENOENT", 7: "EMFILE", 8: "ENOMEM",
        9: "EAGAIN", 10: "EDQUOT", 11: "file cut before the read", 12: "file grown before the read", 104: "ENOSPC(full)", 102: "short(full)"}

class Plan:
    """One execution: everything that decides it."""
    def __init__(self, seed=1, mode="main"):
        self.seed = seed; self.mode = mode
        self.args = []; self.env = []; self.files = []; self.dirs = []
        self.stdin = b""; self.tty = 0
        self.gc = None; self.faults = []; self.ats = []; self.explicit = False
        self.knobs = {}; self.stackfill = 0; self.steps = 20000000
        self.texts = []
        self.variant = "O0"
    def copy(self):
        p = Plan(self.seed, self.mode)
        for k, v in self.__dict__.items():
            setattr(p, k, v.copy() if isinstance(v, (list, dict)) else v)
        return p
    def text(self):
        o = ["mode %s" % self.mode, "seed %d" % self.seed]
        for a in self.args: o.append("arg " + hx(a))
        for a in self.env: o.append("env " + hx(a))
        for d in self.dirs: o.append("dir " + hx(d))
        for f in self.files: o.append("file %s %o %s" % (hx(f[0]), f[2] if len(f) > 2 else 0o644, hx(f[1])))
        o.append("stdin " + hx(self.stdin))
        if self.tty: o.append("tty 1")
        if self.gc:
            g = self.gc
            o.append("gc %d %d" % (g[0], g[1]) + ("" if len(g) < 3 else " %d %d %d" % (g[2], g[3], g[4] if len(g) > 4 else 3)))
        for f in self.faults: o.append("fault %s %d %d" % f)
        if self.explicit: o.append("explicit")
        for a in self.ats: o.append("at %s %d %d" % tuple(a))
        for k, v in sorted(self.knobs.items()): o.append("knob %s %d" % (k, v))
        for k, v in self.texts: o.append("text %s %s" % (k, hx(v)))
        if self.stackfill: o.append("stackfill %d" % self.stackfill)
        o.append("steps %d" % self.steps)
        return "\n".join(o) + "\n"
    def to_json(self):
        d = dict(self.__dict__)
        d["args"] = [hx(a) for a in self.args]; d["env"] = [hx(a) for a in self.env]
        d["files"] = [[hx(f[0]), hx(f[1])] + list(f[2:]) for f in self.files]
        d["dirs"] = [hx(x) for x in self.dirs]; d["stdin"] = hx(self.stdin)
        d["texts"] = [[k, hx(v)] for k, v in self.texts]
        return d
    @staticmethod
    def from_json(d):
        p = Plan()
        p.__dict__.update(d)
        u = bytes.fromhex
        p.args = [u(a) for a in d["args"]]; p.env = [u(a) for a in d["env"]]
        p.files = [tuple([u(f[0]), u(f[1])] + f[2:]) for f in d["files"]]
        p.dirs = [u(x) for x in d["dirs"]]; p.stdin = u(d["stdin"])
        p.texts = [(k, u(v)) for k, v in d["texts"]]
        p.faults = [tuple(x) for x in d["faults"]]; p.ats = [tuple(x) for x in d["ats"]]
        p.gc = tuple(d["gc"]) if d["gc"] else None
        return p

class Result:
    def __init__(self, raw):
        self.files = {}; self.disk = {}; self.cnt = {}; self.fired = {}; self.events = []; self.stat = {}
        self.hash = None; self.dirs = set()
        for line in raw.decode("latin1").split("\n"):
            t = line.split(" ")
            k = t[0]
            if k == "end": self.end = t[1]; self.code = int(t[2])
            elif k in ("out", "err", "viol", "log"): setattr(self, k, bytes.fromhex(t[1]))
            elif k == "file": self.files[bytes.fromhex(t[1]).decode("latin1")] = bytes.fromhex(t[2])
            elif k == "dir": self.dirs.add(bytes.fromhex(t[1]).decode("latin1"))
            elif k == "disk": self.disk[bytes.fromhex(t[1]).decode("latin1")] = bytes.fromhex(t[2])
            elif k == "live": self.live = [int(x) for x in t[1:]]
            elif k == "stat":
                for i in range(1, len(t), 2): self.stat[t[i]] = int(t[i + 1])
            elif k == "cnt":
                for i in range(1, len(t), 3): self.cnt[t[i]] = int(t[i + 1]); self.fired[t[i]] = int(t[i + 2])
            elif k == "evs":
                for e in t[1:]:
                    c, n, kd = e.split(":"); self.events.append((c, int(n), int(kd)))
            elif k == "hash": self.hash = t[1]
        self.viol = self.viol.decode("latin1").strip()
        self.log = self.log.decode("latin1")
    @property
    def ending(self):
        return "%s %d" % (self.end, self.code)
    def bad(self):
        """An ending no run may have: a crash by signal, a simulator violation, a hang."""
        if self.end == "signal":
            import signal
            if self.code == signal.SIGPROF: return "hang: CPU limit"
            return "killed by signal %d" % self.code
        if self.viol: return self.viol.split("\n")[0]
        return None

class Sim:
    """A fork server: each run() forks one simulated process from it."""
    def __init__(self, bindir, variant="O0"):
        self.path = os.path.join(bindir, "potsim-" + variant)
        self.p = None
        self.runs = 0
    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env={"PATH": "/bin"}, cwd="/")
    def run(self, plan):
        if self.p is None: self.start()
        t = plan.text().encode()
        self.p.stdin.write(struct.pack("<I", len(t)) + t); self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4: raise RuntimeError("simulator died: " + self.path)
        n = struct.unpack("<I", h)[0]
        raw = self.p.stdout.read(n)
        self.runs += 1
        r = Result(raw)
        if r.end == "simerror": raise RuntimeError("simulator error %d\n%s" % (r.code, plan.text()[:2000]))
        return r
    def fresh(self, plan):
        """The same plan in a process of its own."""
        import tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False) as f: f.write(plan.text())
        try:
            o = subprocess.run([self.path, "--plan", f.name], stdout=subprocess.PIPE, env={"PATH": "/bin"}, cwd="/").stdout
        finally:
            os.unlink(f.name)
        return Result(o)
    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p = None
