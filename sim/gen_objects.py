"""Histories over classes, instances, methods and closures, and their reference model.
An op is a JSON list; any sub-list of a history is again a history: an op the model finds ill-typed prints nothing."""
NC, NO, NF = 4, 5, 5          # slots for classes, instances, closures
CN = "ABCD"
IV = ["i", "j", "s", "l", "o"]  # ivars by type: number, number, string, list, object
MN = ["ma", "mb", "mc", "md", "me", "mf"]
INTS = [0, 1, 2, 3, 5, 9, 17, 255, 1000, 65537, 1 << 33]
WORDS = ["", "a", "bc", "oz", "a word of some length", "y" * 33]

class Ill(Exception): pass
class Obj:
    def __init__(self, cls): self.cls = cls; self.iv = {}
class Cls:
    def __init__(self, parent, ctor, ivs): self.parent = parent; self.ctor = ctor; self.ivs = ivs; self.m = {}; self.meta = {}
    def chain(self):
        c = self
        while c: yield c; c = c.parent
    def find(self, n):
        for c in self.chain():
            if n in c.m: return c.m[n]
        return None
    def knows(self, n): return any(n in c.ivs for c in self.chain())
class Lst:
    def __init__(self, v): self.v = v
class Fun:
    def __init__(self, f): self.f = f

def show(v):
    if v is None: return "nil"
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return v
    if isinstance(v, Lst): return "(" + ", ".join(show(x) for x in v.v) + ")"
    raise Ill()
def num(v):
    if isinstance(v, bool) or not isinstance(v, int): raise Ill()
    if not -(1 << 60) < v < (1 << 60): raise Ill()
    return v
def string(v):
    if not isinstance(v, str) or len(v) > 2000: raise Ill()
    return v
def lst(v):
    if not isinstance(v, Lst): raise Ill()
    return v

def lit(v): return '"%s"' % v if isinstance(v, str) else "(" + ", ".join(map(lit, v)) + ")" if isinstance(v, list) else str(v)

# ---- method bodies: kind -> (source lines, model function) ----
BODY = ["geti", "gets", "getl", "seti", "sets", "addi", "adds", "pushl", "lenl", "other", "self", "rec", "lup", "mkc", "mko", "ino", "const", "sumij", "cond", "seto", "geto_i", "swap", "newl", "each", "chain"]

def gen(rng, n):
    KINDS = [("cls", 5), ("sub", 4), ("subd", 2), ("new", 9), ("meth", 14), ("call", 26), ("get", 6), ("set", 6), ("kind", 2), ("alias", 2), ("callm", 4), ("metam", 2), ("callmeta", 2), ("builtin", 3), ("callb", 3),
             ("fun", 9), ("callf", 12), ("pair", 3), ("pairs", 4), ("hof", 3), ("nest", 3), ("lists", 3), ("eachf", 3), ("recf", 2), ("many", 2), ("scope", 2), ("fromc", 3), ("deep", 1), ("rdeep", 1.5), ("optargs", 4), ("manycls", .4), ("tower", 1.5), ("newmany", 2)]
    w = [k[1] for k in KINDS]; names = [k[0] for k in KINDS]
    if rng.random() < .6:
        for i in range(len(w)):
            if rng.random() < .3 and names[i] not in ("cls", "new", "meth", "call", "fun", "callf"): w[i] = 0
    r = rng.randrange
    def val(): return rng.choice([rng.choice(INTS), rng.choice(WORDS)])
    def ctor(): return [[iv, rng.choice(["p", "c"])] for iv in rng.sample(IV, r(1, 6))]
    def body(): return [rng.choice(BODY), rng.choice(["i", "j"]), r(len(MN)), r(NC), rng.choice(INTS), rng.choice(WORDS)]
    ops = [["cls", 0, ctor()], ["new", 0, 0, rng.choice(INTS), rng.choice(WORDS)]]
    for m in range(r(1, 5)): ops.append(["meth", 0, r(len(MN))] + body())
    for _ in range(n):
        k = rng.choices(names, w)[0]; a = [k]
        if k == "cls": a += [r(NC), ctor()]
        elif k == "sub": a += [r(NC), r(NC), ctor()]
        elif k == "subd": a += [r(NC), r(NC)]
        elif k == "new": a += [r(NO), r(NC), rng.choice(INTS), rng.choice(WORDS)]
        elif k == "meth": a += [r(NC), r(len(MN))] + body()
        elif k == "call": a += [r(NO), r(len(MN)), rng.choice(INTS), rng.choice(WORDS), r(NO), r(4)]
        elif k == "get": a += [r(NO), rng.choice(IV)]
        elif k == "set": a += [r(NO), rng.choice(IV), rng.choice(INTS), rng.choice(WORDS), r(NO)]
        elif k == "kind": a += [r(NO), r(NC)]
        elif k == "alias": a += [r(NO), r(NO)]
        elif k == "callm": a += [r(NO), r(NO), r(len(MN)), rng.choice(INTS)]
        elif k == "metam": a += [r(NC), r(3), rng.choice(INTS)]
        elif k == "callmeta": a += [r(NC), r(3), rng.choice(INTS)]
        elif k == "builtin": a += [r(2), r(3), rng.choice(INTS), rng.choice(WORDS)]
        elif k == "callb": a += [r(2), r(3), rng.choice(INTS), rng.choice(WORDS)]
        elif k == "fun": a += [r(NF), r(6), val()]
        elif k == "callf": a += [r(NF), val()]
        elif k == "pair": a += [rng.choice(INTS)]
        elif k == "pairs": a += [rng.choice(INTS)]
        elif k == "hof": a += [r(NF), val(), r(2)]
        elif k == "nest": a += [rng.choice(INTS), rng.choice(INTS), rng.choice(INTS)]
        elif k == "lists": a += [[r(NF) for _ in range(r(1, 6))], r(6), val()]
        elif k == "eachf": a += [r(NF), [rng.choice(INTS) for _ in range(r(0, 6))], r(3)]
        elif k == "recf": a += [r(1, 20)]
        elif k == "many": a += [r(NF), r(2, 40), rng.choice(INTS)]
        elif k == "scope": a += [val(), val()]
        elif k == "fromc": a += [r(NF), r(NO), rng.choice(INTS), rng.choice(INTS)]
        elif k == "deep": a += [r(20, 120)]
        elif k == "rdeep": a += [rng.choice([50, 200, 400, 450, 700, 1300]) + r(100), r(4), rng.choice(INTS)]
        elif k == "manycls":
            w[names.index(k)] = 0  # once
            a += [rng.choice([3, 20, 60, 200, 460, 520, 600]), rng.choice(INTS), r(4)]
        elif k == "tower": a += [rng.choice([2, 4, 7, 9, 12, 18, 26, 40]), rng.getrandbits(40), r(40), rng.choice(INTS) % 1000]
        elif k == "optargs":
            t = r(2); m = [rng.choice("NSo-") for _ in range(r(1, 5) if rng.random() < .3 else r(1, 3))]; o = [rng.choice("NSo") if t == 0 else rng.choice([val(), 58, 124, 46]) for _ in range(r(1, 6) if rng.random() < .3 else r(1, 3))]
            if t: m = ["-"] * len(m)
            pick = lambda ty: rng.choice(INTS) if ty == "N" else rng.choice(WORDS) if ty == "S" else val()
            tys = m + (o if t == 0 else ["-"] * len(o))
            a += [r(5), t, m, o, [[pick(ty) for ty in tys[:r(len(m), len(tys) + 1)]] for _ in range(r(1, 7))], r(NC), r(NO)]
        elif k == "newmany": a += [r(NC), r(2, 30), rng.choice(INTS)]
        ops.append(a)
    return ops

class Model:
    def __init__(self):
        self.c = [None] * NC; self.o = [None] * NO; self.f = [None] * NF; self.pr = None
        self.bm = {}
        self.lines = []; self.out = []; self.n = 0; self.depth = 0; self.fuel = 0
    def emit(self, s): self.lines.append(s)
    def say(self, expr, v):
        t = show(v); self.n += 1
        self.lines.append("(%d, %s) say" % (self.n, expr)); self.out.append("(%d, %s)\n" % (self.n, t))
    def op(self, a):
        mark = (len(self.lines), len(self.out), self.n); snap = self.snapshot()
        self.fuel = 4000
        try: getattr(self, "do_" + a[0])(*a[1:])
        except (Ill, RecursionError):
            del self.lines[mark[0]:]; del self.out[mark[1]:]; self.n = mark[2]; self.restore(snap)
    # the model is rolled back when an op turns out ill-typed half way
    def snapshot(self):
        seen = {}
        def keep(x):
            if id(x) in seen: return
            if isinstance(x, Obj): seen[id(x)] = (x, x.cls, dict(x.iv)); [keep(v) for v in x.iv.values()]; keep(x.cls)
            elif isinstance(x, Cls): seen[id(x)] = (x, dict(x.m), dict(x.meta)); x.parent and keep(x.parent)
            elif isinstance(x, Lst): seen[id(x)] = (x, list(x.v)); [keep(v) for v in x.v]
            elif isinstance(x, Fun): seen[id(x)] = (x, dict(x.__dict__))
        for x in self.c + self.o + self.f: x is not None and keep(x)
        return (list(self.c), list(self.o), list(self.f), self.pr and (self.pr, dict(self.pr)), dict(self.bm), seen)
    def restore(self, s):
        self.c, self.o, self.f, pr, self.bm, seen = s
        self.pr = pr and pr[0]
        if pr: self.pr.clear(); self.pr.update(pr[1])
        for e in seen.values():
            x = e[0]
            if isinstance(x, Obj): x.cls, x.iv = e[1], e[2]
            elif isinstance(x, Cls): x.m, x.meta = e[1], e[2]
            elif isinstance(x, Lst): x.v = e[1]
            elif isinstance(x, Fun): x.__dict__.clear(); x.__dict__.update(e[1])
    def tick(self):
        self.fuel -= 1
        if self.fuel < 0: raise Ill()
    def rd(self, o, n):
        if not isinstance(o, Obj): raise Ill()
        return o.iv.get(n)
    def wr(self, o, n, v):
        if not isinstance(o, Obj): raise Ill()
        if o.cls.knows(n): o.iv[n] = v
    # ---- classes ----
    def ctorsrc(self, sets):
        ps = []; body = []
        for iv, how in sets:
            if how == "p":
                p = "p" + iv; ps.append(p); body.append("/%s = %s" % (iv, p))
            else: body.append("/%s = %s" % (iv, {"i": "11", "j": "12", "s": '"cs"', "l": "(1, 2)", "o": "nil"}[iv]))
        return "(%s):\n  %s." % (", ".join(ps), "\n  ".join(body)), [iv for iv, how in sets if how == "p"]
    def define(self, k, parent, sets):
        s, params = self.ctorsrc(sets)
        self.emit("%s = %sclass %s" % (CN[k], "" if parent is None else CN[parent] + " ", s))
        self.c[k] = Cls(None if parent is None else self.c[parent], (sets, params), [iv for iv, _ in sets])
    def do_cls(self, k, sets): self.define(k, None, sets)
    def do_sub(self, k, p, sets):
        if self.c[p] is None or len(list(self.c[p].chain())) > 5: raise Ill()
        self.define(k, p, sets)
    def do_subd(self, k, p):
        if self.c[p] is None or len(list(self.c[p].chain())) > 5: raise Ill()
        self.emit("%s = %s class" % (CN[k], CN[p]))
        self.c[k] = Cls(self.c[p], self.c[p].ctor, [])
    def args(self, cls, n, w):
        """constructor arguments: (source, values)"""
        a = []; v = []
        for iv in cls.ctor[1]:
            if iv in "ij": a.append(str(n)); v.append(n); n += 1
            elif iv == "s": a.append(lit(w)); v.append(w)
            elif iv == "l": a.append("(%d, %s)" % (n, lit(w))); v.append(Lst([n, w]))
            else: a.append("nil"); v.append(None)
        return ", ".join(a), v
    def make(self, cls, vals):
        o = Obj(cls); sets, params = cls.ctor
        d = dict(zip(params, vals))
        for iv, how in sets:
            self.wr(o, iv, d[iv] if how == "p" else {"i": 11, "j": 12, "s": "cs", "l": Lst([1, 2]), "o": None}[iv])
        return o
    def do_new(self, o, k, n, w):
        c = self.c[k]
        if c is None: raise Ill()
        a, v = self.args(c, n, w)
        self.emit("o%d = %s(%s)" % (o, CN[k], a)); self.o[o] = self.make(c, v)
    def do_newmany(self, k, n, v0):
        c = self.c[k]
        if c is None or not c.knows("o"): raise Ill()
        a, v = self.args(c, v0, "nm")
        self.emit("x = nil\nj = 0\nwhile (j < %d):\n  y = %s(%s)\n  y /o = x\n  x = y\n  j++.\nj = 0\nwhile (x):\n  j++\n  x = x /o." % (n, CN[k], a)); self.say("j", n)
    def do_meth(self, k, m, *b):
        c = self.c[k]
        if c is None: raise Ill()
        kind, iv, m2, k2, n, w = b
        if kind in ("self", "ino", "other", "chain") and m2 == m: raise Ill()
        if kind == "mko" and self.c[k2] is None: raise Ill()
        kc = CN[k2]
        src = {"geti": ["/%s" % iv], "gets": ["/s"], "getl": ["/l"], "seti": ["/%s = v" % iv, "v"], "sets": ["/s = w", "w"], "addi": ["/%s = /%s + v" % (iv, iv), "/%s" % iv], "adds": ["/s = /s + w", "/s"],
               "pushl": ["/l push(v)", "/l length"], "lenl": ["/l length"], "other": ["q %s(v, w, q, 0)" % MN[m2]], "self": ["self %s(v, w, q, 0)" % MN[m2]],
               "rec": ["if (n < 1): 0.", "else: n + self %s(v, w, q, n - 1)." % MN[m]], "lup": ["t = 0", "while (n > 0):", "  t = t + /%s" % iv, "  n = n - 1.", "t"],
               "mkc": ["t = /%s" % iv, "(x):", "  t = t + x", "  t + %d." % n], "mko": ["/o = %s" % kc, "x = nil", "x"], "ino": ["x = /o", "x %s(v, w, x, 0)" % MN[m2]], "const": [lit(w) if n % 2 else str(n)],
               "sumij": ["/i + /j + v"], "cond": ["if (/%s > v): %s." % (iv, lit(w)), "else: %d." % n], "seto": ["/o = q", "v"], "geto_i": ["x = /o", "x /%s" % iv], "swap": ["t = /i", "/i = /j", "/j = t", "/j"],
               "newl": ["/l = (v, w, (v, w))", "/l"], "each": ["t = v", "l = /l", "l each (x): t = t + 1.", "t"], "chain": ["self %s(v, w, q, 0)" % MN[m2], "self %s(v + 1, w, q, 0)" % MN[m2]]}[kind]
        if kind == "mko":
            a, _ = self.args(self.c[k2], n, w)
            src = ["/o = %s(%s)" % (kc, a), "v"]
        self.emit("%s %s = (v, w, q, n):\n  %s." % (CN[k], MN[m], "\n  ".join(src)))
        def f(o, v, wd, q, cnt):
            self.tick()
            if kind == "geti": return self.rd(o, iv)
            if kind == "gets": return self.rd(o, "s")
            if kind == "getl": return self.rd(o, "l")
            if kind == "seti": self.wr(o, iv, v); return v
            if kind == "sets": self.wr(o, "s", wd); return wd
            if kind == "addi": self.wr(o, iv, num(num(self.rd(o, iv)) + num(v))); return self.rd(o, iv)
            if kind == "adds": self.wr(o, "s", string(string(self.rd(o, "s")) + string(wd))); return self.rd(o, "s")
            if kind == "pushl": l = lst(self.rd(o, "l")); l.v.append(v); return len(l.v)
            if kind == "lenl": return len(lst(self.rd(o, "l")).v)
            if kind == "other": return self.send(q, m2, v, wd, q, 0)
            if kind == "self": return self.send(o, m2, v, wd, q, 0)
            if kind == "rec": return 0 if cnt < 1 else num(cnt + num(self.send(o, m, v, wd, q, cnt - 1)))
            if kind == "lup":
                t = 0
                while cnt > 0: t = num(t + num(self.rd(o, iv))); cnt -= 1; self.tick()
                return t
            if kind == "mkc":
                cell = [num(self.rd(o, iv))]
                fn = Fun(None); fn.t = cell[0]
                def call(x, fn=fn, n=n): fn.t = num(fn.t + num(x)); return num(fn.t + n)
                fn.f = call
                return fn
            if kind == "mko":
                c2 = self.c[k2]
                if c2 is None or len(c2.ctor[1]) != len(fixed): raise Ill()
                for a, b in zip(c2.ctor[1], fixed):
                    if a != b: raise Ill()
                self.wr(o, "o", self.make(c2, self.args(c2, n, w)[1])); return v
            if kind == "ino": x = self.rd(o, "o"); return self.send(x, m2, v, wd, x, 0)
            if kind == "const": return w if n % 2 else n
            if kind == "sumij": return num(num(self.rd(o, "i")) + num(self.rd(o, "j")) + num(v))
            if kind == "cond": return w if num(self.rd(o, iv)) > num(v) else n
            if kind == "seto":
                if not isinstance(q, Obj): raise Ill()
                self.wr(o, "o", q); return v
            if kind == "geto_i": return self.rd(self.rd(o, "o"), iv)
            if kind == "swap": t = self.rd(o, "i"); self.wr(o, "i", self.rd(o, "j")); self.wr(o, "j", t); return self.rd(o, "j")
            if kind == "newl": self.wr(o, "l", Lst([v, wd, Lst([v, wd])])); return self.rd(o, "l")
            if kind == "each": return num(num(v) + len(lst(self.rd(o, "l")).v))
            if kind == "chain": self.send(o, m2, v, wd, q, 0); return self.send(o, m2, num(num(v) + 1), wd, q, 0)
        fixed = list(self.c[k2].ctor[1]) if kind == "mko" else None
        f.lists = kind in ("lenl",)
        c.m[m] = f
    def send(self, o, m, v, w, q, n):
        self.depth += 1
        try:
            if self.depth > 60 or not isinstance(o, Obj): raise Ill()
            f = o.cls.find(m)
            if f is None: raise Ill()
            return f(o, v, w, q, n)
        finally: self.depth -= 1
    def do_call(self, o, m, v, w, q, n):
        if self.o[o] is None or self.o[q] is None: raise Ill()
        x = self.send(self.o[o], m, v, w, self.o[q], n)
        self.say("o%d %s(%d, %s, o%d, %d)" % (o, MN[m], v, lit(w), q, n), x)
    def do_callm(self, o1, o2, m, v):
        a, b = self.o[o1], self.o[o2]
        if a is None or b is None: raise Ill()
        self.emit("cm = (z): z %s(%d, \"cw\", z, 1)." % (MN[m], v))
        for i, x in ((o1, a), (o2, b), (o1, a)): self.say("cm(o%d)" % i, self.send(x, m, v, "cw", x, 1))
    def do_get(self, o, iv):
        if self.o[o] is None: raise Ill()
        self.say("o%d /%s" % (o, iv), self.rd(self.o[o], iv))
    def do_set(self, o, iv, n, w, q):
        x = self.o[o]
        if x is None: raise Ill()
        if iv in "ij": s, v = str(n), n
        elif iv == "s": s, v = lit(w), w
        elif iv == "l": s, v = "(%s, %d)" % (lit(w), n), Lst([w, n])
        else: s, v = "o%d" % q, self.o[q]
        self.emit("o%d /%s = %s" % (o, iv, s)); self.wr(x, iv, v)
    def do_kind(self, o, k):
        if self.o[o] is None or self.c[k] is None: raise Ill()
        self.say("o%d kind == %s" % (o, CN[k]), self.o[o].cls is self.c[k])
        self.say("o%d isa?(%s)" % (o, CN[k]), self.o[o].cls is self.c[k])
        self.say("o%d subclass?(%s)" % (o, CN[k]), self.c[k] in self.o[o].cls.chain())
    def do_alias(self, a, b):
        if self.o[b] is None: raise Ill()
        self.emit("o%d = o%d" % (a, b)); self.o[a] = self.o[b]
    def do_metam(self, k, m, n):
        if self.c[k] is None: raise Ill()
        self.emit("%s meta mm%d = (x): x + %d." % (CN[k], m, n)); self.c[k].meta[m] = n
    def do_callmeta(self, k, m, n):
        if self.c[k] is None or m not in self.c[k].meta: raise Ill()
        self.say("%s mm%d(%d)" % (CN[k], m, n), n + self.c[k].meta[m])
    def do_builtin(self, t, m, n, w):
        if t == 0: self.emit("Number bm%d = (x): self * 2 + x + %d." % (m, n))
        else: self.emit("String bm%d = (x): self + x + %s." % (m, lit(w)))
        self.bm[(t, m)] = n if t == 0 else w
    def do_callb(self, t, m, n, w):
        if (t, m) not in self.bm: raise Ill()
        if t == 0: self.say("%d bm%d(%d)" % (n, m, n), num(n * 2 + n + self.bm[(t, m)]))
        else: self.say("%s bm%d(%s)" % (lit(w + "!"), m, lit(w)), w + "!" + w + self.bm[(t, m)])
    # ---- closures ----
    def do_fun(self, i, kind, v):
        fn = Fun(None); fn.kind = kind; fn.t = v
        s = lit(v)
        if kind == 0:    # an accumulator of its own
            num(v); self.emit("mk = (n):\n  c = n\n  (x):\n    c = c + x\n    c..\nf%d = mk(%s)" % (i, s))
            def f(x): fn.t = num(fn.t + num(x)); return fn.t
        elif kind == 1:  # a list that grows
            self.emit("mk = (n):\n  l = (n,)\n  (x):\n    l push(x)\n    l length..\nf%d = mk(%s)" % (i, s)) if False else self.emit("mk = (n):\n  l = ()\n  l push(n)\n  (x):\n    l push(x)\n    l length..\nf%d = mk(%s)" % (i, s))
            fn.t = 1
            def f(x): fn.t += 1; return fn.t
        elif kind == 2:  # the last argument
            self.emit("mk = (n):\n  last = n\n  (x):\n    y = last\n    last = x\n    y..\nf%d = mk(%s)" % (i, s))
            def f(x): y = fn.t; fn.t = x; return y
        elif kind == 3:  # a constant
            self.emit("f%d = (x): %s." % (i, s))
            def f(x): return v
        elif kind == 4:  # over the argument and a captured parameter
            string(v); self.emit("mk = (n): (x): n + x..\nf%d = mk(%s)" % (i, s))
            def f(x): return string(v + string(x))
        else:            # over a table it alone sees
            self.emit("mk = (n):\n  t = (\"n\"=n)\n  (x):\n    y = t at(\"n\")\n    t put(\"n\", (x, 1))\n    t put(x, y)\n    y..\nf%d = mk((%s, 0))" % (i, s))
            fn.t = (v, 0)
            def f(x): y = fn.t; fn.t = (x, 1); return Lst(list(y))
        fn.f = f; self.f[i] = fn
    def call(self, i, v):
        if self.f[i] is None: raise Ill()
        return self.f[i].f(v)
    def do_callf(self, i, v): self.say("f%d(%s)" % (i, lit(v)), self.call(i, v))
    def do_pair(self, n):
        self.emit("mkp = (n):\n  v = n\n  g = (): v.\n  s = (x):\n    v = x + 1\n    v.\n  (g, s).\npr = mkp(%d)\npg = pr(0)\nps = pr(1)" % n); self.pr = {"v": n}
    def do_pairs(self, x):
        if self.pr is None: raise Ill()
        self.pr["v"] = num(x + 1); self.say("ps(%d)" % x, x + 1); self.say("pg()", x + 1)
    def do_hof(self, i, v, k):
        if k == 0:
            self.emit("ap = (g, x): g(x)."); self.say("ap(f%d, %s)" % (i, lit(v)), self.call(i, v))
        else:
            self.emit("tw = (g, x):\n  (g(x), g(x))."); self.say("tw(f%d, %s)" % (i, lit(v)), Lst([self.call(i, v), self.call(i, v)]))
    def do_nest(self, a, b, c):
        self.emit("ne = (a):\n  (b):\n    (c):\n      a = a + 1\n      b = b + c\n      a + b...\nna = ne(%d)\nnb = na(%d)\nnc = na(%d)" % (a, b, b + 1))
        b1, b2 = b, b + 1
        a += 1; b1 += c; self.say("nb(%d)" % c, num(a + b1)); a += 1; b2 += c; self.say("nc(%d)" % c, num(a + b2)); a += 1; b1 += c; self.say("nb(%d)" % c, num(a + b1))
    def do_lists(self, fs, k, v):
        if any(self.f[i] is None for i in fs): raise Ill()
        self.emit("fl = (%s)\nx = fl at(%d)" % (", ".join("f%d" % i for i in fs) + (", 0" if len(fs) == 1 else ""), k % len(fs)))
        self.say("x(%s)" % lit(v), self.call(fs[k % len(fs)], v))
    def do_eachf(self, i, items, k):
        if self.f[i] is None or len(items) < 2: raise Ill()
        l = lit(items)
        if k == 0:
            self.emit("x = 0\n%s each (z): x = x + z." % l); self.say("x", sum(items))
        elif k == 1: self.say("%s map (z): f%d(z)." % (l, i), Lst([self.call(i, z) for z in items]))
        else:
            self.emit("x = ()\n%s each (z): x push(f%d(z))." % (l, i)); self.say("x", Lst([self.call(i, z) for z in items]))
    def do_recf(self, n):
        self.emit("fb = (n):\n  if (n < 2): n.\n  else: fb(n - 1) + fb(n - 2).." if n <= 12 else "fb = (n):\n  if (n < 2): n.\n  else: n + fb(n - 1)..")
        def fib(k): return k if k < 2 else fib(k - 1) + fib(k - 2)
        self.say("fb(%d)" % n, fib(n) if n <= 12 else sum(range(1, n + 1)))
    def do_many(self, i, n, v):
        """n closures made in turn, kept in a list, each with its own variable"""
        self.emit("mk = (n):\n  c = n\n  (x):\n    c = c + x\n    c..\nfl = ()\nj = 0\nwhile (j < %d):\n  fl push(mk(j))\n  j++." % n)
        k = v % n
        self.emit("x = fl at(%d)\ny = fl at(%d)" % (k, n - 1 - k))
        if k == n - 1 - k:
            self.say("x(%d)" % v, k + v); self.say("y(1)", k + v + 1)
        else:
            self.say("x(%d)" % v, k + v); self.say("y(1)", n - k); self.say("x(1)", k + v + 1)
        self.say("fl length", n)
    def do_scope(self, a, b):
        self.emit("x = %s\nsc = (x):\n  y = x\n  x = %s\n  y.\n" % (lit(a), lit(b))); self.say("sc(%s)" % lit(b), b); self.say("x", a)
    def do_fromc(self, i, o, v, n):
        """a closure a method returns, over the method's variables"""
        x = self.o[o]
        if x is None or not isinstance(self.rd(x, "i"), int): raise Ill()
        self.emit("%s" % "" or "mq = (z):\n  t = z /i\n  (x):\n    t = t + x\n    z /i = t\n    t..\nf%d = mq(o%d)" % (i, o))
        fn = Fun(None); fn.t = self.rd(x, "i")
        def f(y): fn.t = num(fn.t + num(y)); self.wr(x, "i", fn.t); return fn.t
        fn.f = f; self.f[i] = fn
        self.say("f%d(%d)" % (i, v), f(v))
    def do_deep(self, n):
        self.emit("dp = (n, k):\n  if (n < 1): k(0).\n  else:\n    g = (x): k(x + n).\n    dp(n - 1, g)..\n"); self.say("dp(%d, (x): x * 2.)" % n, n * (n + 1))

    def do_rdeep(self, n, k, v):
        """recursion past one stack of the VM"""
        if k == 0: self.emit("rd = (n):\n  if (n < 1): 0.\n  else: 1 + rd(n - 1).."); self.say("rd(%d)" % n, n)
        elif k == 1: self.emit("rd = (n, a):\n  if (n < 1): a.\n  else: rd(n - 1, a + 1).."); self.say("rd(%d, %d)" % (n, v), num(v + n))
        elif k == 2: self.emit("rd = (n, a, l):\n  l push(a)\n  if (n < 1): l length.\n  else:\n    k = a + 1\n    rd(n - 1, k, l) + k.."); self.say("rd(%d, %d, ())" % (n, v), num(n + 1 + sum(v + i for i in range(1, n + 1))))
        else: self.emit("rd = (n, s):\n  z = n\n  g = (): z.\n  if (n < 1): s.\n  else:\n    t = rd(n - 1, s + \"x\") length\n    s + (t + g()) string..".replace("s + (t + g()) string", "u = t + g()\n    s + u string")) if False else self.emit("rd = (n, s):\n  z = n\n  g = (): z.\n  if (n < 1): s.\n  else:\n    t = rd(n - 1, s)\n    g()\n    t.."); self.say("rd(%d, \"e\")" % n, "e")

def _optargs(self, how, t, m, o, calls, c, ob):
    """a function with optional arguments, called with more and fewer of them"""
    sig = ", ".join("a%d%s" % (i, "" if ty == "-" else "=" + ty) for i, ty in enumerate(m))
    if t == 0: sig += "|" + ", ".join("b%d=%s" % (i, ty) for i, ty in enumerate(o))
    else: sig += ", " + ", ".join("b%d:=%s" % (i, lit(v)) for i, v in enumerate(o))
    names = ["a%d" % i for i in range(len(m))] + ["b%d" % i for i in range(len(o))]
    dfl = [{"N": 0, "S": "", "o": None}[x] for x in o] if t == 0 else o
    body = "(%s):\n  z = 7\n  (%s)." % (sig, ", ".join(names)) if how != 4 else "(%s):\n  z = \"left\"\n  (%s, z)." % (sig, ", ".join(names))
    full = lambda a: Lst(list(a) + dfl[len(a) - len(m):] + (["left"] if how == 4 else []))
    arg = lambda a: ", ".join(map(lit, a))
    if how == 1:   # a method
        x = self.o[ob]
        if not isinstance(x, Obj) or self.c[c] is None or self.c[c] not in list(x.cls.chain()): raise Ill()
        self.emit("%s mo%d = %s" % (CN[c], c, body))
        for a in calls: self.say("o%d mo%d(%s)" % (ob, c, arg(a)), full(a))
        return
    self.emit("h = " + body)
    if how == 2:   # all in one expression
        self.say("(" + ", ".join("h(%s)" % arg(a) for a in calls) + ", 0)", Lst([full(a) for a in calls] + [0]))
    elif how == 3: # from another function with its own registers
        self.emit("hc = (g, p, q):\n  u = p + 1\n  v = (p, q, u)\n  w = ()\n%s\n  w push(v length)\n  w." % "\n".join("  w push(g(%s))" % arg(a) for a in calls))
        self.say("hc(h, 5, \"q\")", Lst([full(a) for a in calls] + [3]))
    else:
        for a in calls: self.say("h(%s)" % arg(a), full(a))
Model.do_optargs = _optargs
def _manycls(self, n, v, k):
    """a subclass and an instance of it in each turn"""
    self.emit("Q = class (p): /i = p.\nQ mm = (x): /i + x.\nql = ()\nj = 0\nwhile (j < %d):\n  R = Q class (p): /i = p, /j = j.\n  R mn = (x): /j.\n  ql push(R(j + %d))\n  j++." % (n, v % 1000))
    v %= 1000
    for i in sorted({0, n // 2, n - 1, n * k // 4}): self.emit("x = ql(%d)" % i); self.say("(x mm(1), x /j, x mn(0))", Lst([i + v + 1, i, i]))
    self.emit("ql = nil")
Model.do_manycls = _manycls
def _tower(self, n, over, late, v):
    """A chain of n classes, each with a method of its own and some overriding one and the same; one method added late at the bottom."""
    name = lambda i: "T%d" % i
    for i in range(n):
        self.emit("%s = %sclass (p): /i = p%s." % (name(i), name(i - 1) + " " if i else "", ", /k%d = %d" % (i, i) if i % 3 == 0 else ""))
        self.emit("%s t%d = (x): /i + x + %d." % (name(i), i, i))
        if i == 0 or over >> i & 1: self.emit("%s tv = (x): x + %d." % (name(i), 1000 * i))
    near = lambda l: max(i for i in range(l + 1) if i == 0 or over >> i & 1)
    for l in sorted({n - 1, n // 2, late % n}):
        self.emit("x = %s(%d)" % (name(l), v))
        for i in sorted({0, l // 2, l}): self.say("x t%d(3)" % i, v + 3 + i)
        self.say("x tv(5)", 5 + 1000 * near(l))
    self.emit("T0 tz = (x): /i - x.")
    self.emit("x = %s(%d)" % (name(n - 1), v)); self.say("x tz(1)", v - 1)
    if n > 1:
        self.emit("%s tz = (x): /i + x." % name(n // 2)); self.say("x tz(1)", v + 1)
Model.do_tower = _tower

def render(ops, wrap=0):
    m = Model(); blocks = []
    for a in ops:
        m.lines = []; m.op(a); blocks.append(m.lines)
    m.lines = []
    for o in range(NO):
        if m.o[o] is None: continue
        for iv in "ijsl": m.op(["get", o, iv])
    for f in range(NF): m.op(["callf", f, 3])
    blocks.append(m.lines)
    hd = ["x = nil", "y = nil", "j = 0"] + ["%s = nil" % n for n in "ABCD"] + ["o%d = nil" % i for i in range(NO)] + ["f%d = nil" % i for i in range(NF)]
    if wrap == 0: src = "\n".join(hd + [l for b in blocks for l in b]) + "\n"
    else:
        ind = lambda l: "\n".join("  " + z for z in l.split("\n"))
        src = "main = ():\n" + "\n".join(ind(l) for l in hd + [l for b in blocks for l in b]) + "\n  nil.\nmain()\n"
    return src, "".join(m.out)
