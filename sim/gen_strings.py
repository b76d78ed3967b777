"""Histories that make equal and different strings in many ways, drop and recreate them, and compare them."""
from common import size
NS, NK = 8, 3
WORDS = ["a", "b", "ab", "ba", "aba", "length", "say", "string", "p", "ma", "mb", "mab", "mba", "A", "k1", "12", "a longer word than one cell", "q" * 33]
HEX = ["", "a", "b", "ab", "m"]
KINDS = [("lit", 8), ("cat", 9), ("slice", 7), ("num", 4), ("join", 4), ("bytes", 6), ("bapp", 4), ("eval", 3), ("file", 4), ("char", 4), ("drop", 6), ("copy", 3), ("eq", 12), ("neq", 3), ("tput", 8), ("tget", 9), ("trem", 3), ("churn", 4), ("back", 4), ("def", 5), ("call", 6), ("can", 4),
         ("lput", 3), ("lget", 4), ("swap", 2), ("len", 2), ("cmp", 2), ("show", 3), ("keep", 3), ("kept", 4), ("ivar", 2), ("argf", 2), ("lookup", 2), ("grow", 3), ("litlong", 4), ("chr", 4), ("lick", 3), ("ltext", 3)]

def lit(s): return '"%s"' % s
def gen(rng, n):
    names = [k for k, _ in KINDS]; w = [x for _, x in KINDS]
    if rng.random() < .5:
        for i in range(len(w)):
            if rng.random() < .3 and names[i] not in ("lit", "cat", "eq", "drop"): w[i] = 0
    r = rng.randrange; ops = []
    for i in range(3): ops.append(["lit", i, rng.choice(WORDS)])
    for _ in range(n):
        k = rng.choices(names, w)[0]; a = [k, r(NS)]
        if k == "lit": a.append(rng.choice(WORDS))
        elif k in ("cat", "join"): a += [r(NS), r(NS)]
        elif k in ("slice",): a += [r(NS), r(9), r(9)]
        elif k == "num": a.append(rng.choice([1, 12, 12, 123, 7, 1 << 40]))
        elif k in ("bytes", "file", "char", "copy", "eq", "neq", "swap", "cmp", "argf"): a += [r(NS), r(5)]
        elif k == "bapp": a += [r(NS), rng.choice(WORDS), r(1, 5)]
        elif k == "eval": a += [rng.choice(WORDS), rng.choice(WORDS)]
        elif k in ("tput", "tget", "trem"): a += [r(NK), rng.choice([None, rng.choice(WORDS)])]
        elif k == "churn": a += [r(2, 60), rng.choice(["c", "a", "k", "word"]), r(50)]
        elif k == "back": a += [r(2, 40), rng.choice(["c", "k", "a"]), r(40)]
        elif k in ("def", "call", "can"): a += [rng.choice(["ma", "mb", "mab", "mba", "m" + "q" * 33]), r(1, 4)]
        elif k in ("lput", "lget"): a += [r(6)]
        elif k in ("keep", "kept"): a += [r(5, 90), rng.choice(["c", "k", "x"])]
        elif k == "ivar": a += [r(NS)]
        elif k == "grow": a += [r(NS), rng.choice([1, 2, 3, 5, 8]), rng.choice([40, 130, 255, 256, 300, 700, 1100, 4200]) if rng.random() < .5 else size(rng, 5000)]
        elif k == "litlong": a += [rng.choice(WORDS[:5] + ["k", "12"]), size(rng, 4200)]
        elif k == "chr": a.append(rng.choice([97, 98, 107, 109, 65, 49]))
        elif k in ("lick", "ltext"): a.append(rng.choice([w for w in WORDS if w.isalpha()]))
        elif k == "lookup": a += [rng.choice(["ma", "mb", "nope"])]
        ops.append(a)
    return ops

def cuts(s, k):
    """s as a sum of two pieces"""
    k = k % (len(s) + 1)
    if not s[:k] or not s[k:]: return lit(s) if not s else "(%s + \"\")" % lit(s) if False else lit(s)
    return "%s + %s" % (lit(s[:k]), lit(s[k:]))

class Model:
    def __init__(self):
        self.s = [None] * NS; self.t = [{"h": 0} for _ in range(NK)]; self.l = [None] * 6; self.m = {}; self.kept = None; self.iv = None
        self.lines = []; self.out = []; self.n = 0
    def say(self, e, v):
        self.n += 1
        f = lambda v: "true" if v is True else "false" if v is False else "nil" if v is None else str(v)
        self.lines.append("(%d, %s) say" % (self.n, e)); self.out.append("(%d, %s)\n" % (self.n, f(v)))
    def emit(self, l): self.lines.append(l)
    def set(self, i, e, v):
        if len(v) > 9000: return
        self.emit("s%d = %s" % (i, e)); self.s[i] = v
    def op(self, a): getattr(self, "do_" + a[0])(*a[1:])
    def do_lit(self, i, w): self.set(i, lit(w), w)
    def do_cat(self, i, j, k):
        if self.s[j] is None or self.s[k] is None: return
        self.set(i, "s%d + s%d" % (j, k), self.s[j] + self.s[k])
    def do_slice(self, i, j, a, b):
        v = self.s[j]
        if not v: return
        a %= len(v); b = a + 1 + b % (len(v) - a); self.set(i, "s%d slice(%d, %d)" % (j, a, b), v[a:b])
    def do_num(self, i, n): self.set(i, "%d string" % n, str(n))
    def do_chr(self, i, n): self.set(i, "%d chr" % n, chr(n)); self.say("s%d ord" % i, n)
    def do_lick(self, i, w): self.emit("x = [%s]\nx = x at(0)" % w); self.set(i, "x name", w); self.emit("x = nil")
    def do_ltext(self, i, w): self.emit("x = [p %s]\nx = x at(0)" % lit(w)); self.set(i, "x text", w); self.emit("x = nil")
    def do_join(self, i, j, k):
        if self.s[j] is None or self.s[k] is None: return
        self.set(i, "(s%d, s%d) join(\"\")" % (j, k), self.s[j] + self.s[k])
    def do_bytes(self, i, j, k):
        if self.s[j] is None: return
        self.emit("b = s%d bytes" % j); self.set(i, "b string", self.s[j])
    def do_bapp(self, i, j, w, n):
        if self.s[j] is None or len(self.s[j]) + n * len(w) > 5000: return
        self.emit("b = s%d bytes" % j + ("\nb append(%s)" % lit(w)) * n); self.set(i, "b string", self.s[j] + w * n)
    def do_eval(self, i, a, b): self.set(i, lit("\\\"%s\\\" + \\\"%s\\\"" % (a, b)) + " eval", a + b)
    def do_file(self, i, j, k):
        v = self.s[j]
        if not v: return
        self.emit("fd = File(\"tmp\", \"w\")\nfd write(s%d)\nfd close\nfd = File(\"tmp\", \"r\")\nb = fd read(%d)\nfd close" % (j, len(v) + k)); self.set(i, "b string", v)
    def do_char(self, i, j, k):
        v = self.s[j]
        if not v: return
        k %= len(v); self.set(i, "s%d(%d)" % (j, k), v[k])
    def do_grow(self, i, j, k, n):
        """doubled until it is n long or more"""
        v = self.s[j]
        if not v or len(v) > n: return
        m = 0
        w = v
        while len(w) < n: w += w; m += 1
        if len(w) > 9000: return
        self.emit("x = s%d\nj = 0\nwhile (j < %d):\n  x = x + x\n  j++.\ns%d = x\nx = nil" % (j, m, i)); self.s[i] = w
        if k > 3: self.emit("x = " + cuts(w, len(w) // k)); self.say("s%d == x" % i, True); self.emit("x = nil")
    def do_litlong(self, i, w, n): self.set(i, lit((w * n)[:n]), (w * n)[:n])
    def do_drop(self, i): self.emit("s%d = nil" % i); self.s[i] = None
    def do_copy(self, i, j, k): self.emit("s%d = s%d" % (i, j)); self.s[i] = self.s[j]
    def do_swap(self, i, j, k): self.emit("x = s%d\ns%d = s%d\ns%d = x\nx = nil" % (i, i, j, j)); self.s[i], self.s[j] = self.s[j], self.s[i]
    def do_eq(self, i, j, k):
        v = self.s[i]
        if k == 0 and v is not None and len(v) > 1: self.say("s%d == (%s + %s)" % (i, lit(v[:1]), lit(v[1:])), True) if False else (self.emit("x = " + cuts(v, len(v) // 2)), self.say("s%d == x" % i, True), self.emit("x = nil"))
        elif k == 1 and v is not None: self.say("s%d == %s" % (i, lit(v)), True)
        else: self.say("s%d == s%d" % (i, j), v == self.s[j])
    def do_neq(self, i, j, k): self.say("s%d != s%d" % (i, j), self.s[i] != self.s[j])
    def key(self, i, w): return ("s%d" % i, self.s[i]) if w is None else (cuts(w, 2), w)
    def do_tput(self, i, t, w):
        e, v = self.key(i, w)
        if v is None: return
        self.n += 1; self.emit("x = %s\nt%d put(x, %d)\nx = nil" % (e, t, self.n)); self.t[t][v] = self.n
    def do_tget(self, i, t, w):
        e, v = self.key(i, w)
        if v is None: return
        self.emit("x = %s" % e); self.say("t%d at(x)" % t, self.t[t].get(v)); self.emit("x = nil")
    def do_trem(self, i, t, w):
        e, v = self.key(i, w)
        if v is None: return
        self.emit("x = %s\nt%d remove(x)\nx = nil" % (e, t)); self.t[t].pop(v, None); self.say("t%d length" % t, len(self.t[t]))
    def do_churn(self, i, n, p, k):
        """n strings, none kept but one"""
        k %= n
        self.emit("j = 0\nwhile (j < %d):\n  x = %s + j string\n  if (j == %d): s%d = x.\n  j++.\nx = nil" % (n, lit(p), k, i)); self.s[i] = p + str(k)
    def do_back(self, i, n, p, k):
        """every one of n strings equals what it was when made a second time"""
        self.emit("l = ()\nj = 0\nwhile (j < %d):\n  l push(%s + j string)\n  j++.\nj = 0\nk = 0\nwhile (j < %d):\n  x = %s + j string\n  if (l(j) == x): k++.\n  j++.\nl = nil\nx = nil" % (n, lit(p), n, lit(p))); self.say("k", n)
    def do_def(self, i, m, v):
        self.emit("x = %s\nA def(x, (v): v + %d.)\nx = nil" % (cuts(m, v), v)); self.m[m] = v
    def do_call(self, i, m, v):
        if m in self.m: self.say("o %s(10)" % m, 10 + self.m[m])
    def do_can(self, i, m, v):
        self.emit("x = %s" % cuts(m, v)); self.say("o can(x)", m in self.m); self.emit("x = nil")
    def do_lookup(self, i, m):
        v = self.s[i]
        if v is None: return
        if v != "A": self.say("o can(s%d)" % i, v in self.m or v in ("string", "say", "print"))
    def do_lput(self, i, k): self.emit("ll put(%d, s%d)" % (k, i)); self.l[k] = self.s[i]
    def do_lget(self, i, k): self.emit("s%d = ll(%d)" % (i, k)); self.s[i] = self.l[k]
    def do_len(self, i):
        if self.s[i] is not None: self.say("s%d length" % i, len(self.s[i]))
    def do_cmp(self, i, j, k):
        if self.s[i] is None or self.s[j] is None: return
        self.say("s%d cmp(s%d) == 0" % (i, j), self.s[i] == self.s[j])
    def do_show(self, i): self.say("s%d" % i, self.s[i])
    def do_keep(self, i, n, p):
        """a table of n computed names"""
        self.emit("tk = (\"h\"=0)\nj = 0\nwhile (j < %d):\n  tk put(%s + j string, j)\n  j++." % (n, lit(p))); self.kept = (n, p)
    def do_kept(self, i, n, p):
        if not self.kept: return
        m, q = self.kept
        self.emit("j = 0\nk = 0\nwhile (j < %d):\n  if (tk at(%s + j string) == j): k++.\n  j++." % (m, lit(q))); self.say("k", m); self.say("tk at(%s + %s)" % (lit(q), lit("x")), None); self.say("tk length", m + 1)
    def do_ivar(self, i, j): self.emit("o /i = s%d" % i); self.iv = self.s[i]; self.say("o /i == s%d" % j, self.iv == self.s[j])
    def do_argf(self, i, j, k): self.emit("fa = (a, b): a == b."); self.say("fa(s%d, s%d)" % (i, j), self.s[i] == self.s[j])

def render(ops, wrap=0):
    m = Model(); bl = []
    for a in ops:
        m.lines = []; m.op(a); bl.append(m.lines)
    m.lines = []
    for i in range(NS):
        m.do_show(i)
        for j in range(i): m.do_eq(i, j, 9)
    for t in range(NK): m.say("t%d length" % t, len(m.t[t])); [m.do_tget(0, t, w) for w in WORDS[:8]]
    bl.append(m.lines)
    hd = ["x = nil", "b = nil", "l = nil", "j = 0", "k = 0", "fd = nil", "tk = nil", "A = class (p): /i = p.", "o = A(1)", "ll = (nil, nil, nil, nil, nil, nil)"] + ["s%d = nil" % i for i in range(NS)] + ["t%d = (\"h\"=0)" % i for i in range(NK)]
    ls = hd + [l for b in bl for l in b]
    if wrap == 0: src = "\n".join(ls) + "\n"
    else: src = "main = ():\n" + "\n".join("\n".join("  " + z for z in l.split("\n")) for l in ls) + "\n  nil.\nmain()\n"
    return src, "".join(m.out)
