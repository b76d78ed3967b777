"""Histories over lists, tables and strings, and their reference model.
An op is a JSON list; any sub-list of a history is again a history (indices are taken modulo what exists)."""

NL, NT, NS = 4, 3, 4
INTS = list(range(0, 12)) + [-1, -7, 100, 255, 256, 65535, 1 << 20, (1 << 40) + 7]
KEYS_I = list(range(0, 24)) + [1000, 70000]
KEYS_S = ["k%d" % i for i in range(16)] + ["", "a long key, longer than a word", "k1x"]
WORDS = ["", "a", "b", "ab", "potion", "Oz", "a longer piece of text", "x" * 40, "é", "naïve", "日本語x", "𝄞", "€"]

class L:  # list
    def __init__(self, items=()): self.v = list(items); self.t = None
class T:  # table
    def __init__(self): self.d = {}

def show(v):
    if isinstance(v, bool): return "true" if v else "false"
    if v is None: return "nil"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return v
    if isinstance(v, L):
        if v.t is not None: return "<table>"
        return "(" + ", ".join(show(x) for x in v.v) + ")"
    return "<table>"

def lit(v):
    if v is None: return "nil"
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, int): return str(v)
    return '"%s"' % v

def reaches(a, b):
    """does value a (transitively) contain container b"""
    st = [a]; seen = set()
    while st:
        x = st.pop()
        if x is b: return True
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, L): st += x.v if x.t is None else list(x.t.d.values())
        elif isinstance(x, T): st += list(x.d.values())
    return False

def nested_table(v):
    """a table somewhere inside: its printed order is unspecified"""
    if isinstance(v, T): return True
    if isinstance(v, L): return v.t is not None or any(nested_table(x) for x in v.v)
    return False

KINDS = [("lpush", 9), ("lpop", 5), ("lshift", 4), ("lunshift", 5), ("lput", 6), ("ldelete", 3), ("lremove", 3), ("lat", 4), ("lfl", 2), ("llen", 2),
         ("lrev", 2), ("lnrev", 2), ("lclone", 3), ("lslice", 4), ("lalias", 4), ("lnew", 3), ("lmap", 4), ("lfilter", 3), ("lreduce", 2), ("leach", 3), ("lsort", 3),
         ("ljoin", 2), ("lloop", 3), ("lrange", 2), ("lpoploop", 2), ("lnest", 4), ("lshow", 6), ("lgrow", 1), ("lcast", 1), ("lfind", 1), ("linssort", 1), ("lsortb", 3), ("lsize", 1),
         ("tput", 10), ("tput2", 6), ("trem", 6), ("tat", 5), ("tlen", 3), ("tclone", 3), ("talias", 2), ("tnew", 2), ("tloop", 3), ("tremloop", 2), ("tkeys", 2), ("tvals", 2),
         ("tmap", 2), ("tfilter", 3), ("teach", 3), ("tslice", 2), ("tnest", 4), ("tshow", 5), ("tgrow", 1),
         ("scat", 6), ("slice", 5), ("slen", 2), ("sord", 2), ("seq", 4), ("snum", 2), ("sjoin", 2), ("sbytes", 3), ("sset", 2), ("sshow", 3), ("sloop", 2), ("sint", 2), ("sneg", 2), ("sat", 3), ("bops", 4),
         ("mnew", 3), ("mshow", 5)]
NM = 2; TAGS = ["p", "em", "div", "li", "h1", "span"]
WALK = """mw = (n, o):
  o push(n name)
  if (n attr):
    o push("q")
    o push(n attr at("q")).
  if (n licks):
    zi = 0, zl = n licks
    while (zi < zl length):
      mw(zl(zi), o)
      zi++.
  . elsif (n text): o push(n text).
  o push("/")
  o."""
NAMES = [k for k, w in KINDS]; WEIGHTS = [w for k, w in KINDS]

def val(rng):
    r = rng.random()
    if r < .5: return ["i", rng.choice(INTS)]
    if r < .8: return ["w", rng.choice(WORDS)]
    if r < .95: return ["s", rng.randrange(NS)]
    return ["n"]
def key(rng):
    return rng.choice(KEYS_I) if rng.random() < .5 else rng.choice(KEYS_S)

def node(rng, d=0):
    """markup: name, attribute value or none, and inside a text, more markup, or nothing"""
    q = rng.random(); inner = None
    if q < .35: inner = ["w", rng.choice(WORDS)]
    elif q < .75 and d < 3: inner = [node(rng, d + 1) for _ in range(rng.randrange(1, 4))]
    return [rng.choice(TAGS), val(rng) if rng.random() < .4 else None, inner]

def gen(rng, n, focus=None):
    ops = []
    w = list(WEIGHTS)
    # swarm: drop some kinds from this history altogether
    if rng.random() < .6:
        for i in range(len(w)):
            if rng.random() < .35 and NAMES[i] not in ("lpush", "tput", "lshow", "tshow"): w[i] = 0
    if focus: w = [x if NAMES[i][0] in focus else 0 for i, x in enumerate(w)]
    for _ in range(n):
        k = rng.choices(NAMES, w)[0]
        r = rng.randrange
        a = [k]
        if k[0] == "l": a.append(r(NL))
        elif k[0] == "t": a.append(r(NT))
        elif k[0] == "m": a.append(r(NM))
        else: a.append(r(NS))
        if k == "mnew": a.append([node(rng) for _ in range(r(1, 4))])
        if k in ("lpush", "lunshift"): a.append(val(rng))
        elif k == "lput": a += [r(-6, 14), val(rng)]
        elif k in ("ldelete", "lremove"): a.append(r(0, 10))
        elif k == "lat": a.append(r(-8, 12))
        elif k == "lslice": a += [r(-5, 8), rng.choice([None, r(-5, 9)])]
        elif k in ("lclone", "lalias", "lrev"): a.append(r(NL))
        elif k == "lnew": a.append([val(rng) for _ in range(r(0, 7))])
        elif k in ("lmap", "lfilter", "lreduce", "leach", "lsort", "linssort", "lsortb"): a += [r(NL), r(0, 5)]
        elif k == "ljoin": a += [r(NS), rng.choice([", ", "", "-"])]
        elif k in ("lloop", "lpoploop"): a += [rng.choice([3, 7, 20, 60, 150]), r(0, 3)]
        elif k == "lrange": a += [r(-9, 12), r(-9, 40), rng.choice([0, 0, 1, 2, 3, 7]), r(0, 3)]
        elif k == "lgrow": a.append(rng.choice([3, 9, 40]))
        elif k == "lnest": a += [r(NL), r(0, 3)]
        elif k == "lsize": a.append(r(0, 9))
        elif k == "lcast": a += [r(1, 5), val(rng)]
        elif k == "lfind": a.append(val(rng))
        elif k in ("tput", "tput2"): a += [key(rng), val(rng)]
        elif k in ("trem", "tat"): a.append(key(rng))
        elif k in ("tclone", "talias", "tslice"): a.append(r(NT))
        elif k == "tnew": a.append([[key(rng), val(rng)] for _ in range(r(1, 6))])
        elif k in ("tloop", "tremloop"): a += [rng.choice([2, 5, 12, 30, 80]), r(0, 40), r(0, 3)]
        elif k in ("tmap", "tfilter"): a.append(r(0, 4))
        elif k == "tgrow": a.append(rng.choice([5, 20]))
        elif k == "tnest": a += [r(NL), key(rng)]
        elif k == "scat": a += [r(NS), rng.choice([["s", r(NS)], ["w", rng.choice(WORDS)]])]
        elif k == "slice": a += [r(NS), r(0, 8), r(0, 12)]
        elif k == "sneg": a += [r(NS), r(2, 9), r(1, 8)]
        elif k == "sat": a += [r(-12, 16)]
        elif k == "bops": a += [[rng.choice([["a", rng.choice(WORDS), r(1, 8)], ["a", rng.choice(WORDS), r(1, 60)], ["ord", r(0, 20)], ["at", r(0, 40)], ["len"], ["clone", rng.choice(WORDS)], ["each", rng.choice(WORDS)], ["str"]]) for _ in range(r(1, 9))]]
        elif k == "seq": a += [r(NS)]
        elif k == "sjoin": a += [r(NL)]
        elif k == "sset": a.append(rng.choice(WORDS))
        elif k == "sbytes": a += [r(NS), rng.choice(WORDS), r(1, 6)]
        elif k == "sloop": a += [rng.choice([2, 9, 40]), rng.choice(["a", "xy", "1"])]
        elif k == "sint": a.append(rng.choice(INTS))
        ops.append(a)
    return ops

class Model:
    def __init__(self):
        self.l = [L() for _ in range(NL)]; self.t = [T() for _ in range(NT)]; self.s = ["s%d" % i for i in range(NS)]
        self.m = [[] for _ in range(NM)]
        self.lines = []; self.out = []; self.n = 0
    def header(self):
        return ["l%d = ()" % i for i in range(NL)] + ["t%d = (\"h\"=%d)" % (i, i) for i in range(NT)] + ['s%d = "s%d"' % (i, i) for i in range(NS)] + ["m%d = ()" % i for i in range(NM)] + [WALK]
    def start(self):
        for i in range(NT): self.t[i].d["h"] = i
    def ev(self, v):
        """(source text, model value)"""
        if v[0] == "s": return "s%d" % v[1], self.s[v[1]]
        if v[0] == "n": return "nil", None
        return lit(v[1]), v[1]
    def emit(self, src, outs=None):
        self.lines.append(src)
        if outs is not None: self.out.append(outs)
    def say(self, expr, v):
        """prints expr with a running number; the model says v"""
        self.n += 1
        self.emit("(%d, %s) say" % (self.n, expr), "(%d, %s)\n" % (self.n, show(v)))
    def islist(self, i): return self.l[i].t is None
    def op(self, a):
        k = a[0]; f = getattr(self, "do_" + k)
        if k[0] == "l" and not self.islist(a[1]): return self.tabled(a)
        return f(*a[1:])
    # a list that has become a table (put beyond its end) answers as one
    def tabled(self, a):
        i = a[1]; t = self.l[i].t
        k = a[0]
        if k in ("lput", "lcast"):
            s, v = self.ev(a[3]); key = a[2]
            self.emit("l%d put(%s, %s)" % (i, lit(key), s)); t.d[key] = v
        elif k == "lat": self.say("l%d at(%s)" % (i, lit(a[2])), t.d.get(a[2])) if not nested_table(t.d.get(a[2])) else None
        elif k == "llen": self.say("l%d length" % i, len(t.d))
        elif k in ("lshow",):
            self.tdump("l%d" % i, t)
        elif k in ("lnew", "lpop", "lclone"): self.emit("l%d = (7, 8)" % i); self.l[i] = L([7, 8])
    # -- lists
    def do_lpush(self, i, v): s, m = self.ev(v); self.emit("l%d push(%s)" % (i, s)); self.l[i].v.append(m)
    def do_lpop(self, i):
        l = self.l[i].v; m = l.pop() if l else None
        if nested_table(m): self.emit("l%d pop" % i)
        else: self.say("l%d pop" % i, m)
    def do_lshift(self, i):
        l = self.l[i].v; m = l.pop(0) if l else None
        if nested_table(m): self.emit("l%d shift" % i)
        else: self.say("l%d shift" % i, m)
    def do_lunshift(self, i, v): s, m = self.ev(v); self.emit("l%d unshift(%s)" % (i, s)); self.l[i].v.insert(0, m)
    def do_lput(self, i, x, v):
        l = self.l[i].v; n = len(l); s, m = self.ev(v)
        if x >= n: x = n
        elif x < -n: x = -n if n else 0
        self.emit("l%d put(%s, %s)" % (i, lit(x), s))
        if x == n: l.append(m)
        else: l[x] = m
    def do_lcast(self, i, d, v):
        l = self.l[i]; n = len(l.v); s, m = self.ev(v)
        self.emit("l%d put(%d, %s)" % (i, n + d, s))
        t = T(); t.d = dict(enumerate(l.v)); t.d[n + d] = m; l.t = t; l.v = []
    def do_ldelete(self, i, x):
        l = self.l[i].v; self.emit("l%d delete(%d)" % (i, x))
        if x < len(l): del l[x]
    def do_lremove(self, i, x):
        l = list(self.l[i].v)
        if x < len(l): del l[x]
        if nested_table(self.l[i]): return
        self.say("l%d remove(%d)" % (i, x), L(l))
    def do_lat(self, i, x):
        l = self.l[i].v; m = l[x] if -len(l) <= x < len(l) else None
        if nested_table(m): return
        self.say("l%d at(%s)" % (i, lit(x)) if x % 2 else "l%d(%s)" % (i, lit(x)), m)
    def do_lfl(self, i):
        l = self.l[i].v
        if nested_table(self.l[i]): return
        self.say("l%d first, l%d last" % (i, i), None); self.out[-1] = "(%d, %s, %s)\n" % (self.n, show(l[0] if l else None), show(l[-1] if l else None))
    def do_llen(self, i): self.say("l%d length" % i, len(self.l[i].v))
    def do_lrev(self, i, j):
        if not self.islist(j): return
        self.emit("l%d = l%d reverse" % (i, j)); self.l[i] = L(reversed(self.l[j].v))
    def do_lnrev(self, i): self.emit("l%d nreverse" % i); self.l[i].v.reverse()
    def do_lclone(self, i, j):
        if not self.islist(j): return
        self.emit("l%d = l%d clone" % (i, j)); self.l[i] = L(self.l[j].v)
    def do_lalias(self, i, j): self.emit("l%d = l%d" % (i, j)); self.l[i] = self.l[j]
    def do_lslice(self, i, x, e):
        l = self.l[i].v; n = len(l)
        if nested_table(self.l[i]): return
        a = x if x >= 0 else n + x
        if e is None: b = n - 1
        else:
            b = e if e >= 0 else n + e
            if b < a: a, b = b, a
        a = max(a, 0); r = l[a:b + 1] if b >= a else []
        self.say("l%d slice(%s, %s)" % (i, lit(x), lit(e)), L(r) if r else None)
    def do_lnew(self, i, vs):
        e = [self.ev(v) for v in vs]
        self.emit("l%d = (%s)" % (i, ", ".join(s for s, _ in e)) if len(e) != 1 else "l%d = () push(%s)" % (i, e[0][0])); self.l[i] = L(m for _, m in e)
    def do_lmap(self, i, j, w):
        if not self.islist(j): return
        l = self.l[j].v
        if w == 0: self.emit("l%d = l%d map(x): x." % (i, j)); self.l[i] = L(l)
        elif w == 1: self.emit("l%d = l%d map(x): (x, \"m\")." % (i, j)); self.l[i] = L(L([x, "m"]) for x in l)
        elif w == 2:
            self.emit("l%d = l%d map(x): s0 + \"q\"." % (i, j)); self.l[i] = L(self.s[0] + "q" for x in l)
        elif w == 3 and not nested_table(self.l[j]): self.emit("l%d = l%d map(x): x string." % (i, j)); self.l[i] = L("nil" if x is None else show(x) for x in l)
        elif w == 4: self.emit("l%d = l%d map(x): t0 length." % (i, j)); self.l[i] = L(len(self.t[0].d) for x in l)
    def do_lfilter(self, i, j, w):
        if not self.islist(j): return
        l = self.l[j].v; h = w % 2
        self.emit("l%d = l%d filter(x, n): n %% 2 == %d." % (i, j, h)); self.l[i] = L(x for n, x in enumerate(l) if n % 2 == h)
    def do_lreduce(self, i, j, w):
        if not self.islist(j) : return
        l = self.l[j].v
        if not l or any(not isinstance(x, str) for x in l):
            self.say("l%d map(x): 3. reduce((a, b): a + b., 5)" % j, 5 + 3 * len(l))
        else: self.say("l%d reduce((a, b): a + b., \"r\")" % j, "r" + "".join(l))
    def do_leach(self, i, j, w):
        if not self.islist(j) or i == j or self.l[i] is self.l[j]: return
        src, dst = self.l[j], self.l[i]
        if any(isinstance(x, (L, T)) and reaches(x, dst) for x in src.v): return
        if w % 2: self.emit("l%d each(x): l%d push(x)." % (j, i)); dst.v += src.v
        else: self.emit("l%d push(0)\nl%d each(x, n): l%d put(-1, n), l%d push(x)." % (i, j, i, i)); dst.v.append(0); self._eachput(src, dst)
    def _eachput(self, src, dst):
        for n, x in enumerate(src.v):
            dst.v[-1] = n
            dst.v.append(x)
    def do_lsort(self, i, j, w):
        if not self.islist(j): return
        l = self.l[j].v
        if any(not isinstance(x, int) or abs(x) >= 2 ** 31 or x < 0 and w % 3 == 2 for x in l): return
        self.emit("l%d = l%d sort%s" % (i, j, ["(true)", "(false)", ""][w % 3])); self.l[i] = L(sorted(l, reverse=w % 3 == 1))
    def do_linssort(self, i, j, w):
        l = self.l[i].v
        if any(not isinstance(x, int) or abs(x) >= 2 ** 31 or x < 0 and w % 3 == 2 for x in l): return
        self.emit("l%d ins_sort%s" % (i, ["(true)", "(false)", ""][w % 3])); l.sort(reverse=w % 3 == 1)
        if w % 3 == 2 and l:   # in order now: each is found by halving, and nothing that is not there
            x = l[len(l) * 3 // 5]; self.say("l%d at(l%d bsearch(%d))" % (i, i, x), x)
            if 77 not in l: self.say("l%d bsearch(77)" % i, -1)
    def do_lsortb(self, i, j, w):
        """sorted by a block, which allocates"""
        if not self.islist(j): return
        l = self.l[j].v
        if any(not isinstance(x, int) for x in l): return
        f = "b - a" if w % 3 == 1 else "a - b"; key = (lambda x: -x) if w % 3 == 1 else (lambda x: x)
        b = "(a, b):\n  x = (a, b string)\n  "
        if w < 3: self.emit("l%d = l%d sort(%s%s.)" % (i, j, b, f)); self.l[i] = L(sorted(l, key=key))
        elif len(l): self.emit("l%d ins_sort(%s%s.)" % (j, b, f)); l.sort(key=key)
    def do_ljoin(self, i, j, sep):
        if nested_table(self.l[i]): return
        if len(self.l[i].v) > 30: return
        self.emit("s%d = l%d join(%s)" % (j, i, lit(sep))); self.s[j] = sep.join(show(x) for x in self.l[i].v)
        if len(self.s[j]) > 300: self.emit("s%d = \"cut\"" % j); self.s[j] = "cut"
    def do_lloop(self, i, n, w):
        l = self.l[i].v
        if len(l) > 400: return
        b = ["l%d push(i)", "l%d push(i string)", "l%d push((i, i + 1))"][w] % i
        self.emit("i = 0\nwhile (i < %d):\n  %s\n  i++.\n" % (n, b))
        l += [[x, str(x), L([x, x + 1])][w] for x in range(n)]
    def do_lrange(self, i, a, b, st, w):
        # counted loops: up or down to b, or up in steps, both ends included
        l = self.l[i].v
        if len(l) > 400: return
        body = ["l%d push(i)", "l%d push(i string)", "l%d push((i, i + 1))"][w] % i
        self.emit("%d %s, (i): %s.)" % (a, "step(%d, %d" % (b, st) if st else "to(%d" % b, body))
        rg = range(a, b + 1, st) if st else range(a, b + (1 if b >= a else -1), 1 if b >= a else -1)
        l += [[x, str(x), L([x, x + 1])][w] for x in rg]
    # -- markup (licks)
    def do_mnew(self, i, t):
        def build(n):
            nm, at, inner = n; src = nm; m = [nm, None, None]
            if at is not None: s, v = self.ev(at); src += " (q=%s)" % s; m[1] = v; m.append(1)
            else: m.append(0)
            if inner is None: pass
            elif isinstance(inner[0], str): s, v = self.ev(inner); src += " " + s; m[2] = v
            else:
                kids = [build(k) for k in inner]; src += " [%s]" % ", ".join(k[0] for k in kids); m[2] = [k[1] for k in kids]
            return src, m
        ns = [build(n) for n in t]
        self.emit("m%d = [%s]" % (i, ", ".join(n[0] for n in ns))); self.m[i] = [n[1] for n in ns]
    def do_mshow(self, i):
        def text(m):
            o = m[0]
            if m[2] is not None: o += " " + (m[2] if isinstance(m[2], str) else "[%s]" % ", ".join(text(k) for k in m[2]))
            return o + (" (q=%s)" % show(m[1]) if m[3] else "")
        def walk(m, o):
            o.append(m[0])
            if m[3]: o.append("q"); o.append(m[1])
            if isinstance(m[2], list):
                for k in m[2]: walk(k, o)
            elif m[2] is not None: o.append(m[2])
            o.append("/"); return o
        l = self.m[i]
        if l:
            self.say("m%d(0) string" % i, text(l[0]))
            self.say("mw(m%d(%d), ())" % (i, len(l) - 1), L(walk(l[-1], [])))
        else: self.say("m%d" % i, L([]))
    def do_lpoploop(self, i, n, w):
        l = self.l[i].v
        self.emit("i = 0\nwhile (i < %d):\n  l%d %s\n  i++.\n" % (n, i, ["pop", "shift", "pop"][w]))
        for _ in range(n):
            if l: l.pop(0 if w == 1 else -1)
    def do_lgrow(self, i, n):
        l = self.l[i].v
        if not l or len(l) >= n: return
        self.emit("l%d each(x):\n  if (l%d length < %d): l%d push(x).\n." % (i, i, n, i))
        k = 0
        while k < len(l):
            if len(l) < n: l.append(l[k])
            k += 1
    def do_lnest(self, i, j, w):
        if w == 0:
            if reaches(self.l[j], self.l[i]): return
            self.emit("l%d push(l%d)" % (i, j)); self.l[i].v.append(self.l[j])
        else:
            t = j % NT
            if reaches(self.t[t], self.l[i]): return
            self.emit("l%d push(t%d)" % (i, t)); self.l[i].v.append(self.t[t])
        # deep sharing must not explode when printed
        if self.weight(self.l[i]) > 300: self.emit("l%d = (1, 2)" % i); self.l[i] = L([1, 2])
    def weight(self, v, d=0):
        if d > 12: return 10000
        if isinstance(v, L) and v.t is None:
            s = 1
            for x in v.v:
                s += self.weight(x, d + 1)
                if s > 5000: return s
            return s
        return 1
    def do_lsize(self, i, n): self.emit("l%d = list(%d)" % (i, n)); self.l[i] = L([None] * n)
    def do_lfind(self, i, v):
        s, m = self.ev(v); l = self.l[i].v
        c = sum(1 for x in l if type(x) == type(m) and x == m)
        self.say("l%d filter(x): x == %s. length" % (i, s), c)
    def do_lshow(self, i):
        if self.weight(self.l[i]) > 900: self.say("l%d length" % i, len(self.l[i].v)); return
        if nested_table(self.l[i]): self.say("l%d length" % i, len(self.l[i].v)); return
        self.say("l%d" % i, self.l[i])
    # -- tables
    def do_tput(self, i, k, v): s, m = self.ev(v); self.emit("t%d put(%s, %s)" % (i, lit(k), s)); self.t[i].d[k] = m
    def do_tput2(self, i, k, v): s, m = self.ev(v); self.emit("t%d(%s) = %s" % (i, lit(k), s)); self.t[i].d[k] = m
    def do_trem(self, i, k): self.emit("t%d remove(%s)" % (i, lit(k))); self.t[i].d.pop(k, None)
    def do_tat(self, i, k):
        m = self.t[i].d.get(k)
        if nested_table(m) or self.weight(m) > 900: return
        self.say("t%d at(%s)" % (i, lit(k)) if len(str(k)) % 2 else "t%d(%s)" % (i, lit(k)), m)
    def do_tlen(self, i): self.say("t%d length" % i, len(self.t[i].d))
    def do_tclone(self, i, j): self.emit("t%d = t%d clone" % (i, j)); d = self.t[j].d; self.t[i] = T(); self.t[i].d = dict(d)
    def do_talias(self, i, j): self.emit("t%d = t%d" % (i, j)); self.t[i] = self.t[j]
    def do_tnew(self, i, kvs):
        e = [(k, self.ev(v)) for k, v in kvs]
        self.emit("t%d = (%s)" % (i, ", ".join("%s=%s" % (lit(k), s) for k, (s, m) in e))); self.t[i] = T()
        for k, (s, m) in e: self.t[i].d[k] = m
    def do_tloop(self, i, n, b, w):
        t = self.t[i].d
        s = ["t%d put(i, i string)", "t%d put(\"z\" + i string, i)", "t%d put(i, (i, s0))"][w] % i
        self.emit("i = %d\nwhile (i < %d):\n  %s\n  i++.\n" % (b, b + n, s))
        for x in range(b, b + n):
            if w == 0: t[x] = str(x)
            elif w == 1: t["z%d" % x] = x
            else: t[x] = L([x, self.s[0]])
    def do_tremloop(self, i, n, b, w):
        t = self.t[i].d
        self.emit("i = %d\nwhile (i < %d):\n  t%d remove(%s)\n  i++.\n" % (b, b + n, i, "i" if w != 1 else '"z" + i string'))
        for x in range(b, b + n): t.pop(x if w != 1 else "z%d" % x, None)
    def do_tkeys(self, i):
        d = self.t[i].d; ks = [k for k in d if isinstance(k, int)]
        self.say("t%d keys length" % i, len(d))
        self.say("t%d filter(k): k kind == Number. keys sort(true)" % i, L(sorted(ks)))
    def do_tvals(self, i):
        d = self.t[i].d
        self.say("t%d values length" % i, len(d))
    def do_tmap(self, i, w):
        d = self.t[i].d
        if w % 2: self.say("t%d map(k, v): k string length. sort(true)" % i, L(sorted(len(str(k)) for k in d)))
        else: self.say("t%d map(k): (k, \"m\"). length" % i, len(d))
    def do_tfilter(self, i, w):
        d = self.t[i].d
        if w % 2 == 0:
            self.emit("t%d = t%d filter(k, v): k kind == Number." % (i, i)); self.t[i] = T(); self.t[i].d = {k: v for k, v in d.items() if isinstance(k, int)}
        else:
            self.emit("t%d = t%d filter(k): k string length < 3." % (i, i)); self.t[i] = T(); self.t[i].d = {k: v for k, v in d.items() if len(str(k)) < 3}
    def do_teach(self, i):
        d = self.t[i].d
        self.emit("i = 0\nj = 0\nt%d each(k, v):\n  i++\n  j = j + k string length." % i)
        self.say("i, j", None); self.out[-1] = "(%d, %d, %d)\n" % (self.n, len(d), sum(len(str(k)) for k in d))
    def do_tgrow(self, i, n):
        d = self.t[i].d; c = len(d)
        # entries put while it is iterated: every one of them must be there afterwards
        self.emit("j = 0\nt%d each(k, v):\n  if (j < %d):\n    t%d put(\"g\" + j string, j)\n    j++.\n  ." % (i, n, i))
        self.emit("while (j < %d):\n  t%d put(\"g\" + j string, j)\n  j++.\n" % (n, i))
        for x in range(n): d["g%d" % x] = x
    def do_tslice(self, i, j):
        d = self.t[j].d; ks = [k for k in (0, 1, 2, 3, "k1", "k2", "h") ]
        self.emit("t%d = t%d slice((%s))" % (i, j, ", ".join(lit(k) for k in ks))); self.t[i] = T(); self.t[i].d = {k: d[k] for k in ks if k in d}
    def do_tnest(self, i, j, k):
        if reaches(self.l[j], self.t[i]): return
        self.emit("t%d put(%s, l%d)" % (i, lit(k), j)); self.t[i].d[k] = self.l[j]
    def tdump(self, name, t):
        ks = sorted(t.d, key=lambda k: (isinstance(k, str), k))[:24]
        miss = [k for k in (5, 17, "k3", "nokey") if k not in t.d]
        ks = [k for k in ks if not nested_table(t.d[k]) and self.weight(t.d[k]) < 200]
        e = ks + miss
        self.say("%s length" % name, len(t.d))
        if e: self.say("(%s)" % ", ".join("%s at(%s)" % (name, lit(k)) for k in e) if len(e) > 1 else "() push(%s at(%s))" % (name, lit(e[0])), L(t.d.get(k) for k in e))
    def do_tshow(self, i): self.tdump("t%d" % i, self.t[i])
    # -- strings
    def do_scat(self, i, j, v):
        s, m = self.ev(v)
        if len(self.s[j]) + len(m) > 400: self.emit("s%d = \"cut\"" % i); self.s[i] = "cut"; return
        self.emit("s%d = s%d + %s" % (i, j, s)); self.s[i] = self.s[j] + m
    def do_slice(self, i, j, a, b):
        n = len(self.s[j])
        if not n: return
        a %= n; b = a + b % (n - a + 1)
        if b == a: return
        self.emit("s%d = s%d slice(%d, %d)" % (i, j, a, b)); self.s[i] = self.s[j][a:b]
    def do_sneg(self, i, j, a, b):
        n = len(self.s[j]); a = min(a, n); b = min(b, a - 1)
        if b < 1: return
        self.emit("s%d = s%d slice(%d, %d)" % (i, j, -a, -b)); self.s[i] = self.s[j][n - a:n - b]
    def do_sat(self, i, k):
        n = len(self.s[i])
        if -n <= k < n: self.say("s%d(%d)" % (i, k), self.s[i][k])
        elif k >= n: self.say("s%d(%d) == \"\"" % (i, k), True)
    def do_bops(self, i, o):
        """bytes that grow: the object is moved, every operation has to find where"""
        if len(self.s[i]) > 200: return
        w = self.s[i].encode(); self.emit("b = s%d bytes" % i)
        for x in o:
            if x[0] == "a":
                if len(w) + len(x[1]) * x[2] > 2000: continue
                self.emit("%d times: b append(%s)." % (x[2], lit(x[1]))); w += x[1].encode() * x[2]
            elif x[0] == "ord":
                t = w.decode()
                if x[1] < len(t): self.say("b ord(%d)" % x[1], ord(t[x[1]]))
            elif x[0] == "at":
                t = w.decode()
                if x[1] >= len(w): self.say("b(%d)" % x[1], None)
                elif t.isascii(): self.say("b(%d)" % x[1], t[x[1]])
            elif x[0] == "len": self.say("b length", len(w))
            elif x[0] == "clone":
                self.emit("b2 = b clone\nb2 append(%s)" % lit(x[1])); self.say("b2 length", len(w) + len(x[1].encode())); self.say("b2 string == (b string + %s)" % lit(x[1]), True); self.say("b length", len(w))
            elif x[0] == "each": self.emit("j = 0\nb each (x): j = j + 1."); self.say("j", len(w))
            elif x[0] == "str" and len(w) < 400: self.emit("s%d = b string" % i); self.s[i] = w.decode()
    def do_slen(self, i): self.say("s%d length" % i, len(self.s[i]))
    def do_sord(self, i):
        if self.s[i]: self.say("s%d ord(0)" % i, None); self.out[-1] = "(%d, %d)\n" % (self.n, ord(self.s[i][0]))
    def do_seq(self, i, j): self.say("s%d == s%d" % (i, j), self.s[i] == self.s[j])
    def do_snum(self, i):
        self.emit("s%d = s%d length string" % (i, i)); self.s[i] = str(len(self.s[i])); self.say("s%d number + 1" % i, int(self.s[i]) + 1)
    def do_sjoin(self, i, j):
        if not self.islist(j) or nested_table(self.l[j]) or self.weight(self.l[j]) > 60: return
        self.emit("s%d = l%d string" % (i, j)); self.s[i] = show(self.l[j])
        if len(self.s[i]) > 400: self.emit("s%d = \"cut\"" % i); self.s[i] = "cut"
    def do_sbytes(self, i, j, w, n):
        if len(self.s[j]) + len(w) * n > 400: return
        self.emit("b = s%d bytes\nj = 0\nwhile (j < %d):\n  b append(%s)\n  j++.\n" % (j, n, lit(w)))
        self.emit("s%d = b string" % i); self.s[i] = self.s[j] + w * n
        self.say("b length", len(self.s[i].encode()))
    def do_sset(self, i, w): self.emit("s%d = %s" % (i, lit(w))); self.s[i] = w
    def do_sshow(self, i): self.say("s%d" % i, self.s[i])
    def do_sloop(self, i, n, w):
        if len(self.s[i]) > 200: return
        self.emit("j = 0\nwhile (j < %d):\n  s%d = s%d + %s\n  j++.\n" % (n, i, i, lit(w))); self.s[i] += w * n
    def do_sint(self, i, v): self.emit("s%d = %s string" % (i, lit(v))); self.s[i] = str(v)

def render(ops, wrap=0):
    """(source, expected output). wrap 0: top level, 1: one function's locals, 2: each op in a closure over them."""
    m = Model(); m.start()
    body = []
    for a in ops:
        m.lines = []
        m.op(a)
        body.append(m.lines)
    # the end: everything that is left
    m.lines = []
    for i in range(NL): m.op(["lshow", i])
    for i in range(NT): m.op(["tshow", i])
    for i in range(NS): m.op(["sshow", i])
    body.append(m.lines)
    hd = m.header() + ["i = 0", "j = 0", "b = nil", "b2 = nil"]
    if wrap == 0:
        src = "\n".join(hd + [l for b in body for l in b]) + "\n"
    elif wrap == 1:
        ind = lambda l: "\n".join("  " + x for x in l.split("\n"))
        src = "main = ():\n" + "\n".join(ind(l) for l in hd + [l for b in body for l in b]) + "\n  nil.\nmain()\n"
    else:
        o = list(hd)
        for n, b in enumerate(body):
            for c in range(0, len(b), 8):
                o.append("f = ():\n" + "\n".join("\n".join("  " + x for x in l.split("\n")) for l in b[c:c + 8]) + "\n  nil.\nf()")
        src = "\n".join(o) + "\n"
    return src, "".join(m.out).encode().decode("latin1")
