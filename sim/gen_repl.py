"""Interactive sessions: lines with a model of the definitions in force."""
BAD = ['1 +', '(1,2', '"abc', ')', '(((', '[1', '{', "'", 'x =', '= 5', '.', ';', 'if (true):', 'C class = (:', '1 2 +', '(x): (y): x + y.', '5 say. .', 'F = (x: x.', '"a" + "b', 'class (', '1.5.5', ')(', '"""', 'x = (1, 2', ']', '}']
# fail at run time, or have no value worth the name: whatever is shown, the session goes on
ODD = ['nosuch', '@', '$x', 'nosuch(3)', '3 nosuch', '"abc" nosuch(1)', 'nil length', 'nil foo', '1 at(3)', 'Nosuch(3)', '(1,2) at("a")', '"abc" at(77)', '(1,2) at(-7)', 'nil + 1', '1 + "a"', 'true + 1', '5 + (1,2)', '5()', '"a"(3)', 'nil()', '(k=1) at("z")',
       'load "nosuch"', '10 times: "a" nosuch.', '(1,2) each (x): x nosuch.', '# a comment', '   ', '"(((" eval', '"1 +" eval', '"" eval', 'if (false): 1.', 'while (false): 1.', 'loop: break.', 'a b c d', 'x: 5.', '"%s%d%n" nosuch', 'File', 'Lobby', '1 nosuch nosuch nosuch',
       '"nosuch" eval', '(1,2) nosuch (x): x.', 'nil', 'self', 'Error', 'Number', 'Object']
ERR = [('File("nosuch", "r")', "** Error open: No such file or directory\n"), ('E1 = File("missing", "r")', "** Error open: No such file or directory\n")]
WORDS = ["a", "bc", "some words", "x" * 30, "", "zz9", "say", "(1, 2)", "longer text, with punctuation; and more"]
def q(s): return '"%s"' % s
def show(v):
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, list): return "(" + ", ".join(show(x) for x in v) + ")"
    return str(v)
def lit(v): return "(" + ", ".join(lit(x) for x in v) + ")" if isinstance(v, list) else q(v) if isinstance(v, str) else str(v)
class M:
    """Definitions: global variables V0.., functions F0.., classes K0.., objects O0.., methods of Number and String."""
    def __init__(self): self.v = {}; self.f = {}; self.k = {}; self.o = {}; self.nm = {}; self.sm = {}
    def pick(self, rng, t):
        l = [n for n, v in self.v.items() if type(v) is t]; return rng.choice(l) if l else None
class Fun:
    def __init__(self, kind, k): self.kind = kind; self.k = k
    def call(self, m, x):
        if self.kind == "add": return x + self.k
        if self.kind == "var": return x + m.v[self.k] if type(m.v.get(self.k)) is int else None
        if self.kind == "fact":
            r = 1
            for i in range(2, x + 1): r *= i
            return r
        if self.kind == "list": return [x, self.k, x * 2]
        if self.kind == "str": return "<" + str(x) + ">"
        if self.kind == "comp":
            y = m.f[self.k].call(m, x) if self.k in m.f else None
            return y + 1 if type(y) is int else None
class Cl:
    def __init__(self): self.me = {}
NUM = [0, 1, 2, 3, 7, 10, 100, 255, 1000, 65536, 123456789]
def step(m, rng):
    """One line and what it shows (None: anything on stdout that does not end the session)."""
    r = rng.random(); n = lambda p, k=6: p + str(rng.randrange(k))
    if r < .12: return rng.choice(BAD), "=> nil\n"
    if r < .24: return rng.choice(ODD), None
    if r < .27:
        l, w = rng.choice(ERR); return l, w
    if r < .29: return "", ""
    k = rng.randrange(26)
    if k == 0: a = rng.choice(NUM); b = rng.choice(NUM); o = rng.choice("+-*"); return "%d %s %d" % (a, o, b), "=> %d\n" % {"+": a + b, "-": a - b, "*": a * b}[o]
    if k in (1, 2):
        g = n("V"); v = rng.choice([rng.choice(NUM), rng.choice(WORDS), [rng.choice([rng.choice(NUM), rng.choice(WORDS)]) for _ in range(rng.randrange(1, 6))]]); m.v[g] = v
        return "%s = %s" % (g, lit(v)), "=> %s\n" % show(v)
    if k == 3 and m.v: g = rng.choice(list(m.v)); return g, "=> %s\n" % show(m.v[g])
    if k == 4:
        g = m.pick(rng, int)
        if g and abs(m.v[g]) < 1 << 50: d = rng.choice(NUM[:8]); m.v[g] += d; return "%s = %s + %d" % (g, g, d), "=> %d\n" % m.v[g]
    if k == 5:
        g = m.pick(rng, str)
        if g and len(m.v[g]) < 2000: w = rng.choice(WORDS); m.v[g] += w; return "%s = %s + %s" % (g, g, q(w)), "=> %s\n" % m.v[g]
    if k == 6:
        g = m.pick(rng, list)
        if g and len(m.v[g]) < 60: x = rng.choice([rng.choice(NUM), rng.choice(WORDS)]); m.v[g] = m.v[g] + [x]; return "%s push(%s)" % (g, lit(x)), "=> %s\n" % show(m.v[g])
    if k == 7:
        g = m.pick(rng, list)
        if g: i = rng.randrange(len(m.v[g])); return "%s(%d)" % (g, i) if rng.random() < .5 else "%s at(%d)" % (g, i), "=> %s\n" % show(m.v[g][i])
    if k == 8:
        g = m.pick(rng, list) or m.pick(rng, str)
        if g: return g + " length", "=> %d\n" % len(m.v[g])
    if k in (9, 10):
        g = n("F"); kind = rng.choice(["add", "var", "fact", "list", "str", "comp"]); c = rng.choice(NUM); t = None
        if kind == "var": c = n("V")
        if kind == "comp":
            c = n("F")
            if c == g or any(f.kind == "comp" for f in m.f.values()): kind = "add"; c = 4
        m.f[g] = Fun(kind, c)
        b = {"add": "x + %s" % c, "var": "x + %s" % c, "fact": "if (x < 2): 1. else: x * %s(x - 1)." % g, "list": "(x, %s, x * 2)" % c, "str": "\"<\" + (x string) + \">\"", "comp": "%s(x) + 1" % c}[kind]
        return "%s = (x): %s." % (g, b), "=> function %s(x)\n" % g
    if k in (11, 12) and m.f:
        g = rng.choice(list(m.f)); x = rng.randrange(1, 12); y = m.f[g].call(m, x)
        if y is None: return "\"skip\"", "=> skip\n"
        return "%s(%d)" % (g, x), "=> %s\n" % show(y)
    if k == 13:
        c = n("K", 4); m.k[c] = Cl(); m.o = {o: x for o, x in m.o.items()}; return "%s = class (a): /a = a, /n = 0." % c, "=> %s\n" % c
    if k == 14 and m.k:
        c = rng.choice(list(m.k)); me, b = rng.choice([("get", "/a"), ("bump", "/n = /n + 1, /n"), ("plus", "/a + 5"), ("both", "(/a, /n)")]); m.k[c].me[me] = 1
        return "%s %s = (): %s." % (c, me, b), "=> function %s()\n" % me
    if k == 15 and m.k:
        c = rng.choice(list(m.k)); o = n("O", 4); a = rng.choice(NUM); m.o[o] = [m.k[c], a, 0]; return "%s = %s(%d)" % (o, c, a), "=> <%s ADDR>\n" % c
    if k in (16, 17) and m.o:
        o = rng.choice(list(m.o)); ob = m.o[o]; me = rng.choice(["get", "bump", "plus", "both"])
        if me not in ob[0].me: return "%s %s" % (o, me), None
        if me == "bump": ob[2] += 1
        return "%s %s" % (o, me), "=> %s\n" % show({"get": ob[1], "bump": ob[2], "plus": ob[1] + 5, "both": [ob[1], ob[2]]}[me])
    if k == 18 and m.o: o = rng.choice(list(m.o)); return "%s /a" % o, "=> %d\n" % m.o[o][1]
    if k == 19:
        c = rng.choice(NUM[:7]); m.nm["add" + str(c)] = c; return "Number add%d = (): self + %d." % (c, c), "=> function add%d()\n" % c
    if k == 20 and m.nm: a = rng.choice(list(m.nm)); x = rng.choice(NUM); return "%d %s" % (x, a), "=> %d\n" % (x + m.nm[a])
    if k == 21: w = rng.choice(WORDS); return q(w) + (" say" if rng.random() < .5 else " print"), None if not w else None
    if k == 22:
        g = n("V"); v = rng.choice(NUM); m.v[g] = v; return "\"%s = %d\" eval" % (g, v), "=> %d\n" % v
    if k == 23:
        a, b = rng.randrange(1, 40), n("V"); m.v[b] = sum(range(a)); return "%s = 0, %d times (i): %s = %s + i., %s" % (b, a, b, b, b), "=> %d\n" % m.v[b]
    if k == 24: a = rng.randrange(1, 200); return "l = (), %d times (i): l push(\"s\" + (i string))., l length" % a, "=> %d\n" % a
    if k == 25: g = m.pick(rng, int); w = rng.choice(WORDS[:3]); return ("if (%s > 100): %s. else: \"no\"." % (g, q(w)), "=> %s\n" % (w if m.v[g] > 100 else "no")) if g else ("1 == 1", "=> true\n")
    return "\"tick\"", "=> tick\n"
def gen(rng, n):
    """A list of [line, expected]; lines with open outcome are followed by a mark."""
    m = M(); L = []
    for i in range(n):
        l, w = step(m, rng); L.append([l, w])
    return L
