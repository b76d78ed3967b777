"""Programs over numbers, comparisons, logic and control flow, for comparing the engines with each other. No model: an op is a statement, any sub-list is a program again."""
NI, ND, NB, NS = 5, 3, 3, 2
BIG = [(1 << 61) - 1, 1 << 61, (1 << 62) - 1, -(1 << 61)]
INTS = [0, 1, 2, 3, 5, 7, 10, 24, 50, 100, 255, 256, 2047, 2048, 2072, 4095, 4096, 65535, 65536, 1 << 20, (1 << 31) - 1, 1 << 31, 1 << 33]
DBLS = ["0.5", "1.5", "2.25", "3.0", "100.125", "0.001", "12345.678", "1.1"]

def P(e): return e if e.replace("_", "").isalnum() else "(%s)" % e          # an operand: parenthesised unless a name or a number (a parenthesised whole value would be a one-element list)
def iexp(rng, d=0):
    """an expression without parentheses around it"""
    r = rng.random(); sub = lambda: P(iexp(rng, d + 1))
    if d > 3 or r < .25: return "i%d" % rng.randrange(NI)
    if r < .40: return str(rng.choice(INTS))
    if r < .42: return "1 << %d" % rng.randrange(30, 62)
    if r < .64: return "%s %s %s" % (sub(), rng.choice("+-"), sub())
    if r < .70: return "(%s %% 1000) * (%s %% 1000)" % (sub(), sub())
    if r < .75: return "%s / %d" % (sub(), rng.choice([1, 2, 3, 7, 10]))
    if r < .80: return "%s %% %d" % (sub(), rng.choice([2, 3, 7, 10, 255]))
    if r < .86: return "(%s %% 1000) << %d" % (sub(), rng.randrange(0, 8))
    if r < .88: return "%s >> %d" % (sub(), rng.randrange(0, 8))
    if r < .90: return "%s %% -%d" % (sub(), rng.choice([2, 3, 7, 10, 255]))
    if r < .905: return "(%s %% 20) ** %d" % (sub(), rng.randrange(0, 7))
    if r < .915:                         # nested calls, past the registers reachable with a short displacement
        n = rng.randrange(6, 12); return "f3(" * n + iexp(rng, 4) + ")" * n
    if r < .93: return "f4(%s)" % args(rng, d, "abcdef", 6)
    if r < .945: return "f5(%s)" % args(rng, d, "xyzq", rng.randrange(1, 5))
    if r < .955: return "f6(%s %% 40)" % P(iexp(rng, 3))
    if r < .975: return "f%d(%s, %s)" % (rng.randrange(3), iexp(rng, d + 1), iexp(rng, d + 1))
    return "s%d length" % rng.randrange(NS)
def args(rng, d, names, n):
    """n arguments, some calls naming the last ones, in any order; now and then a deep nest of such calls"""
    a = [iexp(rng, d + 2) for _ in range(n)]
    if rng.random() < .5: return ", ".join(a)
    k = rng.randrange(n); t = ["%s=%s" % p for p in zip(names[k:], a[k:])]; rng.shuffle(t)
    for _ in range(rng.choice([0, 0, 0, 3, 6])): t = ["%s=f1(y=%s, x=%s)" % (names[k], t[[x[0] for x in t].index(names[k])][2:], rng.choice(INTS))] + [x for x in t if x[0] != names[k]]
    return ", ".join(a[:k] + t)
def dexp(rng, d=0):
    r = rng.random(); sub = lambda: (lambda e: e if e.replace(".", "").isalnum() else "(%s)" % e)(dexp(rng, d + 1))
    if d > 3 or r < .35: return "d%d" % rng.randrange(ND)
    if r < .6: return rng.choice(DBLS)
    if r < .85: return "%s %s %s" % (sub(), rng.choice("+-*"), sub())
    if r < .90: return "%s / %s" % (sub(), rng.choice(DBLS))
    if r < .91: return "d0 / (d1 - d1)"                    # a nan or an infinity
    if r < .93: return "(%s %% 9) * %d" % (P(iexp(rng, 3)), rng.choice(BIG[:3]))
    if r < .94: return "%s ** 2" % sub()
    if r < .95: return "%s sqrt" % rng.choice(["i%d" % rng.randrange(NI), "d%d" % rng.randrange(ND)])
    return "%s + %s" % (sub(), P(iexp(rng, d + 2)))
def bexp(rng, d=0):
    r = rng.random()
    if r < .2: return "b%d" % rng.randrange(NB)
    if r < .65: return "%s %s %s" % (P(iexp(rng, d + 1)), rng.choice(["<", ">", "<=", ">=", "==", "!="]), P(iexp(rng, d + 1)))
    if r < .67: n = rng.randrange(6, 10); return "f7(" * n + "%s < %s" % (P(iexp(rng, 4)), P(iexp(rng, 4))) + ")" * n
    if r < .76: return "%s %s %s" % (dexp(rng, 9), rng.choice(["<", ">", "<=", ">="]), dexp(rng, 9))
    if r < .90: return "b%d %s b%d" % (rng.randrange(NB), rng.choice(["and", "or"]), rng.randrange(NB))
    if r < .94: return "not b%d" % rng.randrange(NB)
    if r < .95: return "%s %s?" % (rng.choice(["i%d" % rng.randrange(NI), "d%d" % rng.randrange(ND)]), rng.choice(["integer", "double", "number"]))
    return "s0 == s1"
def stmt(rng, d=0, loop=False):
    """lines of one statement"""
    r = rng.random(); I = lambda: "i%d" % rng.randrange(NI)
    if d >= 3 or r < .40:
        k = rng.randrange(8)
        if k < 3: return ["%s = %s" % (I(), iexp(rng))]
        if k == 3: return ["d%d = %s" % (rng.randrange(ND), dexp(rng))]
        if k == 4: return ["b%d = %s" % (rng.randrange(NB), bexp(rng))]
        if k == 5:
            opa = lambda: "%s %s %s" % ((I(),) + rng.choice([("+=", iexp(rng, 2)), ("-=", iexp(rng, 2)), ("%=", "1000"), ("/=", rng.choice("1237")), (">>=", rng.choice("0128")), ("<<=", rng.choice("012"))]))
            if rng.random() < .7: return [opa()]
            # the same on a variable of the enclosing scope
            t = "e%d" % rng.randrange(100); v = I()
            return ["%s = (x):" % t, "  " + opa(), "  " + opa(), "  %s += x" % v, "  %s." % v, "%s = %s(%s)" % (I(), t, iexp(rng, 3)), "%s = %s(%s)" % (I(), t, iexp(rng, 3))]
        if k == 6: return ["s%d = %s string" % (rng.randrange(NS), P(iexp(rng, 2)))]
        return [I() + rng.choice(["++", "--"])]
    if r < .55: return ["(%s, %s) say" % (rng.randrange(1000), rng.choice([iexp, dexp, bexp])(rng))]
    blk = lambda lp=loop: [("  " + l) for _ in range(rng.randrange(1, 4)) for l in stmt(rng, d + 1, lp)]
    if r < .72:
        o = ["if (%s):" % bexp(rng)] + blk()
        n = rng.randrange(3); o[-1] += "."
        for _ in range(n - 1): o += ["elsif (%s):" % bexp(rng)] + blk(); o[-1] += "."
        if n: o += ["else:"] + blk(); o[-1] += "."
        return o
    if r < .84:
        v = "w%d" % d
        o = ["%s = 0" % v, "while (%s < %d):" % (v, rng.randrange(1, 6)), "  %s++" % v]
        if rng.random() < .25: o += ["  if (%s): %s." % (bexp(rng, 2), rng.choice(["break", "continue"]))]
        o += blk(True); o[-1] += "."
        return o
    if r < .90:
        o = ["%d times (k%d):" % (rng.randrange(0, 5), d)] + blk(False); o[-1] += "."
        return o
    if r < .94:
        o = ["(%s) each (k%d):" % (", ".join(iexp(rng, 3) for _ in range(3)), d)]
        o += blk(False) + ["  %s = k%d" % (I(), d)]; o[-1] += "."
        return o
    if r < .955:                                           # a block called from C, calling with many arguments
        o = ["(%s) each (k%d):" % (", ".join(iexp(rng, 4) for _ in range(3)), d), "  %s = f4(k%d, %s)." % (I(), d, ", ".join(iexp(rng, 4) for _ in range(5)))]
        return o
    if r < .965:                                           # a function with many locals
        n = rng.randrange(12, 30); t = "u%d" % rng.randrange(100)
        return ["%s = (x):" % t] + ["  v%d = x + %d" % (j, j) for j in range(n)] + ["  v0 + v%d - v%d." % (n // 2, n - 1), "%s = %s(%s)" % (I(), t, iexp(rng, 3))]
    n = rng.randrange(3)
    o = ["f%d = (x, y):" % n, "  z = %s" % iexp_fn(rng)]
    if rng.random() < .5: o += ["  if (x < y): z = %s." % iexp_fn(rng, 2)]
    o += ["  z."]
    return o
def iexp_fn(rng, d=1):
    r = rng.random()
    if d > 3 or r < .4: return rng.choice("xy")
    if r < .5: return str(rng.choice(INTS))
    if r < .9: return "%s %s %s" % (P(iexp_fn(rng, d + 1)), rng.choice("+-"), P(iexp_fn(rng, d + 1)))
    return "%s %% %d" % (P(iexp_fn(rng, d + 1)), rng.choice([3, 10, 100]))
def gen(rng, n): return [stmt(rng) for _ in range(n)]
def render(ops, wrap=0):
    hd = ["i%d = %d" % (i, 3 * i + 1) for i in range(NI)] + ["d%d = %d.5" % (i, i) for i in range(ND)] + ["b%d = %s" % (i, "true" if i % 2 else "false") for i in range(NB)] + ["s%d = \"t%d\"" % (i, i) for i in range(NS)]
    hd += ["f0 = (x, y): x + y.", "f1 = (x, y): x - y.", "f2 = (x, y): if (x > y): x. else: y..",
        "f3 = (x): x - 3.", "f4 = (a, b, c, d, e, f): a + b - c + d - e + f.", "f5 = (x, y:=7, z:=-2147483650, q:=100): (x - y) + (z - q).", "f6 = (n, k:=2): if (n > 40): k. elsif (n > 0): f6(n - 1) + k. else: k..", "f7 = (x): x."]
    ls = hd + [l for o in ops for l in o] + ["(%s) say" % ", ".join(["i%d" % i for i in range(NI)] + ["d%d" % i for i in range(ND)] + ["b%d" % i for i in range(NB)] + ["s%d" % i for i in range(NS)])]
    if wrap: return "main = ():\n" + "\n".join("  " + l for l in ls) + "\n  nil.\nmain()\n", None
    return "\n".join(ls) + "\n", None
