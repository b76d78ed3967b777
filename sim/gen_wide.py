"""Programs with many of one thing in one function: constants, names, functions, parameters, arguments, captured variables, elements, statements; sizes around those where encodings change."""
KINDS = ["ints", "strs", "dbls", "funs", "locals", "upv", "args", "args", "meth", "named", "list", "table", "ivars", "block", "chain", "longstr"]
def size(rng, k):
    if k in ("args", "meth", "named"): return rng.choice([rng.randrange(1, 40), rng.randrange(1, 40), rng.randrange(40, 125), rng.choice([125, 126, 127, 128, 129, 130, 200, 250])])
    if k == "longstr": return rng.choice([255, 256, 4095, 4096, 65534, 65535, 65536, 70000])
    if k == "ivars": return rng.choice([rng.randrange(1, 40), 126, 127, 128, 200])
    return rng.choice([rng.randrange(1, 40), rng.randrange(40, 130), rng.choice([14, 15, 29, 30, 126, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256, 257, 300, 520])])
def gen(rng, n):
    o = []
    for _ in range(min(n, 3)):
        k = rng.choice(KINDS); o.append([k, size(rng, k), rng.randrange(1000), rng.randrange(3)])
    return o
def lines(j, k, n, s, v):
    a = ", ".join; R = range(n); x = s % n; val = lambda i: ["%d" % (i * 7 + s), '"w%d"' % (i + s), "%d.%d" % (i, s + 1)][v]; p = "p%d_" % j
    if k == "ints": return ["t = 0"] + ["t = t + %d" % (100000000000 + 3 * i) for i in R]
    if k == "strs": return ["t = ()"] + ['t push("k%d_%d")' % (s, i) for i in R]
    if k == "dbls": return ["t = 0.5"] + ["t = t + (%d.12345678901234567 - %d.12345678901234512) * 1000000000000000.0" % (i, i) for i in R]
    if k == "funs": return ["t = 0"] + [y for i in R for y in ("%s%d = (x): x + %d." % (p, i, i + s), "t = %s%d(t)" % (p, i))]
    if k == "locals": return ["%sf = (q):" % p] + ["  %s%d = q + %d" % (p, i, i) for i in R] + ["  (%s)." % a("%s%d" % (p, i) for i in sorted({0, x, n - 1})), "t = %sf(%d)" % (p, s)]
    if k == "upv": return ["%sm = ():" % p] + ["  %s%d = %s" % (p, i, val(i)) for i in R] + ["  g = ():", "    u = ()"] + ["    u push(%s%d)" % (p, i) for i in R] + ["    %s%d = %d" % (p, x, s), "    u.", "  y = g()", "  y push(%s%d)" % (p, x), "  y.", "t = %sm()" % p]
    prm = a("%s%d" % (p, i) for i in R); body = "(%s)" % a("%s%d" % (p, i) for i in sorted({0, x, n // 2, n - 1})) if s % 3 else "(%s)" % prm
    if k == "args": return ["%sf = (%s): %s." % (p, prm, body), "t = %sf(%s)" % (p, a(map(val, R)))]
    if k == "named":
        c = s % n; o = list(range(c, n)); o = o[s % len(o):] + o[:s % len(o)]
        return ["%sf = (%s): %s." % (p, prm, body), "t = %sf(%s)" % (p, a([val(i) for i in range(c)] + ["%s%d=%s" % (p, i, val(i)) for i in o]))]
    if k == "meth": return ["C%d = class (q): /q = q, self." % j, "C%d mm = (%s): (/q, %s)." % (j, prm, body), "o%d = C%d(%d)" % (j, j, s), "t = o%d mm(%s)" % (j, a(map(val, R)))]
    if k == "list": return ["t = (%s)" % a(map(val, R))]
    if k == "table": return ["t = (%s)" % a('"k%d"=%s' % (i, val(i)) for i in R), "t = (t length, t at(\"k%d\"), t at(\"k0\"))" % x]
    if k == "ivars": return ["C%d = class (%s):" % (j, prm)] + ["  /%s%d = %s%d" % (p, i, p, i) for i in R] + ["  self.", "C%d sm = (): (%s)." % (j, a("/%s%d" % (p, i) for i in R)), "o%d = C%d(%s)" % (j, j, a(map(val, R))), "t = o%d sm" % j]
    if k == "block": return ["t = 0", "3 times (i%d):" % j] + ["  t = t + i%d + %d" % (j, i) for i in R] + ["  t."]
    if k == "chain": return ["t = 0", "4 times (i%d):" % j, "  if (i%d == 99): t = t + 1." % j] + ["  elsif (i%d == %d): t = t + %d." % (j, 100 + i, i) for i in range(min(n, 200))] + ["  else: t = t + i%d.." % j]
    return ['t = "%s"' % ("abcdefghi" * (n // 9 + 1))[:n], "t = (t length, t slice(%d, 5), t at(%d))" % (n - 6, x)]
def render(ops, wrap):
    L = []
    for j, o in enumerate(ops):
        b = lines(j, *o)
        L += (["w%d = ():" % j] + ["  " + y for y in b] + ["  t.", "t = w%d()" % j] if wrap else b) + ["(%d, t) say" % j]
    return "\n".join(L) + "\n", None
