"""Programs that print and read: what they print to the last byte follows from their text and their input."""
from gen_strings import *
WORDS = ["", "a", "bc", "one two", "0", "-", "é", "日本語", "ñandú", "tab\\tbed", "quote", "x" * 60]
OUTW = {"tab\\tbed": "tab\tbed"}
LONGS = [100, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000, 20000]
def word(rng): return rng.choice(WORDS)
def gen(rng, n):
    ops = []
    for _ in range(n):
        k = rng.choice(["str", "str", "str", "num", "list", "bytes", "loop", "fun", "each", "eval", "mod", "meth", "read", "read", "read", "rest", "long", "tuple", "join", "nl", "bool", "obj", "exit", "miss"])
        how = rng.choice(["say", "print"])
        if k in ("str", "bytes", "eval"): ops.append([k, word(rng), how])
        elif k == "num": ops.append([k, rng.choice([0, 1, 7, 10, 99999, 2**31, 2**40]), how])
        elif k in ("list", "tuple", "each", "join"): ops.append([k, [rng.choice([rng.randrange(1000), word(rng)]) for _ in range(rng.choice([1, 2, 5, 30, 300] if rng.random() < .5 else [1, 2, 5]))], how])
        elif k == "loop": ops.append([k, rng.choice([1, 3, 20, 300, 2000]), word(rng), how])
        elif k in ("fun", "meth"): ops.append([k, rng.choice([1, 3, 20, 100]), word(rng), how])
        elif k == "mod": ops.append([k, rng.randrange(3), word(rng), how])
        elif k == "long": ops.append([k, rng.choice(LONGS) if rng.random() < .4 else size(rng, 20000), rng.choice("abc"), how])
        elif k == "read": ops.append([k, rng.choice([1, 1, 2, 5])])
        elif k == "exit":
            if rng.random() < .06: ops.append([k, rng.randrange(2)])
        else: ops.append([k, how])
    return ops
def stdin(rng):
    L = []
    for _ in range(rng.choice([0, 1, 2, 5, 20, 100])):
        L.append(bytes(rng.choice(b"abcdefgh ,.:\t\r\x01\x80\xff\xc3\xa9") for _ in range(rng.choice([0, 1, 3, 20, 80] if rng.random() < .85 else [1021, 1022, 1023, 1024, 2045, 2046, 2047, 5000]))) + b"\n")
    s = b"".join(L)
    return s[:-1] if s and rng.random() < .3 else s
def pieces(s):
    """As read gives them: a line, or 1023 bytes of it."""
    i = 0
    while i < len(s):
        j = s.find(b"\n", i); e = min(len(s) if j < 0 else j + 1, i + 1023); yield s[i:e]; i = e
def q(w): return '"%s"' % w
def e(w): return OUTW.get(w, w).encode()
def render(ops, sin, wrap):
    out = b""; L = []; mods = {}; P = pieces(sin)
    nl = lambda how: b"\n" if how == "say" else b""
    for i, o in enumerate(ops):
        k = o[0]; how = o[-1]
        if k == "str": s = ["%s %s" % (q(o[1]), how)]; out += e(o[1]) + nl(how)
        elif k == "bytes": s = ["x = %s bytes" % q(o[1]), "x %s" % how]; out += e(o[1]) + nl(how)
        elif k == "num": s = ["%d %s" % (o[1], how)]; out += str(o[1]).encode() + nl(how)
        elif k == "bool": s = ["x = (1 == 1)", "y = 1 == 1", "if (y): \"T\" %s." % how]; out += b"T" + nl(how)
        elif k == "nl": s = ['"\\n" %s' % how]; out += b"\n" + nl(how)
        elif k in ("list", "tuple", "each", "join"):
            t = "(" + ", ".join(q(x) if isinstance(x, str) else str(x) for x in o[1]) + ")"; v = [e(x) if isinstance(x, str) else str(x).encode() for x in o[1]]
            s = ["x = " + t]
            if k == "list": s += ["x string %s" % how]; out += b"(" + b", ".join(v) + b")" + nl(how)
            elif k == "tuple": s += ["x print"]; out += b"".join(v)
            elif k == "each": s += ["x each (z):", "  z %s" % how, "."]; out += b"".join(a + nl(how) for a in v)
            else: s += ["y = x join(\"--\")", "y %s" % how]; out += b"--".join(v) + nl(how)
        elif k == "loop": s = ["j = 0", "while (j < %d):" % o[1], "  %s print" % q(o[2]), "  j %s" % how, "  j = j + 1", "."]; out += b"".join(e(o[2]) + str(j).encode() + nl(how) for j in range(o[1]))
        elif k == "fun": s = ["r = (n):", "  n print", "  if (n > 0): r(n - 1).", "  %s %s" % (q(o[2]), how), "  nil.", "r(%d)" % o[1]]; out += b"".join(str(n).encode() for n in range(o[1], -1, -1)) + (e(o[2]) + nl(how)) * (o[1] + 1)
        elif k == "meth": s = ["C = class (p): /i = p.", "C out = (n):", "  /i print", "  n %s." % how, "c = C(%s)" % q(o[2])] + ["c out(%d)" % j for j in range(min(o[1], 5))]; out += b"".join(e(o[2]) + str(j).encode() + nl(how) for j in range(min(o[1], 5)))
        elif k == "eval": s = ["x = \"\\\"%s\\\" %s\\n\" eval" % (o[1].replace("\\", "\\\\"), how)]; out += e(o[1]) + nl(how)
        elif k == "mod":
            m = "m%d" % o[1]; mods.setdefault(m, (o[2], how)); w, h = mods[m]
            s = ['load "%s"' % m]; out += e(w) + nl(h) + b"%d\n" % o[1]
        elif k == "long": s = ["x = \"%s\" * %d" % (o[2], o[1]) if 0 else "x = \"%s\"" % (o[2] * o[1]), "x %s" % how]; out += o[2].encode() * o[1] + nl(how)
        elif k == "obj": s = ["x = ((1, \"in\"), 2)", "x string %s" % how]; out += b"((1, in), 2)" + nl(how)
        elif k == "read":
            s = []
            for _ in range(o[1]):
                s += ["x = read", "if (x == nil): \"nil\" say", ". else: \"<\" print", "  x print", "  \">\" say", "."]
                p = next(P, None); out += b"nil\n" if p is None else b"<" + p + b">\n"
        elif k == "rest":
            s = ["x = read", "while (x != nil):", "  \"[\" print", "  x print", "  \"]\" print", "  x = read", "."]; out += b"".join(b"[" + p + b"]" for p in P)
        elif k == "miss": s = ['load "nosuch"']
        elif k == "exit":
            L.append('load "mbad"' if o[1] else 'exit()'); return "\n".join(L) + "\n", out, mods, "exit %d" % o[1]
        if wrap and k not in ("mod",): L += ["g%d = ():" % i] + ["  " + x for x in s] + ["  nil.", "g%d()" % i]
        else: L += s
    return "\n".join(L) + "\n", out, mods, "exit 0"
