"""Histories over File objects, rendered as a program that reports every result, and checked against a model of files, offsets and modes."""
import re, struct
CH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:"
MODES = ["r", "r+", "w", "w+", "a", "a+"]
PATHS = ["f1", "f2", "f3", "sub/g"]
def text(rng, n): return "".join(rng.choice(CH) for _ in range(n))
def gen(rng, n):
    ops = []
    for _ in range(n):
        r = rng.random(); h = rng.randrange(3)
        if r < .2 or not ops: ops.append(["open", h, rng.choice(PATHS[:3] if rng.random() < .9 else PATHS), rng.choice(MODES) if rng.random() < .96 else "x"])
        elif r < .5:
            k = rng.choice(["s", "s", "s", "b", "b", "i", "t", "n", "d"])
            ops.append(["write", h, k, text(rng, rng.choice([0, 1, 3, 10, 40, 300])) if k in "sb" else rng.choice([0, 1, -1, 5, 255, 65536, -70000, 2**40]) if k == "i" else rng.choice([True, False]) if k == "t" else rng.choice([0.5, 1.25, 100.75]) if k == "d" else None])
        elif r < .82: ops.append(["read", h, rng.choice([0, 1, 2, 3, 7, 8, 20, 100, 1000, 5000])])
        elif r < .9: ops.append(["close", h])
        elif r < .97: ops.append(["print", rng.choice([["s", text(rng, rng.randrange(0, 200))], ["i", rng.randrange(-1000, 10**9)], ["l", [rng.randrange(100) for _ in range(rng.randrange(2, 20))]]])])
        else: ops.append(["garbage"])
    return ops
def initial(rng):
    return [[p, text(rng, rng.choice([0, 1, 5, 50, 500, 5000]))] for p in PATHS[:3] if rng.random() < .7]
def render(ops, wrap):
    L = ["h0 = nil", "h1 = nil", "h2 = nil",
         "sv = (x):", "  if (x == nil): \"nil\" say", "  . else:", "    if (x kind == Error): \"E\" say", "    . else:", "      \"V\" print", "      x say", "    .", "  .", "  nil.",
         "sb = (x):", "  if (x == nil): \"nil\" say", "  . else:", "    if (x kind == Error): \"E\" say", "    . else:", "      \"B\" print", "      x length say", "      x print", "      \"\\n\" print", "    .", "  .", "  nil.",
         "so = (x):", "  if (x == nil): \"nil\" say", "  . else:", "    if (x kind == Error): \"E\" say", "    . else:", "      \"O\" say", "    .", "  .", "  nil.",
         "pr = File(\"pr\", \"a\")", "so(pr)"]
    for i, o in enumerate(ops):
        k = o[0]
        if k == "open": s = ['h%d = File("%s", "%s")' % (o[1], o[2], o[3]), "so(h%d)" % o[1]]
        elif k == "write":
            v = '"%s"' % o[3] if o[2] == "s" else '"%s" bytes' % o[3] if o[2] == "b" else "nil" if o[2] == "n" else "true" if o[3] is True else "false" if o[3] is False else str(o[3])
            if o[2] == "b":
                # bytes that have grown: the object has moved, and its name points to where it was
                t = o[3]; c = len(t) // 3 if len(t) % 2 and "\\" not in t else len(t)
                s = ['w = "%s" bytes' % t[:c]] + ['w append("%s")' % x for x in (t[c:2 * c + 1], t[2 * c + 1:]) if c < len(t) and x] + ["r = h%d write(w)" % o[1], "sv(r)"]
            else: s = ["r = h%d write(%s)" % (o[1], v), "sv(r)"]
        elif k == "read": s = ["r = h%d read(%d)" % (o[1], o[2]), "sb(r)"]
        elif k == "close": s = ["h%d close" % o[1], "\"C\" say"]
        elif k == "print":
            t, v = o[1]
            e = '"%s"' % v if t == "s" else str(v) if t == "i" else "(%s)" % ", ".join(map(str, v))
            s = ["v = %s" % e, "r = pr print(v)", "so(r)"]
        elif k == "garbage": s = ["(1, (2, \"g%d\")) string length" % i]
        cond = None
        if k in ("write", "read", "close"): cond = "h%d" % o[1]
        if k == "print": cond = "pr"
        if cond:  # only when there is a file there
            s = ["if (%s kind == File):" % cond] + ["  " + x for x in s] + [". else: \"-\" say", "."]
        if wrap: L += ["g%d = ():" % i] + ["  " + x for x in s] + ["  nil.", "g%d()" % i]
        else: L += s
    return "\n".join(L + ['"end" say']) + "\n"
class Bad(Exception): pass
def value(o):
    k, v = o[2], o[3]
    if k in "sb": return v.encode()
    if k == "i": return struct.pack("<q", v)
    if k == "t": return b"\1" if v else b"\0"
    if k == "d": return struct.pack("<d", v)
def check(ops, init, r, err_ok, short_ok, dirs=("/work",)):
    """Walks the reported results. err_ok: how many calls failed by injection; short_ok: how many came up short."""
    out = r.out; pos = 0
    def line():
        nonlocal pos
        e = out.find(b"\n", pos)
        if e < 0: raise Bad("the program stopped early, ending %s: %s" % (r.ending, r.err[-200:].decode("latin1")))
        l = out[pos:e]; pos = e + 1; return l.decode("latin1")
    files = {p: bytearray(t.encode()) for p, t in init}
    H = [None] * 3; errs = 0; shorts = 0; prpat = b""
    l = line(); pr = l == "O"
    if l not in ("O", "E"): raise Bad("opening pr: " + l)
    if l == "E": errs += 1
    for i, o in enumerate(ops):
        k = o[0]; w = "operation %d %s: " % (i, o)
        if k == "garbage": continue
        if k == "open":
            l = line(); _, h, p, m = o; old = H[h]; H[h] = None
            must_fail = m == "x" or (m in ("r", "r+") and p not in files) or (p.startswith("sub/"))
            if m == "x":
                if l != "nil": raise Bad(w + "a mode there is not gave " + l)
                continue
            if l == "O":
                if must_fail: raise Bad(w + "succeeded, there is no such file")
                if m[0] == "w": files[p] = bytearray()
                files.setdefault(p, bytearray())
                H[h] = [p, m, 0, True]
            elif l == "E":
                if not must_fail: errs += 1
                H[h] = None
            else: raise Bad(w + "gave " + l)
            continue
        if k == "print":
            l = line(); t, v = o[1]
            b = (v if t == "s" else str(v) if t == "i" else "(" + ", ".join(map(str, v)) + ")").encode()
            if not pr:
                if l != "-": raise Bad(w + "gave " + l)
                continue
            if l == "O": prpat += re.escape(b)
            elif l == "E":
                errs += 1
                e = b""
                prpat += b"(?:" + b"|".join(re.escape(b[:j]) for j in range(len(b), -1, -1)) + b")"
            else: raise Bad(w + "gave " + l)
            continue
        f = H[o[1]]
        if f is None:
            l = line()
            if l != "-": raise Bad(w + "there is no file there, it gave " + l)
            continue
        p, m, off, opened = f
        if k == "close":
            l = line(); f[3] = False
            if l != "C": raise Bad(w + "gave " + l)
        elif k == "write":
            l = line(); v = value(o) if o[2] != "n" else None
            if v is None:
                if l != "nil": raise Bad(w + "nil gave " + l)
                continue
            cannot = m == "r" or not opened
            if l == "E":
                if not cannot: errs += 1
                continue
            if not re.fullmatch("V-?[0-9]+", l): raise Bad(w + "gave " + l)
            n = int(l[1:])
            if cannot: raise Bad(w + "reported %d written on a file that cannot be written" % n)
            if n < 0 or n > len(v): raise Bad(w + "reported %d of %d bytes" % (n, len(v)))
            if n < len(v): shorts += 1
            d = files[p]
            if m[0] == "a": off = len(d)
            if off > len(d) and n: d.extend(b"\0" * (off - len(d)))
            d[off:off + n] = v[:n]; f[2] = off + n
        elif k == "read":
            l = line(); n = o[2]; cannot = m in ("w", "a") or not opened
            d = files[p]
            if l == "E":
                if not cannot: errs += 1
                continue
            if l == "nil":
                if cannot: raise Bad(w + "nil from a file that cannot be read")
                if n == 0 or off < len(d): raise Bad(w + "nil at offset %d of %d" % (off, len(d)))
                continue
            if not re.fullmatch("B[0-9]+", l): raise Bad(w + "gave " + l)
            z = int(l[1:]); b = out[pos:pos + z]; pos += z + 1
            if cannot and n: raise Bad(w + "read %d bytes from a file that cannot be read" % z)
            if n == 0:
                if z: raise Bad(w + "read %d bytes" % z)
                continue
            want = bytes(d[off:off + z])
            if z > n or b != want or z == 0: raise Bad(w + "gave %d bytes %r, the file has %r at %d" % (z, b[:60], bytes(d[off:off + n])[:60], off))
            if z < n and off + z < len(d): shorts += 1
            f[2] = off + z
    l = line()
    if l != "end": raise Bad("at the end: " + l)
    if out[pos:]: raise Bad("more output: %r" % out[pos:pos + 60])
    for p, d in files.items():
        g = r.files.get("/work/" + p)
        if g is None: raise Bad("file %s is not there" % p)
        if g != bytes(d): raise Bad("file %s holds %d bytes %r, reported written %d bytes %r" % (p, len(g), g[:80], len(d), bytes(d[:80])))
    if pr and not re.fullmatch(prpat, r.files.get("/work/pr", b""), re.S): raise Bad("what was printed to a file: it holds %r" % r.files.get("/work/pr", b"")[:100])
    if errs > err_ok: raise Bad("%d operations returned an Error, %d calls failed" % (errs, err_ok))
    if shorts > short_ok: raise Bad("%d transfers came up short, %d calls did" % (shorts, short_ok))
