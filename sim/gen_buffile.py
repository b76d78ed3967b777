"""Histories over BufFile objects, rendered as a program that reports every result, and checked against a model of files, stream positions, end-of-file flags and modes."""
import re
from gen_files import Bad, CH
MODES = ["r", "r+", "w", "w+", "a", "a+"]
def text(rng, n, nl=.05): return "".join("\n" if rng.random() < nl else rng.choice(CH) for _ in range(n))
def esc(s): return s.replace("\n", "\\n")
SIZES = [0, 1, 3, 10, 40, 300, 1022, 1023, 1024, 2500, 4095, 4096, 5000]
def size(rng): return rng.choice(SIZES[:6] if rng.random() < .8 else SIZES)
def gen(rng, n):
    ops = []
    for _ in range(n):
        r = rng.random(); h = rng.randrange(3)
        if r < .14 or not ops: ops.append(["open", h, rng.choice(MODES) if rng.random() < .96 else "x", "fopen"] if rng.random() < .92 else ["open", h, "w+", "tmp"])
        elif r < .17: ops.append(["freopen", h, rng.choice(MODES)])
        elif r < .40:
            k = rng.choice(["write", "write", "write", "puts", "putc"])
            if k == "putc": ops.append(["putc", h, rng.choice([10, 65, 255, 1, 0, 200])])
            elif k == "puts": ops.append(["puts", h, rng.choice("sb"), text(rng, size(rng))])
            else:
                t = text(rng, size(rng)); q = rng.random()
                if q < .5: how = []
                elif q < .6: how = [None, 1]
                else:
                    a = rng.choice([1, 2, 3, 7, 100]); how = [a, rng.choice([0, 1, len(t) // a, len(t) // a + 1, 3])]
                if rng.random() < .15: t = t.replace("a", "é")
                ops.append(["write", h, rng.choice("sb"), t, how])
        elif r < .66:
            k = rng.choice(["gets", "gets", "getc", "read", "read"])
            if k == "read":
                L = rng.choice([0, 1, 5, 16, 100, 1000, 4096, 9000]); a = rng.choice([1, 1, 2, 3, 16, L or 1])
                ops.append(["read", h, L, a, rng.choice([0, 1, L // a, L // a, L // a, L // a + 1])])
            else: ops.append([k, h])
        elif r < .77: w = rng.randrange(3); ops.append(["seek", h, rng.choice([0, 0, 1, 5, 100, 5000] if w == 0 else [0, 0, 1, -1, -3, 7, -100]), w])
        elif r < .82: ops.append(["tell", h])
        elif r < .84: ops.append(["eof", h])
        elif r < .90: ops.append(["flush", h])
        elif r < .95: ops.append(["close", h])
        elif r < .965: ops.append(["unlink", h])
        elif r < .985: ops.append(["desc", h])
        else: ops.append(["garbage"])
    return ops
def initial(rng): return [["f%d" % p, text(rng, rng.choice([0, 1, 5, 50, 500, 1023, 1024, 4096, 5000, 9000]), rng.choice([0, .01, .1]))] for p in range(3) if rng.random() < .6]
RD = ("gets", "getc", "read"); WR = ("write", "puts", "putc")
def grown(name, kind, t):
    """the text as a string or as bytes; bytes of odd length have grown, their name points to where they were"""
    if kind != "b" or len(t) % 2 == 0: return ['%s = "%s"%s' % (name, esc(t), " bytes" if kind == "b" else "")]
    c = len(t) // 3; return ['%s = "%s" bytes' % (name, esc(t[:c]))] + ['%s append("%s")' % (name, esc(x)) for x in (t[c:2 * c + 1], t[2 * c + 1:]) if x]
def render(ops, wrap):
    L = ['load "buffile"', "h0 = nil", "h1 = nil", "h2 = nil", "o0 = 0", "o1 = 0", "o2 = 0",
         "sv = (x):", "  if (x == nil): \"nil\" say", "  . else:", "    if (x kind == Error): \"E\" say", "    . else:", "      \"V\" print", "      x say", "    .", "  .", "  nil.",
         "sb = (x):", "  if (x == nil): \"nil\" say", "  . else:", "    if (x kind == Error): \"E\" say", "    . else:", "      \"B\" print", "      x length say", "      x print", "      \"\" say", "    .", "  .", "  nil.",
         "so = (x):", "  if (x == nil): \"nil\" say", "  . else:", "    if (x kind == Error): \"E\" say", "    . else:", "      \"O\" say", "    .", "  .", "  nil."]
    for i, o in enumerate(ops + [["close", 0], ["close", 1], ["close", 2]]):
        k = o[0]; h = o[1] if len(o) > 1 else 0; H = "h%d" % h; cond = H + " kind != NilKind"
        if k == "open":
            s = ["%s = tmpfile" % H if o[3] == "tmp" else '%s = %s("f%d", "%s")' % (H, "fopen" if o[3] == "fopen" else "BufFile", h, o[2]), "so(%s)" % H, "o%d = 1" % h, "if (%s kind == Error):" % H, "  %s = nil" % H, "  o%d = 0" % h, "."]; cond = "o%d == 0" % h
        elif k == "freopen": s = ['r = %s freopen("f%d", "%s", %s)' % (H, h, o[2], H), "so(r)", "if (r kind == Error):", "  o%d = 0" % h, "."]; cond = "o%d == 1" % h
        elif k == "write":
            v = '"%s"%s' % (esc(o[3]), " bytes" if o[2] == "b" else "")
            s = grown("w", o[2], o[3]) + ["r = %s write(%s)" % (H, ", ".join(["w"] + ["nil" if x is None else str(x) for x in o[4]])), "sv(r)"]
        elif k == "puts": s = grown("w", o[2], o[3]) + ["r = %s fputs(w)" % H, "sv(r)"]
        elif k == "putc": s = ["r = %s fputc(%d)" % (H, o[2]), "sv(r)"]
        elif k == "gets": s = ["r = %s fgets" % H, "sb(r)", "e = %s feof" % H, "if (e): \"Vtrue\" say", ". else: \"Vfalse\" say", "."]
        elif k == "getc": s = ["r = %s fgetc" % H, "sv(r)", "e = %s feof" % H, "if (e): \"Vtrue\" say", ". else: \"Vfalse\" say", "."]
        elif k == "read": s = grown("b", "b", "." * o[2]) + ["r = %s fread(b, %d, %d)" % (H, o[3], o[4]), "sv(r)", "sb(b)", "e = %s feof" % H, "if (e): \"Vtrue\" say", ". else: \"Vfalse\" say", "."]
        elif k == "seek": s = ["r = %s fseek(%d, %d)" % (H, o[2], o[3]), "sv(r)"]
        elif k == "tell": s = ["r = %s ftell" % H, "sv(r)"]
        elif k == "eof": s = ["e = %s feof" % H, "if (e kind == Error): \"E\" say", ". else:", "  if (e): \"Vtrue\" say", "  . else: \"Vfalse\" say", "  .", "."]
        elif k == "flush": s = ["r = %s fflush" % H, "sv(r)"]
        elif k == "close": s = ["r = %s close" % H, "sv(r)", "o%d = 0" % h]
        elif k == "unlink": s = ["r = %s unlink" % H, "sv(r)", "o%d = 0" % h]
        elif k == "desc": s = ["r = %s string" % H, "r slice(0, 8) say"]
        elif k == "garbage": s = ["(1, (2, \"g%d\")) string length" % i]; cond = None
        sw = k in RD + WR
        if sw:  # C wants a seek between reading and writing
            s = ["if (d%d == %d):" % (h, 1 if k in WR else 2), "  x = %s fseek(0, 1)" % H, "  sv(x)", ".", "d%d = %d" % (h, 2 if k in WR else 1)] + s
        if k in ("open", "freopen", "seek", "flush"): s.append("d%d = 0" % h)
        if cond: s = ["if (%s):" % cond] + ["  " + x for x in s] + [". else: \"-\" say", "."]
        if wrap and cond: L += ["g%d = ():" % i] + ["  " + x for x in s] + ["  nil.", "g%d()" % i]
        else: L += s
    L[1:1] = ["d0 = 0", "d1 = 0", "d2 = 0"]
    return "\n".join(L + ['"end" say']) + "\n"
class F: pass
def check(ops, init, r, hard):
    """Walks the reported results. hard: whether any call was failed by injection."""
    out = r.out; pos = 0; reports = 0
    def line():
        nonlocal pos
        e = out.find(b"\n", pos)
        if e < 0: raise Bad("the program stopped early, ending %s: %s" % (r.ending, r.err[-200:].decode("latin1")))
        l = out[pos:e]; pos = e + 1; return l.decode("latin1")
    def blob(w):
        nonlocal pos
        l = line()
        if not re.fullmatch("B[0-9]+", l): return l, None
        z = int(l[1:]); b = out[pos:pos + z]; pos += z + 1
        if out[pos - 1:pos] != b"\n": raise Bad(w + "a report is garbled: %r" % out[pos - 20:pos + 20])
        return l, b
    files = {p: bytearray(t.encode()) for p, t in init}      # None: not known
    H = [None] * 3; D = [0] * 3
    def failed(w, f, name):  # an operation reported that it failed: what it left is not known
        nonlocal reports
        reports += 1
        if not hard: raise Bad(w + "reported a failure, nothing failed")
        if f: f.known = False; f.pos = None; f.eof = None
        if name in files: files[name] = None
    n = len(ops)
    for i, o in enumerate(ops + [["close", 0], ["close", 1], ["close", 2]]):
        k = o[0]
        if k == "garbage": continue
        h = o[1]; f = H[h]; tmp = o[3] == "tmp" if k == "open" else k != "freopen" and f is not None and f.tmp; p = ("t%d" if tmp else "f%d") % h; w = "operation %d %s: " % (i, str(o)[:80]) if i < n else "closing %d at the end: " % h
        if k == "open":
            l = line()
            if f and f.open:
                if l != "-": raise Bad(w + "gave " + l)
                continue
            D[h] = 0; m = o[2]
            if l == "E":
                H[h] = None
                if m == "x" or (m[0] == "r" and files.get(p, 1) == 1): continue
                reports += 1
                if not hard: raise Bad(w + "failed, nothing did")
                continue
            if l != "O": raise Bad(w + "gave " + l)
            if m == "x" or (m[0] == "r" and p not in files): raise Bad(w + "succeeded, there is no such " + ("mode" if m == "x" else "file"))
            f = H[h] = F(); f.m = m; f.open = True; f.pos = 0; f.eof = False; f.unsure = False; f.tmp = tmp
            if m[0] == "w": files[p] = bytearray()
            files.setdefault(p, bytearray()); f.dirty = False
            if m[0] == "a": f.pos = None if m == "a" else 0
            f.known = files[p] is not None
            continue
        if k == "freopen":
            l = line()
            if not f or not f.open:
                if l != "-": raise Bad(w + "gave " + l)
                continue
            D[h] = 0; m = o[2]
            if hard and f.dirty and p in files and not f.tmp: files[p] = None   # freopen(3) ignores what closing said
            if l == "E":
                f.open = False
                if m[0] == "r" and p not in files: continue
                reports += 1
                if not hard: raise Bad(w + "failed, nothing did")
                continue
            if l != "O": raise Bad(w + "gave " + l)
            if m[0] == "r" and p not in files: raise Bad(w + "succeeded, there is no such file")
            f.m = m; f.eof = False; f.dirty = False; f.tmp = False
            if m[0] == "w": files[p] = bytearray()
            files.setdefault(p, bytearray()); f.pos = None if m == "a" else 0; f.known = files[p] is not None
            continue
        if f is None:
            l = line()
            if l != "-": raise Bad(w + "there is no file there, it gave " + l)
            continue
        d = files.get(p)
        if d is None: f.known = False
        if k in RD + WR:
            if D[h] == (1 if k in WR else 2):
                l = line()
                if l == "E":
                    if f.open: failed(w + "the seek before it ", f, p)
                elif not f.open: raise Bad(w + "a seek on a closed file gave " + l)
                else: f.eof = False
            D[h] = 2 if k in WR else 1
        if k in ("seek", "flush"): D[h] = 0
        if k == "desc":
            l = line()
            if l != ("<buffile" if f.open else "<closed "): raise Bad(w + "gave " + l)
            continue
        if not f.open:   # closed: everything must say so
            if k == "read": l, (b_, b) = line(), blob(w); e = line()
            elif k == "gets": l, b = blob(w); e = line()
            elif k == "getc": l = line(); e = line()
            else: l = line()
            if k == "unlink":
                if tmp:
                    if l != "E": raise Bad(w + "deleting a file without a name gave " + l)
                elif p in files:
                    if l == "Vtrue": del files[p]
                    elif l == "E" and hard: pass
                    else: raise Bad(w + "gave " + l)
                elif l != "E": raise Bad(w + "deleting what is not there gave " + l)
            elif l != "E": raise Bad(w + "on a closed file gave " + l)
            continue
        canr = f.m[0] == "r" or "+" in f.m; canw = f.m != "r"; app = f.m[0] == "a"
        if k in WR:
            l = line()
            if k == "putc": v = bytes([o[2]]); want = o[2]
            elif k == "puts": v = o[3].encode(); want = None
            else:
                v = o[3].encode(); how = o[4]
                if not how or how[0] is None: want = 1
                else:
                    want = how[1]
                    if how[0] * how[1] > len(v):
                        if l != "E": raise Bad(w + "writing more than there is gave " + l)
                        continue
                    v = v[:how[0] * how[1]]
            if l == "E" or l == "V-1":
                if canw: failed(w, f, p)
                continue
            if not re.fullmatch("V[0-9]+", l): raise Bad(w + "gave " + l)
            if not canw:
                if v: raise Bad(w + "reported a write to a file open for reading: " + l)
                continue
            if want is not None and int(l[1:]) != want: raise Bad(w + "gave %s, it was to be %d" % (l, want))
            f.dirty = True
            if not f.known or d is None:
                f.pos = None
                if d is not None and v: files[p] = None
                continue
            if not v: continue
            if app: f.pos = len(d)
            if f.pos is None: failed(w + "(position) ", f, p); continue
            if v:
                if f.pos > len(d): d.extend(b"\0" * (f.pos - len(d)))
                d[f.pos:f.pos + len(v)] = v; f.pos += len(v)
        elif k in RD:
            buf = None
            if k == "read":
                l = line(); bl, buf = blob(w)
                if buf is None or len(buf) != o[2]: raise Bad(w + "the buffer became %s" % bl)
            elif k == "gets": l, b = blob(w)
            else: l = line()
            e = line()
            if e not in ("Vtrue", "Vfalse"): raise Bad(w + "feof gave " + e)
            e = e == "Vtrue"
            if k == "read" and o[3] * o[4] > o[2]:
                if l != "E": raise Bad(w + "reading more than the buffer holds gave " + l)
                if buf != b"." * o[2]: raise Bad(w + "a refused read changed the buffer")
                continue
            no = l == "E" or (l in ("nil", "V-1") and not e)
            if not canr:
                if k == "read" and not o[3] * o[4]: continue
                if not no: raise Bad(w + "reading a file open for writing gave %s at end %s" % (l, e))
                continue
            if no: failed(w, f, None); f.pos = None; continue
            if not f.known or f.pos is None or d is None: f.pos = None; f.eof = e; continue
            rest = bytes(d[f.pos:]); was = f.eof
            if k == "getc":
                if not re.fullmatch("V-?[0-9]+", l): raise Bad(w + "gave " + l)
                g = int(l[1:]); x = rest[0] if rest else -1; eof = not rest
                if g != x: raise Bad(w + "gave %d, at %d of %d there is %d" % (g, f.pos, len(d), x))
                f.pos += bool(rest)
            elif k == "gets":
                j = rest.find(b"\n"); x = rest[:min(1023, j + 1 if j >= 0 else len(rest))]; eof = len(x) < 1023 and not x.endswith(b"\n")
                if l == "nil": b = b""
                elif b is None: raise Bad(w + "gave " + l)
                elif not b: raise Bad(w + "gave an empty line")
                if b != x: raise Bad(w + "gave %d bytes %r, at %d of %d there are %d %r" % (len(b), b[:40], f.pos, len(d), len(x), x[:40]))
                f.pos += len(x)
            else:
                a, c = o[3], o[4]; x = rest[:a * c]; eof = len(x) < a * c
                if not re.fullmatch("V[0-9]+", l): raise Bad(w + "gave " + l)
                if int(l[1:]) != len(x) // a: raise Bad(w + "reported %s items, %d bytes are left at %d of %d" % (l[1:], len(rest), f.pos, len(d)))
                y = len(x) // a * a
                if buf[:y] != x[:y] or buf[a * c:] != b"." * (len(buf) - a * c): raise Bad(w + "the buffer holds %r, the file %r" % (buf[:60], x[:60]))
                f.pos += len(x)
            if k == "read" and not o[3] * o[4]: eof = was
            if e != eof and not (was and e): raise Bad(w + "feof says %s at %d of %d" % (e, f.pos, len(d)))
            f.eof = e
        elif k == "seek":
            l = line()
            if l == "E":
                base = 0 if o[3] == 0 else f.pos if o[3] == 1 else len(d) if d is not None else None
                if base is None or base + o[2] >= 0 or hard: 
                    if base is None and not hard and f.known: continue
                    if base is not None and base + o[2] < 0 and not hard: continue
                    failed(w, f, p)
                continue
            if l != "Vtrue": raise Bad(w + "gave " + l)
            f.eof = False
            if o[3] == 0: x = o[2]
            elif o[3] == 1: x = None if f.pos is None else f.pos + o[2]
            else: x = None if d is None else len(d) + o[2]
            if x is not None and x < 0: raise Bad(w + "a seek before the beginning succeeded")
            f.pos = x
        elif k == "tell":
            l = line()
            if l == "E": failed(w, f, p); continue
            if not re.fullmatch("V[0-9]+", l): raise Bad(w + "gave " + l)
            if f.known and f.pos is not None and int(l[1:]) != f.pos: raise Bad(w + "gave %s, the stream is at %d" % (l, f.pos))
        elif k == "eof":
            l = line()
            if l not in ("Vtrue", "Vfalse"): raise Bad(w + "gave " + l)
            if f.eof is not None and (l == "Vtrue") != f.eof: raise Bad(w + "gave %s at %s of %s" % (l, f.pos, d is not None and len(d)))
        elif k == "flush":
            l = line()
            if l == "E": failed(w, f, p); continue
            if l != "Vtrue": raise Bad(w + "gave " + l)
        elif k == "close":
            l = line(); f.open = False
            if l == "E" or l == "V-1": failed(w, f, p); continue
            if l != "V0": raise Bad(w + "gave " + l)
        elif k == "unlink":
            l = line(); f.open = False
            if l == "E":
                if p in files and not tmp:
                    reports += 1
                    if not hard: raise Bad(w + "failed, nothing did")
                    files[p] = None
                continue
            if l != "Vtrue": raise Bad(w + "gave " + l)
            if p not in files: raise Bad(w + "deleted what is not there")
            del files[p]
    l = line()
    if l != "end": raise Bad("at the end: " + l)
    if out[pos:]: raise Bad("more output: %r" % out[pos:pos + 60])
    for p in ("f0", "f1", "f2"):
        g = r.files.get("/work/" + p)
        if p not in files:
            if g is not None: raise Bad("file %s is there after it was deleted or never made" % p)
            continue
        d = files[p]
        if d is None: continue
        if g is None: raise Bad("file %s is not there" % p)
        if g != bytes(d): raise Bad("file %s holds %d bytes %r, %d were written and closed %r" % (p, len(g), g[:80], len(d), bytes(d[:80])))
    return reports
