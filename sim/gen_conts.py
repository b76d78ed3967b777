"""Programs that capture and call continuations, and a small machine that says what they print.

A program is a main body and functions, each a flat list of statements. Locals live on the stack, which
a continuation captures; the log, the counters and the store of continuations live in the heap."""
import copy
NF = 3
def gen(rng, n):
    """Ops: [function, statement...]; function -1 is the main body. Functions call only higher-numbered ones."""
    ops = []
    nk = rng.randrange(1, 5)
    for _ in range(n):
        f = rng.choice([-1, -1, -1, 0, 1, 2])
        r = rng.random(); v = rng.randrange(3); w = rng.randrange(3)
        if r < .12: s = ["set", v, rng.randrange(-50, 1000)]
        elif r < .22: s = ["add", v, w, rng.randrange(1, 10)]
        elif r < .30: s = ["str", v, rng.randrange(100)]
        elif r < .37: s = ["tup", v, rng.randrange(100)]
        elif r < .45: s = ["log", v]
        elif r < .53: s = ["say", v]
        elif r < .68: s = ["cap", rng.randrange(nk)]
        elif r < .86: s = ["jump", rng.randrange(nk), rng.randrange(4), rng.randrange(1, 4)]
        elif r < .93: s = ["call", v, rng.randrange(f + 1, NF) if f + 1 < NF else None, w]
        elif r < .96: s = ["times", rng.randrange(1, 4), rng.randrange(nk), rng.randrange(4), rng.randrange(1, 3)]
        else: s = ["garbage", rng.randrange(1, 6)]
        if s[0] == "call" and s[2] is None: s = ["log", v]
        ops.append([f] + s)
    return ops
def var(f, v): return "abc"[v] + ("" if f < 0 else str(f))
def render_src(ops, extra=""):
    body = {f: [] for f in (-1, 0, 1, 2)}
    for o in ops: body[o[0]].append(o[1:])
    out = ["h = ()", "n = (%s)" % ", ".join(["0"] * 4), "ks = (%s)" % ", ".join(["0"] * 4)]
    def stmts(f, ind):
        L = []; nt = 0
        for s in body[f]:
            k = s[0]; x = lambda i: var(f, i)
            if k == "set": L.append("%s = %d" % (x(s[1]), s[2]))
            elif k == "add": L.append("%s = (%s string, \"+%d\") join" % (x(s[1]), x(s[2]), s[3]))
            elif k == "str": L.append("%s = (\"s%d\", \"t\", \"u\") join" % (x(s[1]), s[2]))
            elif k == "tup": L.append("%s = (%d, \"q\", (%d, \"r\"))" % (x(s[1]), s[2], s[2] + 1))
            elif k == "log": L.append("h push(%s)" % x(s[1]))
            elif k == "say": L.append("(%d, %s, h length) say" % (f, x(s[1])))
            elif k == "cap": L += ["k%s = here" % ("" if f < 0 else f), "ks put(%d, k%s)" % (s[1], "" if f < 0 else f)]
            elif k == "jump": L += ["if (n(%d) < %d):" % (s[2], s[3]), "  n put(%d, n(%d) + 1)" % (s[2], s[2]), "  j%s = ks(%d)" % ("" if f < 0 else f, s[1]), "  if (j%s != 0): j%s (). ." % ("" if f < 0 else f, "" if f < 0 else f)]
            elif k == "call": L.append("%s = f%d(%s)" % (x(s[1]), s[2], x(s[3])))
            elif k == "times":
                t = "%s_%d" % ("m" if f < 0 else f, nt); nt += 1
                L += ["%d times (i%s):" % (s[1], t), "  h push(i%s)" % t, "  d%s = i%s + 100" % (t, t), "  e%s = here" % t, "  ks put(%d, e%s)" % (s[2], t),
                      "  (d%s, h length) say" % t, "  if (n(%d) < %d):" % (s[3], s[4]), "    n put(%d, n(%d) + 1)" % (s[3], s[3]), "    g%s = ks(%d)" % (t, s[2]), "    g%s (). ." % t]
            elif k == "garbage": L += ["(\"gg\", \"%d\", \"%d\") join length" % (s[1], i) for i in range(s[1])]
        return [ind + l for l in L]
    for f in (2, 1, 0):
        out.append("f%d = (%s):" % (f, var(f, 0)))
        out += ["  %s = 0" % var(f, 1), "  %s = 0" % var(f, 2)] + stmts(f, "  ") + ["  %s." % var(f, 0)]
    out += ["a = 1", "b = 2", "c = 3"] + stmts(-1, "") + ["(a, b, c) say", "h say", "n say", extra]
    return "\n".join(out) + "\n"
def show(v):
    if isinstance(v, tuple): return "(" + ", ".join(show(x) for x in v) + ")"
    return str(v)
def model(ops, limit=4000):
    """What the program prints, or None when it runs too long."""
    body = {f: [] for f in (-1, 0, 1, 2)}
    for o in ops: body[o[0]].append(o[1:])
    h = []; n = [0] * 4; ks = [None] * 4; out = []
    # a frame: [function, pc, locals, where the caller wants the value, loop state or None]
    stack = [[-1, 0, [1, 2, 3], None, None]]
    steps = 0
    while True:
        steps += 1
        if steps > limit or len(out) > 1500: return None
        fr = stack[-1]; f, pc, loc = fr[0], fr[1], fr[2]
        if pc >= len(body[f]):
            if f < 0: break
            stack.pop(); stack[-1][2][fr[3]] = loc[0]; continue
        s = body[f][pc]; k = s[0]
        if k == "times":
            # loop state: [i, phase]; phases: 0 start of an iteration, 1 resumed after the capture
            if fr[4] is None: fr[4] = [0, 0]
            i, ph = fr[4]
            if i >= s[1]: fr[4] = None; fr[1] += 1; continue
            if ph == 0:
                h.append(i); fr[4] = [i, 1]
                ks[s[2]] = copy.deepcopy(stack)
            else:
                ks[s[2]] = copy.deepcopy(stack)
            out.append("(%d, %d)" % (i + 100, len(h)))
            if n[s[3]] < s[4]:
                n[s[3]] += 1
                stack = copy.deepcopy(ks[s[2]]); continue
            stack[-1][4] = [i + 1, 0]; continue
        fr[1] += 1
        if k == "set": loc[s[1]] = s[2]
        elif k == "add": loc[s[1]] = show(loc[s[2]]) + "+%d" % s[3]
        elif k == "str": loc[s[1]] = "s%dtu" % s[2]
        elif k == "tup": loc[s[1]] = (s[2], "q", (s[2] + 1, "r"))
        elif k == "log": h.append(loc[s[1]])
        elif k == "say": out.append("(%d, %s, %d)" % (f, show(loc[s[1]]), len(h)))
        elif k == "cap": ks[s[1]] = copy.deepcopy(stack); 
        elif k == "jump":
            if n[s[2]] < s[3]:
                n[s[2]] += 1
                if ks[s[1]] is not None:
                    j = s[1]
                    stack = copy.deepcopy(ks[j])
                    # the resumed capture stores itself again
                    r = stack[-1]; st = body[r[0]][r[1]] if r[4] is not None else None
                    if st is None:
                        c = body[r[0]][r[1] - 1]; ks[c[1]] = copy.deepcopy(stack)
        elif k == "call": stack.append([s[2], 0, [loc[s[3]], 0, 0], s[1], None])
    loc = stack[-1][2]
    out += ["(%s, %s, %s)" % tuple(show(v) for v in loc), "(" + ", ".join(show(v) for v in h) + ")", "(%s)" % ", ".join(map(str, n))]
    return "\n".join(out) + "\n"
