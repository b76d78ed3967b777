"""Programs of timers, idle, prepare and check handles, and a model of the event loop that runs them."""
KINDS = ["timer", "timer", "timer", "timer", "idle", "prepare", "check"]
def action(rng, H, free=True):
    h = rng.randrange(len(H)); t = H[h] == "timer"; r = rng.random()
    if r < .12: return ["churn", rng.randrange(1, 60)]
    if r < .5: return ["start", h, rng.choice([0, 0, 1, 2, 3, 5, 10, 10, 20, 50, 100, 1000, 86400000]) if rng.random() < .8 else rng.randrange(0, 3000), rng.choice([0, 0, 0, 1, 2, 5, 7, 10, 100, 1000]), rng.randrange(2)]
    if r < .65 or not t: return ["stop", h]
    if r < .78: return ["again", h]
    if r < .9: return ["set", h, rng.choice([0, 1, 3, 10, 50])]
    return ["get", h]
def gen(rng):
    n = rng.randrange(1, 9); H = [rng.choice(KINDS) for _ in range(n)]
    if "timer" not in H: H[0] = "timer"
    cb = [{"lim": rng.choice([1, 2, 3, 5, 10, 30]), "acts": {str(rng.randrange(1, 6)): [action(rng, H) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([0, 0, 1, 1, 2]))}} for _ in H]
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ops += [action(rng, H) for _ in range(rng.randrange(1, 3 + 2 * n))]
        ops += [["run", 0]] if rng.random() < .75 else [["run", rng.choice([1, 1, 2])] for _ in range(rng.randrange(1, 6))]
    return H, cb, ops
def act(a, H):
    if a[0] == "churn": return ["x = ()", "%d times (i): x push((i, i string))." % a[1]]
    h = "h%d" % a[1]
    if a[0] == "start": return ["rs(%s start(c%d%s%s))" % (h, a[1], "ab"[a[4]], ", %d, %d" % (a[2], a[3]) if H[a[1]] == "timer" else "")]
    if a[0] == "set": return ["rs(%s set_repeat(%d))" % (h, a[2])]
    if a[0] == "get": return ["%s repeat say" % h]
    return ["rs(%s %s)" % (h, a[0])]
def source(H, cb, ops):
    L = ['load "aio"', "rs = (x):", "  if (x kind == Error): \"err\" say", "  . else: \"ok\" say", "  .", "  nil."]
    for i, k in enumerate(H): L += ["h%d = Aio_%s" % (i, k), "n%d = 0" % i, "c%da = nil" % i, "c%db = nil" % i]
    for i in range(len(H)):
        for v in "ab":
            L += ["c%d%s = ():" % (i, v), "  n%d = n%d + 1" % (i, i), "  y = (self == h%d)" % i, "  (\"c\", %d, \"%s\", n%d, y) say" % (i, v, i)]
            for n, acts in sorted(cb[i]["acts"].items()):
                L += ["  if (n%d == %s):" % (i, n)] + ["    " + x for a in acts for x in act(a, H)] + ["  ."]
            L += ["  if (n%d >= %d): self stop." % (i, cb[i]["lim"]), "  nil."]
    for o in ops: L += ["\"run\" say", "x = h0 run(nil, %d)" % o[1], "rs(x)"] if o[0] == "run" else act(o, H)
    return "\n".join(L + ['"end" say']) + "\n"

class Wrong(Exception): pass
class Stuck(Exception): pass
class Loop:
    """The event loop as libuv documents it; tok is the transcript: clock readings (integers) and printed lines."""
    def __init__(s, H, cb, tok, slack):
        s.H = H; s.cb = cb; s.tok = tok; s.p = 0; s.T = None; s.n = [0] * len(H); s.v = ["a"] * len(H); s.sid = 0; s.slack = slack; s.calls = 0; s.late = 0
        s.due = {}; s.ready = []; s.rep = [0] * len(H); s.ever = set(); s.q = {k: [] for k in ("idle", "prepare", "check")}; s.mv = {k: [] for k in s.q}
    def line(s, want):
        got = s.tok[s.p] if s.p < len(s.tok) else "the end"
        if got != want: raise Wrong("line %d of the transcript is %r, the loop should give %r (loop time %s)" % (s.p + 1, got, want, s.T))
        s.p += 1
    def clock(s, must=True, one=False):
        m = s.p < len(s.tok) and isinstance(s.tok[s.p], int)
        if must and not m: raise Wrong("line %d of the transcript is %r where the loop reads its clock (loop time %s)" % (s.p + 1, s.tok[s.p] if s.p < len(s.tok) else "the end", s.T))
        while s.p < len(s.tok) and isinstance(s.tok[s.p], int):
            if s.T is not None and s.tok[s.p] < s.T: raise Wrong("the clock went back")
            s.T = s.tok[s.p]; s.p += 1
            if one: break
    def tstop(s, h):
        s.due.pop(h, 0)
        if h in s.ready: s.ready.remove(h)
    def tstart(s, h, t, r): s.tstop(h); s.due[h] = (s.T + t, s.sid); s.sid += 1; s.rep[h] = r
    def again(s, h):
        if s.rep[h]: s.tstart(h, s.rep[h], s.rep[h])
    def active(s, h): return h in s.due or any(h in s.q[k] or h in s.mv[k] for k in s.q)
    def do(s, a):
        if a[0] == "churn": return
        h = a[1]; k = s.H[h]
        if a[0] == "start":
            s.v[h] = "ab"[a[4]]
            if k == "timer": s.ever.add(h); s.tstart(h, a[2], a[3])
            elif not s.active(h): s.q[k].insert(0, h)
            s.line("ok")
        elif a[0] == "stop": s.stop(h); s.line("ok")
        elif a[0] == "again":
            if h in s.ever: s.again(h)
            s.line("ok" if h in s.ever else "err")
        elif a[0] == "set": s.rep[h] = a[2]; s.line("ok")
        elif a[0] == "get": s.line(str(s.rep[h]))
    def stop(s, h):
        s.tstop(h)
        for k in s.q:
            for l in (s.q[k], s.mv[k]):
                if h in l: l.remove(h)
    def call(s, h):
        s.n[h] += 1; s.calls += 1
        s.line("(c, %d, %s, %d, (true))" % (h, s.v[h], s.n[h]))
        for n, acts in sorted(s.cb[h]["acts"].items()):
            if int(n) == s.n[h]:
                for a in acts: s.do(a)
        if s.n[h] >= s.cb[h]["lim"]: s.stop(h)
    def timers(s):
        s.ready = sorted((h for h in s.due if s.due[h][0] <= s.T), key=lambda x: s.due[x])
        for h in s.ready:
            if s.T - s.due[h][0] > s.slack and not s.busy: raise Wrong("timer %d, due at %d, called at %d" % (h, s.due[h][0], s.T))
            del s.due[h]
        while s.ready: h = s.ready.pop(0); s.again(h); s.call(h)
    def phase(s, k):
        s.mv[k] = s.q[k]; s.q[k] = []
        while s.mv[k]:
            h = s.mv[k].pop(0); s.q[k].append(h); s.call(h)
    def alive(s): return bool(s.due) or any(s.q.values())
    def run(s, mode):
        # a timer whose time came before run was called is late by no fault of the loop
        s.line("run"); r = s.alive(); s.busy = True
        if not r: s.clock()
        if mode == 0 and r: s.clock(one=True); s.timers()
        while r:
            s.phase("idle"); s.phase("prepare")
            idle = bool(s.q["idle"])
            block = not s.due and not idle and mode != 2
            if block and s.p >= len(s.tok): raise Stuck()
            s.clock()
            if block and s.p >= len(s.tok): raise Stuck()
            n = s.calls; s.phase("check")
            if s.calls > n: s.clock(one=True)
            s.timers(); s.busy = False
            r = s.alive()
            if mode: break
        s.line("err" if s.alive() else "ok")
