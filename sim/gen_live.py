"""Programs whose event-loop handles and requests live in the loop only: made in a function that has returned, or in a callback, with nothing but the loop and
the collector's knowledge of it to keep them.  What each callback is told, and which object it is called with, is known for each item on its own."""
KINDS = ["timer", "timer", "idle", "prepare", "check", "async", "udp", "fs", "tcp", "timer"]
MAXITEMS = 10
def gen(rng):
    n = rng.randrange(1, MAXITEMS); items = []
    for k in range(n):
        it = {"kind": rng.choice(KINDS), "n": rng.choice([1, 1, 2, 3, 5, 9]), "keep": rng.choice([0, 1, 2]), "churn": rng.choice([0, 3, 30]), "d": rng.choice([0, 1, 3, 10, 100]), "len": rng.choice([1, 20, 200])}
        if it["kind"] in ("timer", "idle", "prepare", "check") and rng.random() < .4: it["again"] = [j for j in range(1, it["n"]) if rng.random() < .6]
        if it["kind"] == "fs": it["fop"] = rng.choice(["stat", "rename", "unlink", "mkdir", "open"])
        # made at the start, or by the j-th callback of an earlier item
        it["by"] = None if k == 0 or rng.random() < .5 else [rng.randrange(k), rng.randrange(1, 4)]
        items.append(it)
    return items
def files(items):
    """what the file requests find"""
    return {"/work/a%d" % k: b"file %d\n" % k for k, it in enumerate(items) if "fop" in it}
def filed(items, got):
    """what they leave"""
    made = alive(items); want = {}
    for k, it in enumerate(items):
        if "fop" not in it: continue
        if it["fop"] == "mkdir" and made[k]: want["/work/d%d" % k] = None
        if it["fop"] == "open" and made[k]: want["/work/c%d" % k] = b""
        if it["fop"] != "unlink" or not made[k]: want["/work/%s%d" % ("b" if it["fop"] == "rename" and made[k] else "a", k)] = b"file %d\n" % k
    have = {f: v for f, v in got.items() if f[:6] == "/work/" and f[6:7] in "abcd" and f[7:].isdigit()}
    for f in sorted(set(want) | set(have)):
        if (f in want) != (f in have) or want[f] is not None and want[f] != have[f]: raise Wrong("file requests: %s %s, wanted %r, is %r" % (f, "there" if f in have else "missing", want.get(f), have.get(f)))
def text(k, j, n): return ("<%d.%d>" % (k, j) + "abcdefghij" * (n // 10 + 1))[:max(n, 8)]
def alive(items):
    """which items get made at all: their maker has that many callbacks"""
    made = []
    for k, it in enumerate(items): made.append(it["by"] is None or it["by"][0] < k and made[it["by"][0]] and it["by"][1] <= count(items[it["by"][0]]))
    return made
def count(it): return 1 if it["kind"] == "fs" else it["n"]
def source(items):
    L = ['load "aio"', "churn = (n): n times (q): x = (q, q string)..", "top = Aio_timer", "rem = %d" % sum(alive(items)), "keep = ()", "cc = 0"]
    for k, it in enumerate(items): L += ["mk%d = nil" % k, "n%d = 0" % k]
    kids = {}
    for k, it in enumerate(items):
        if it["by"]: kids.setdefault(tuple(it["by"]), []).append(k)
    def step(k, it, ind, cnt="n%d"):
        """what every counted callback of an item does"""
        c = cnt % k if "%" in cnt else cnt; o = []
        if it["churn"]: o.append("churn(%d)" % it["churn"])
        for j in range(1, count(it) + 1):
            for kid in kids.get((k, j), []): o += ["if (%s == %d):" % (c, j), "  mk%d()" % kid, "."]
        return [ind + x for x in o]
    def last(k, it, ind, stop): return [ind + x for x in ["if (n%d == %d):" % (k, it["n"]), "  rem = rem - 1"] + (["  " + stop] if stop else []) + ["."]]
    for k, it in enumerate(items):
        K = it["kind"]; h = "h%d" % k; ident = "y%d = (self == %s)" % (k, h) if it["keep"] and K != "fs" else "y%d = 1" % k; b = []; y = "y%d" % k; n = "n%d" % k
        bump = ["%s = %s + 1" % (n, n)]
        if K in ("timer", "idle", "prepare", "check") and it.get("again"):
            # started again by its own callback, each time with a closure made just then
            t = ", %d, %d)" % (it["d"], max(1, it["d"])) if K == "timer" else ")"
            b += ["%s = Aio_%s" % (h, K), "g%d = nil" % k, "g%d = (v):" % k, "  ():"] + ["    " + x for x in bump + [ident, '("c", %d, %s, %s, v) say' % (k, n, y)]] + step(k, it, "    ")
            for j in it["again"]: b += ["    if (%s == %d):" % (n, j), "      self start(g%d(%d)%s" % (k, j, t), "      churn(%d)" % it["churn"], "    ."]
            b += last(k, it, "    ", "self stop") + ["    nil..", "%s start(g%d(0)%s" % (h, k, t)]
        elif K in ("timer", "idle", "prepare", "check"):
            b += ["%s = Aio_%s" % (h, K), "%s start(():" % h] + ["  " + x for x in bump + [ident, '("c", %d, %s, %s) say' % (k, n, y)]] + step(k, it, "  ") + last(k, it, "  ", "self stop") + ["  nil." + (", %d, %d)" % (it["d"], max(1, it["d"])) if K == "timer" else ")")]
        elif K == "async":
            b += ["%s = nil" % h, "%s = Aio_async(():" % h] + ["  " + x for x in bump + [ident, '("c", %d, %s, %s) say' % (k, n, y)]] + step(k, it, "  ") + last(k, it, "  ", "") + ["  if (%s < %d): self send." % (n, it["n"]), "  nil.)", "%s send" % h]
        elif K == "fs":
            b += ["%s = Aio_fs" % h, "%s %s, ():" % (h, {"stat": 'stat("a" + %d string', "rename": 'rename("a" + %d string, "b" + {0} string'.format(k), "unlink": 'unlink("a" + %d string', "mkdir": 'mkdir("d" + %d string, 493', "open": 'open("c" + %d string, 65, 420'}[it.get("fop", "stat")] % k)] + ["  " + x for x in bump + [ident, '("c", %d, %s, %s) say' % (k, n, y)]] + step(k, it, "  ") + ["  rem = rem - 1", "  nil.)"]
        elif K == "udp":
            b += ["%s = Aio_udp" % h, '%s bind("127.0.0.1", %d)' % (h, 7100 + k), "%s recv_start((m, t):" % h, "  if (m > 0):"] + ["    " + x for x in bump + [ident, '("g", %d, m, %s) say' % (k, y), "t say"]] + step(k, it, "    ") + last(k, it, "    ", "self recv_stop") + ["  .", "  nil.)", "u%d = Aio_udp" % k]
            for j in range(it["n"]):
                rq = "r%d_%d" % (k, j); idr = "z%d = (self == %s)" % (k, rq) if it["keep"] else "z%d = 1" % k
                b += ["%s = Aio_udp_send ()" % rq, 'u%d send(%s, "%s" + %d string, 1, "127.0.0.1", %d, (st):' % (k, rq, text(k, j, it["len"]), j, 7100 + k), "  " + idr, '  ("s", %d, %d, st, z%d) say' % (k, j, k), "  nil.)"]
        elif K == "tcp":
            rq = "r%d" % k; idr = "z%d = (self == %s)" % (k, rq) if it["keep"] else "z%d = 1" % k
            b += ["%s = Aio_tcp" % h, "%s = Aio_connect ()" % rq, '%s connect(%s, "127.0.0.1", 7000, (st):' % (h, rq), "  " + idr, '  ("K", %d, st, z%d) say' % (k, k)]
            for j in range(it["n"]):
                w = "w%d_%d" % (k, j); idw = "z%d = (self == %s)" % (k, w) if it["keep"] else "z%d = 1" % k
                b += ["  %s = Aio_write ()" % w, '  %s write(%s, "%s" + %d string, 1, (st):' % (h, w, text(k, j, it["len"]), j)] + ["    " + x for x in [idw] + bump + ['("s", %d, %d, st, z%d) say' % (k, j, k)]] + step(k, it, "    ") + last(k, it, "    ", "") + ["    nil.)"]
            b += ["  x%d = %s shutdown(Aio_shutdown (), (st): (\"S\", %d, st) say.)" % (k, h, k), "  churn(20)", "  nil.)"]
        if it["keep"] == 2: b.append("keep push(%s)" % h)
        # the names live in the frame of the function: what a callback does not name is held by nobody once it has returned
        L += ["mk%d = ():" % k] + ["  " + x for x in b] + ["  nil."]
    if any(it["kind"] == "tcp" for it in items):
        L += ["srv = Aio_tcp", "sr = (k):", "  (m, t):", '    ("r", k, m) say', "    t say", "    if (m < 0): self stop.", "    nil.", ".",
              'srv bind("127.0.0.1", 7000)', "srv listen(16, (st):", '  ("C", cc, st) say', "  if (st == 0):", "    a = Aio_tcp", "    self accept(a)", "    a start(sr(cc))", "    cc = cc + 1", "    churn(10)", "  .", "  nil.)"]
    for k, it in enumerate(items):
        if it["by"] is None: L += ["mk%d()" % k, "churn(5)"]
    L += ["pulse = nil", "mkp = ():", "  p = Aio_timer", "  p start(():", "    churn(2)", "    if (rem == 0): self stop.", "    nil., 1, 1)", "  nil.", "mkp()", "x = top run(nil, 0)", '"end" say']
    return "\n".join(L) + "\n"
class Wrong(Exception): pass
def check(items, out):
    """returns the number of callbacks; raises Wrong.  out: the output as text"""
    made = alive(items); exp = {k: 0 for k in range(len(items))}; sends = {}; got = {}; conn = {}; order = {}; S = {}; K = {}; ends = {}; calls = 0; end = False
    want = {k: {text(k, j, it["len"]) + str(j): 1 for j in range(it["n"])} for k, it in enumerate(items)}
    lines = out.split("\n"); i = 0
    def ident(k, v): 
        w = "(true)" if items[k]["keep"] and items[k]["kind"] != "fs" else "1" # a file operation makes its own request
        if v != w: raise Wrong("item %d (%s): the callback is called with another object (%s)" % (k, items[k]["kind"], v))
    def num(x):
        try: return int(x)
        except ValueError: raise Wrong("not a number: %r" % x)
    while i < len(lines) and lines[i]:
        l = lines[i]; i += 1
        if l == "end": end = True; continue
        if end or l[0] != "(" or l[-1] != ")": raise Wrong("unexpected line %r" % l)
        f = l[1:-1].split(", "); t = f[0]; calls += 1
        again = items[int(f[1])].get("again") if t == "c" and len(f) == 5 and f[1].isdigit() and int(f[1]) < len(items) else None
        if len(f) != {"c": 5 if again else 4, "g": 4, "s": 5, "K": 4, "S": 3, "r": 3, "C": 3}.get(t, 0): raise Wrong("unexpected line %r" % l)
        k = num(f[1])
        if t in "cgsKS" and not (0 <= k < len(items) and made[k]): raise Wrong("a callback of no item: %r" % l)
        if t == "c":
            exp[k] += 1; ident(k, f[3])
            if items[k].get("again") and (not again or num(f[4]) != max([0] + [j for j in again if j < exp[k]])): raise Wrong("item %d (%s): callback %s reached the closure of start %s" % (k, items[k]["kind"], f[2], f[4] if again else "?"))
            if num(f[2]) != exp[k] or exp[k] > count(items[k]): raise Wrong("item %d (%s): callback %s, %d of %d expected" % (k, items[k]["kind"], f[2], exp[k], count(items[k])))
        elif t == "g":
            d = lines[i] if i < len(lines) else ""; i += 1; ident(k, f[3])
            if num(f[2]) != len(d) or want[k].get(d) != 1: raise Wrong("item %d (udp): %s bytes %r arrived" % (k, f[2], d[:60]))
            want[k][d] = 0; exp[k] += 1
        elif t == "s":
            j = num(f[2]); ident(k, f[4])
            if num(f[3]) != 0: raise Wrong("item %d (%s): request %d failed: %s" % (k, items[k]["kind"], j, f[3]))
            if sends.setdefault((k, j), 0) or j >= items[k]["n"]: raise Wrong("item %d (%s): request %d completed again" % (k, items[k]["kind"], j))
            sends[k, j] = 1
            if items[k]["kind"] == "tcp":
                if order.get(k, -1) + 1 != j: raise Wrong("item %d (tcp): write %d completed out of order" % (k, j))
                order[k] = j
        elif t in "KS":
            D = K if t == "K" else S
            if k in D or num(f[2]) != 0: raise Wrong("item %d (tcp): %s %s" % (k, t, f[2]))
            D[k] = 1
            if t == "K": ident(k, f[3])
        elif t == "C":
            if num(f[2]) or k != len(conn): raise Wrong("connection %r" % l)
            conn[k] = ""; ends[k] = 0
        else:
            m = num(f[2]); d = lines[i] if i < len(lines) else ""; i += 1
            if k not in conn or ends[k]: raise Wrong("read callback of no stream: %r" % l)
            if m < 0:
                if m != -4095: raise Wrong("read error %d" % m)
                ends[k] = 1
            elif m != len(d): raise Wrong("%d bytes announced, %r given" % (m, d[:60]))
            else: conn[k] += d
    if not end and not stuck(items): raise Wrong("the loop did not end")
    for k, it in enumerate(items):
        if not made[k]: continue
        n = it["n"]
        if it["kind"] in ("udp", "tcp") and any(not sends.get((k, j)) for j in range(n)): raise Wrong("item %d (%s): a request never completed" % (k, it["kind"]))
        if it["kind"] == "tcp":
            if k not in K or k not in S: raise Wrong("item %d (tcp): not connected or not shut down" % k)
            w = "".join(text(k, j, it["len"]) + str(j) for j in range(n)); c = [x for x in conn if conn[x] == w]
            if not c: raise Wrong("item %d (tcp): no connection got %r; got %r" % (k, w[:80], [v[:80] for v in conn.values()]))
            del conn[c[0]]
            if not ends[c[0]]: raise Wrong("item %d (tcp): no end of stream" % k)
        elif exp[k] != count(it): raise Wrong("item %d (%s): %d callbacks, %d expected" % (k, it["kind"], exp[k], count(it)))
    if conn: raise Wrong("a connection of nobody")
    return calls
def stuck(items): return any(m and it["kind"] == "async" for m, it in zip(alive(items), items)) or any(it["kind"] == "tcp" for it in items)
