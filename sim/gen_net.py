"""Programs of TCP clients and a server on the event loop, in one process."""
import random
def msg(rng, size): return [rng.choice([0, 1, 5, 100]) if rng.random() < .3 else size(rng, 3000), rng.choice([0, 0, 0, 1, 3, 5]), rng.choice(["str", "str", "bytes", "mut"])]
def gen(rng, size):
    C = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        C.append({"msgs": [msg(rng, size) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))], "how": rng.choice(["all", "chain", "timer"]), "at": rng.choice([0, 0, 0, rng.randrange(1, 30)]), "gap": rng.choice([0, 1, 3, 20]), "churn": rng.choice([0, 0, 30])})
    return {"clients": C, "echo": rng.randrange(2), "greet": rng.choice([0, 0, 5, 3000]), "backlog": rng.choice([1, 2, 16]), "churn": rng.choice([0, 0, 20]), "six": rng.random() < .1, "timer": rng.choice([0, 0, 1])}
def body(i, j, n, dbl):
    r = random.Random(i * 1000 + j * 7 + n); t = "<%d.%d>" % (i, j)
    s = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,") for _ in range(n))
    return (t + s if n > len(t) else s) , dbl if n * 2 ** dbl < 40000 else 0
def payload(i, j, m):
    s, d = body(i, j, m[0], m[1]); return s * 2 ** d
def greeting(k, n): return "(%d)" % k + "g" * n if n else ""
def source(S):
    L = ['load "aio"', "ck = (x, w):", "  if (x kind == Error): (\"failed\", w) say.", "  nil.", "churn = (n): n times (q): x = (q, q string)..", "srv = Aio_tcp", "conns = 0", "tt = nil"]
    A = '"127.0.0.1", 7000' if not S["six"] else '"::1", 7000'
    # the server
    L += ["sw = (k):", "  (st): (\"E\", k, st) say.", ".", "ss = (k):", "  (st): (\"T\", k, st) say.", ".",
          "sr = (k):", "  (n, b):", "    (\"R\", k, n, b length) say", "    b say"] + (["    churn(%d)" % S["churn"]] if S["churn"] else []) + \
         (["    if (n > 0): ck(self write(Aio_write (), b, 1, sw(k)), \"echo\")."] if S["echo"] else []) + \
         ["    if (n < 0):", "      self stop", "      if (n == -4095): ck(self shutdown(Aio_shutdown (), ss(k)), \"shutdown\").", "    .", "    nil.", ".",
          "sl = (st):", "  (\"C\", conns, st) say", "  if (st == 0):", "    c = Aio_tcp", "    ck(self accept(c), \"accept\")"]
    if S["greet"]: L += ["    g = \"(\" + conns string + \")%s\"" % ("g" * S["greet"]), "    ck(c write(Aio_write (), g, 1, sw(conns)), \"greet\")"]
    L += ["    ck(c start(sr(conns)), \"start\")", "    conns = conns + 1", "  .", "  nil.", "ck(srv bind%s(%s), \"bind\")" % ("6" if S["six"] else "", A), "ck(srv listen(%d, sl), \"listen\")" % S["backlog"]]
    # the clients
    for i, c in enumerate(S["clients"]):
        n = len(c["msgs"]); L += ["cl%d = Aio_tcp" % i, "sh%d = nil" % i] + ["p%d_%d = nil" % (i, j) for j in range(n)] + ["i%d_%d = nil" % (i, j) for j in range(n)] + ["t%d_%d = Aio_timer" % (i, j) for j in range(n) if c["how"] == "timer"]
        for j, m in enumerate(c["msgs"]):
            s, d = body(i, j, m[0], m[1])
            L += ["p%d_%d = \"%s\"" % (i, j, s)] + (["%d times: p%d_%d = p%d_%d + p%d_%d." % (d, i, j, i, j, i, j)] if d else []) + (["p%d_%d = p%d_%d bytes" % (i, j, i, j)] if m[2] != "str" else [])
        L += ["sh%d = ():" % i, "  ck(cl%d shutdown(Aio_shutdown (), (st): (\"S\", %d, st) say.), \"shutdown\")" % (i, i), "  nil."]
        for j in range(n):
            nxt = ("i%d_%d()" % (i, j + 1) if j + 1 < n else "sh%d()" % i); m = c["msgs"][j]
            if c["how"] == "timer": nxt = "t%d_%d start(i%d_%d, %d, 0)" % (i, j + 1, i, j + 1, c["gap"]) if j + 1 < n else nxt
            L += ["i%d_%d = ():" % (i, j), "  (\"w\", %d, %d) say" % (i, j), "  x = cl%d write(Aio_write (), p%d_%d, 1, (st):" % (i, i, j), "    (\"W\", %d, %d, st) say" % (i, j)]
            if c["how"] == "chain": L += ["    if (st == 0): %s." % nxt]
            L += ["    nil.)", "  ck(x, \"write\")"] + (["  p%d_%d append(\"changed after it was written\")" % (i, j)] if m[2] == "mut" else []) + (["  churn(%d)" % c["churn"]] if c["churn"] else [])
            if c["how"] != "chain": L += ["  " + nxt]
            L += ["  nil."]
        L += ["kc%d = (st):" % i, "  (\"K\", %d, st) say" % i, "  if (st == 0):", "    ck(cl%d start((n, b):" % i, "      (\"r\", %d, n, b length) say" % i, "      b say", "      if (n < 0): self stop.", "      nil.), \"start\")",
              "    " + ("i%d_0()" % i if n else "sh%d()" % i), "  .", "  nil."]
        L += ["go%d = ():" % i, "  ck(cl%d connect%s(Aio_connect (), %s, kc%d), \"connect\")" % (i, "6" if S["six"] else "", A, i), "  nil."]
        L += ["u%d = Aio_timer" % i, "u%d start(go%d, %d, 0)" % (i, i, c["at"])] if c["at"] else ["go%d()" % i]
    return "\n".join(L + ["x = srv run(nil, 0)", '"end" say']) + "\n"
class Wrong(Exception): pass
def need(c, *m):
    if not c: raise Wrong(m[0] % m[1:] if len(m) > 1 else m[0])
def parse(out):
    """The transcript as events; a read is followed by its bytes."""
    E = []; p = 0
    while p < len(out):
        e = out.find(b"\n", p); need(e >= 0, "a line cut off: %r", out[p:p + 80]); l = out[p:e].decode("latin1"); p = e + 1
        if l == "end": E.append(("end",)); continue
        need(l[:1] == "(" and l[-1:] == ")", "the program printed %r", l[:100]); f = l[1:-1].split(", ")
        if f[0] == "failed":
            if f[1] == "write" and E[-1][0] == "w": E.pop()
            E.append(("failed", f[1])); continue
        ev = tuple([f[0]] + [int(x) for x in f[1:]])
        if ev[0] in "Rr":
            d = out[p:p + ev[3]]; need(len(d) == ev[3] and out[p + ev[3]:p + ev[3] + 1] == b"\n", "%r: its bytes are not there", ev); p += ev[3] + 1; ev += (d,)
            need(ev[3] == max(0, ev[2]), "the read callback of %s %d says %d bytes and hands over %d", "connection" if ev[0] == "R" else "client", ev[1], ev[2], ev[3])
        E.append(ev)
    return E
def check(S, E, broken):
    """broken: connections were reset or refused by the network."""
    C = S["clients"]; by = lambda k, i=None: [e for e in E if e[0] == k and (i is None or e[1] == i)]
    for e in by("failed"): need(broken, "a call failed: %s", e[1])
    need(not by("end"), "the loop ended though the server is listening")
    for k, e in enumerate(by("C")): need(e[1:] == (k, 0), "the listen callback number %d: %r", k, e)
    conns = len(by("C")); sent = []; done = {}
    for i, c in enumerate(C):
        K = by("K", i); need(len(K) == 1, "client %d: the connect callback was called %d times", i, len(K)); st = K[0][2]
        need(st == 0 or broken, "client %d: connecting failed with %d", i, st)
        w = [e[2] for e in by("w", i)]; W = [e[2] for e in by("W", i)]; bad = [e for e in by("W", i) if e[3] != 0]
        need(w == (sorted(w) if broken else list(range(len(w)))), "client %d wrote %r", i, w); need(W == w, "client %d: wrote %r, the callbacks came as %r", i, w, W)
        need(not bad or broken, "client %d: a write failed: %r", i, bad[:1])
        sent.append("".join(payload(i, j, m) for j, m in enumerate(c["msgs"])).encode() if st == 0 else None); done[i] = st == 0 and not broken
        r = by("r", i); ends = [e for e in r if e[2] < 0]
        if st != 0: need(not r and not w, "client %d: not connected and read or wrote", i); continue
        need(len(ends) == 1 and r[-1] == ends[0], "client %d: the end of the stream was reported %d times (%r)", i, len(ends), [e[2] for e in r[-3:]])
        if not broken:
            need(len(w) == len(c["msgs"]), "client %d wrote %d of %d messages", i, len(w), len(c["msgs"]))
            sh = by("S", i); need(len(sh) == 1 and sh[0][2] == 0, "client %d: shutdown callbacks %r", i, sh); need(ends[0][2] == -4095, "client %d: the stream ended with %d", i, ends[0][2])
    need(broken or conns == len(C), "%d connections accepted of %d", conns, len(C))
    back = [b"".join(e[4] for e in by("r", i)) for i in range(len(C))]; fits = []; D = []
    for k in range(conns):
        r = by("R", k); ends = [e for e in r if e[2] < 0]
        need(len(ends) == 1 and r[-1] == ends[0], "connection %d: the end of the stream was reported %d times (%r)", k, len(ends), [e[2] for e in r[-3:]])
        if not broken: need(ends[0][2] == -4095, "connection %d: the stream ended with %d", k, ends[0][2])
        d = b"".join(e[4] for e in r); D.append(d); g = greeting(k, S["greet"]).encode()
        ok = [i for i in range(len(C)) if sent[i] is not None and (sent[i].startswith(d) if broken else sent[i] == d)]
        need(ok, "connection %d received %d bytes, %r, no client sent that; sent were %s", k, len(d), d[:60], [len(x or b"") for x in sent])
        ok2 = [i for i in ok if ((g + (d if S["echo"] else b"")).startswith(back[i]) if broken else g + (sent[i] if S["echo"] else b"") == back[i])]
        need(ok2, "connection %d was sent %d bytes by the server, its client received %r", k, len(g) + len(d) * S["echo"], [(len(back[i]), back[i][:30]) for i in ok])
        fits.append(ok2); n = sum(1 for e in r if e[2] > 0) * S["echo"] + bool(S["greet"])
        if not broken:
            need([e[2] for e in by("E", k)] == [0] * n, "connection %d: %d writes, callbacks %r", k, n, [e[2] for e in by("E", k)]); need([e[2] for e in by("T", k)] == [0], "connection %d: shutdown callbacks %r", k, by("T", k))
    of = {}
    def place(k, seen):
        for i in fits[k]:
            if i not in seen:
                seen.add(i)
                if i not in of or place(of[i], seen): of[i] = k; return True
    for k in range(conns): need(place(k, set()), "connections %r: the bytes of one client reached several", fits)
    return sum(len(x) for x in sent if x)
