"""TCP clients and a server of one program on the event loop over a simulated network that splits, delays, resets and refuses: the bytes that reach each read callback, the callbacks of every request and the ends of the
streams against what was written."""
import gen_net as G
from common import *
from lib import RESET, REFUSE, PART, LATE
N = {"quick": 4000, "thorough": 150000}
RULE = ("seeded programs of 1-8 clients and one server, IPv4 and IPv6, each client writing 0-6 strings or bytes of 0 to 40000 bytes at once, one after another or by timer, the server echoing or not, greeting or not; segments of 1 byte "
        "to everything, delays to 50 ms, send buffers of 100 bytes to 64 KB, ready descriptors in any order, short, interrupted and refused calls, resets and refused connections; in VM and JIT under forced collections; "
        "non-trivial: a network call was cut short or failed, or segments were split")
REAL = CORE_REAL + ["lib/aio.c", "libuv 1.48"]; STUB = CORE_STUB + ["sockets, epoll and the network between them"]
ASSUME = ["client and server share one loop", "handles are not closed"]
AXES = ["clients"]
def gen(rng, i, tier):
    S = G.gen(rng, lambda r, h: size(r, h)); k = pick_knobs(rng); f = []; broken = rng.random() < .3
    k["netdelay_us"] = rng.choice([1, 200, 200, 5000, 50000]); k["netseg"] = rng.choice([0, 0, 1000, 100, 30]); k["sndbuf"] = rng.choice([65536, 65536, 5000, 1000, 100]); k["netshuffle"] = rng.choice([0, 1, 1]); k["outbuf"] = 4096
    for kind, p in ((SHORT, .4), (EINTR, .3), (EAGAIN, .3)):
        if rng.random() < p: f.append(("net", kind, rng.choice([3000, 30000, 200000])))
    for kind, p in ((EINTR, .2), (PART, .3), (LATE, .2)):
        if rng.random() < p: f.append(("loop", kind, rng.choice([10000, 100000, 300000])))
    if broken: f += [("net", x, rng.choice([3000, 30000, 200000])) for x in rng.choice([[RESET], [REFUSE], [RESET, REFUSE]])]
    total = sum(m[0] << m[1] for x in S["clients"] for m in x["msgs"]); g = pick_gc(rng, .2)
    if total > 4000:
        if g: g = [min(g[0], 20000), min(g[1], 15)] + g[2:]
        k["sndbuf"] = max(k["sndbuf"], total // 30); k["netseg"] = k["netseg"] and max(k["netseg"], total // 500)
    c = dict(S); c.update({"mode": rng.choice(["-B", "-X"]), "faults": f, "gc": g, "knobs": k, "seed": rng.getrandbits(32)}); return c
def run(rn, case):
    p = program_plan(case, G.source(case), libs=True); p.knobs.setdefault("cpu_s", 10); p.steps = 4000000
    r = rn.run(p); b = r.bad()
    if b: return Outcome(b, [r], "crash")
    broken = any(k in (RESET, REFUSE) for c, n, k in r.events if c == "net") or r.stat["evlost"] and any(x[1] in (RESET, REFUSE) for x in case["faults"])
    try: total = G.check(case, G.parse(r.out), broken)
    except G.Wrong as e: return Outcome("%s; ending %s %s" % (e, r.ending, r.err[-200:].decode("latin1")), [r], "stream")
    if r.ending != "exit 0" or not r.stat["idle"]: return Outcome("ended with %s" % r.ending, [r], "ending")
    return Outcome(None, [r], nontrivial=total > 0 and (any(c == "net" for c, n, k in r.events) or case["knobs"]["netseg"] > 0), extra={"bytes_delivered": total, "simulated_ms": r.stat["now"] // 1000000})
