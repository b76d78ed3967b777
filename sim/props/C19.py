"""Timers, idle, prepare, check, async, TCP, UDP and file-request handles left to the event loop by functions that have returned, with collections at any allocation before, between and inside their callbacks: each callback comes as
often as it has to and is called with its own object."""
import gen_live as G
from common import *
from lib import PART, LATE
N = {"quick": 4000, "thorough": 150000}
RULE = ("seeded programs of 1-9 items (timer, idle, prepare, check, async, UDP receiver with senders, TCP client, file request: status, rename, removal, directory, new file, with effect checked), made at the start or in a callback of another, referred to by their callbacks, by a list or by nothing, "
        "allocating in every callback; collections at 0.1 to 30 % of allocations and write barriers, minor and major; waits interrupted, late or cut short; short and interrupted network calls; in VM and JIT; "
        "non-trivial: a collection struck and a callback ran")
REAL = CORE_REAL + ["lib/aio.c", "libuv 1.48"]; STUB = CORE_STUB + ["sockets, epoll, the clock and the worker threads under libuv"]
ASSUME = ["no datagram is lost or doubled", "handles are not closed"]
AXES = ["items"]
def gen(rng, i, tier):
    items = G.gen(rng); k = pick_knobs(rng); f = []; k["outbuf"] = 4096
    k["netdelay_us"] = rng.choice([1, 200, 5000, 50000]); k["netseg"] = rng.choice([0, 0, 100, 7]); k["netshuffle"] = rng.choice([0, 1])
    for c, kind, p in (("net", SHORT, .2), ("net", EINTR, .3), ("loop", EINTR, .3), ("loop", PART, .3), ("loop", LATE, .2)):
        if rng.random() < p: f.append((c, kind, rng.choice([3000, 30000, 200000])))
    g = [rng.choice([1000, 10000, 50000, 150000, 300000]), rng.choice([1, 10, 50, 100])] if rng.random() < .97 else None
    return {"items": items, "mode": rng.choice(["-B", "-X"]), "faults": f, "gc": g, "knobs": k, "seed": rng.getrandbits(32)}
def run(rn, case):
    p = program_plan(case, G.source(case["items"]), libs=True); p.files += list(G.files(case["items"]).items()); p.knobs.setdefault("cpu_s", 15); p.steps = 4000000
    r = rn.run(p); b = r.bad()
    if b: return Outcome(b, [r], "crash")
    try: calls = G.check(case["items"], r.out.decode("latin1")); G.filed(case["items"], dict(r.files, **{d: None for d in r.dirs}))
    except G.Wrong as e: return Outcome("%s; ending %s %s" % (e, r.ending, r.err[-200:].decode("latin1")), [r], "callback")
    if r.ending != "exit 0" or r.stat["idle"] and not G.stuck(case["items"]): return Outcome("ended with %s" % r.ending, [r], "ending")
    return Outcome(None, [r], nontrivial=calls > 0 and r.stat["gcs"] > 0, extra={"callbacks": calls, "simulated_ms": r.stat["now"] // 1000000})
