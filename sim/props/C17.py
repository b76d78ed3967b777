"""Timers, idle, prepare and check handles started, stopped and restarted from the program and from their callbacks, in simulated time, the loop's waits interrupted, cut short and overslept: every callback, its order and the
loop's time at it against a model of the loop."""
import gen_loop as G
from common import *
from lib import PART, LATE
N = {"quick": 3500, "thorough": 60000}
RULE = ("seeded programs of 1-8 timers, idle, prepare and check handles (delays 0 ms to a day, repeats 0-1000 ms) with start, stop, again, set_repeat and changed callbacks from the program and inside callbacks, run to the end, once "
        "or without waiting; interrupted waits, oversleeping to 5 ms, the process not scheduled for to 200 ms; in VM and JIT under forced collections; non-trivial: at least one callback ran")
REAL = CORE_REAL + ["lib/aio.c", "libuv 1.48"]; STUB = CORE_STUB + ["epoll and the clock under libuv: waits end in simulated time"]
ASSUME = ["handles are started with positive or zero delays"]
AXES = ["ops"]
def gen(rng, i, tier):
    H, cb, ops = G.gen(rng); k = pick_knobs(rng); f = []; k["outbuf"] = 1; k["stamp"] = 1
    if rng.random() < .5: f.append(("loop", EINTR, rng.choice([10000, 100000, 500000])))
    if rng.random() < .4: f.append(("loop", LATE, rng.choice([10000, 100000, 300000]))); k["late_ms"] = rng.choice([2, 20, 200])
    if rng.random() < .4: k["oversleep_us"] = rng.choice([100, 1000, 5000])
    return {"H": H, "cb": cb, "ops": ops, "mode": rng.choice(["-B", "-X"]), "faults": f, "gc": pick_gc(rng, .2), "knobs": k, "seed": rng.getrandbits(32)}
def tokens(out):
    return [int(l[1:]) if l[:1] == "\x01" else l for l in out.decode("latin1").split("\n")[:-1]]
def run(rn, case):
    p = program_plan(case, G.source(case["H"], case["cb"], case["ops"]), libs=True); p.knobs.setdefault("cpu_s", 10)
    r = rn.run(p); b = r.bad()
    if b: return Outcome(b, [r], "crash")
    k = case["knobs"]; m = G.Loop(case["H"], case["cb"], tokens(r.out), 8 + k.get("late_ms", 200) * any(x[1] == LATE for x in case["faults"]) + k.get("oversleep_us", 0) // 1000)
    try:
        m.clock(False)
        for o in case["ops"]: m.run(o[1]) if o[0] == "run" else (m.clock(False), m.do(o))
        m.line("end")
        if m.p < len(m.tok): raise G.Wrong("more in the transcript: %r" % m.tok[m.p])
    except G.Stuck:
        return Outcome(None if r.stat["idle"] else "the loop ended with handles active", [r], "ending", nontrivial=m.calls > 0, extra={"callbacks": m.calls})
    except G.Wrong as e: return Outcome("%s; ending %s %s" % (e, r.ending, r.err[-200:].decode("latin1")), [r], "order")
    if r.ending != "exit 0" or r.stat["idle"]: return Outcome("ended with " + r.ending + " waiting" * r.stat["idle"], [r], "ending")
    return Outcome(None, [r], nontrivial=m.calls > 0, extra={"callbacks": m.calls, "simulated_ms": r.stat["now"] // 1000000})
