"""Random graphs of every heap type built through the C API in one interpreter (in the simulated process, on the simulated stack), changed with the write barrier, mirrored by a shadow graph the collector cannot see. Collections strike at seeded allocations and barriers, are asked for outright with odd sizes, or come of themselves in a build with small generations. Every 16 operations and at the end, both graphs are walked side by side (type, size, contents, sharing), and everything reachable from the interpreter is walked: every reference must lead to a well-formed object inside the heap."""
from common import *
VARIANTS = ("O0", "O0s")
N = {"quick": 3000, "thorough": 200000}
RULE = ("seeded sequences of 60-12000 of 43 operations (create, change, grow, drop, share, look up, call, define, evaluate, explicit collections, garbage) over 24 stack roots and 8 globals, and 14 kinds of object; collections forced at 0.3-30 % of allocations and barriers, a tenth to all of them full; stack contents, page layout and address gaps varied; "
        "non-trivial: at least 4 collections struck and at least 6 kinds of object were made")
REAL = "the collector, allocator, tables, strings, tuples, classes, objects, compiler, VM and JIT of core/, called through the C API of potion.h"
STUB = CORE_STUB
MEASURE = "distinct hashes of the sequence of operations and injected collections"
ASSUME = ["the caller keeps values in memory the collector scans (locals on the stack) and reports every store into an object with the write barrier"]
WEIGHT = [6, 8, 10, 3, 4, 10, 3, 8, 4, 4, 4, 3, 4, 5, 3, 5, 3, 3, 2, 5, 7, 2, 2, 3, 4, 4, 3, 3, 6, 3, 1, 3, 2, 0, 3, 3, 4, .3, 2, 3, .5, .6, 1.5]
def ops(rng, n):
    w = [x if rng.random() < .75 else x * rng.choice([0, 4]) for x in WEIGHT]
    if not any(w): w = WEIGHT
    return [(rng.choices(range(len(w)), w)[0], rng.randrange(1000000), rng.randrange(1000000), rng.randrange(1000000)) for _ in range(n)]
def gen(rng, i, tier):
    v = "O0s" if rng.random() < .3 else "O0"
    n = rng.choice([60, 200, 500, 1000, 3000])
    g = None if v == "O0s" and rng.random() < .6 else [rng.choice([3000, 10000, 30000, 100000, 300000]), rng.choice([0, 10, 50, 100])]
    if v == "O0s" and n >= 150 and g is None: n *= 4
    return {"seed": rng.getrandbits(32), "variant": v, "ops": ops(rng, n), "gc": g, "knobs": pick_knobs(rng), "jit": rng.random() < .3, "sf": rng.randrange(5)}
def plan(case):
    p = Plan(case["seed"], "heap"); p.variant = case["variant"]; p.knobs = dict(case["knobs"]); p.knobs.update(jit=int(case["jit"]), cpu_s=5, memcap=1 << 30)
    p.stackfill = case["sf"]; p.gc = tuple(case["gc"]) if case["gc"] else None
    p.texts = [("t0", "G" + "\n".join("%d %d %d %d" % tuple(o) for o in case["ops"]))]
    return p
def judge6(r, R, kinds=6):
    b = r.bad()
    if b:
        import re
        return Outcome(b, R, re.sub(r"\d+", "#", b)[:60])
    if r.ending != "exit 0" or r.err or r.out: return Outcome("the workload ended %s: %r %r" % (r.ending, r.out[-100:], r.err[-100:]), R, "ending")
    k = [l for l in r.log.split("\n") if l.startswith("interp")]
    nk = bin(int(k[0].split()[-1], 16)).count("1") if k else 0
    return Outcome(None, R, nontrivial=(r.stat["gcs"] >= 4 or r.stat["maps"] > 8) and nk >= kinds, extra={"graph_walks": sum(int(l.split()[3]) for l in k), "objects_made": sum(int(l.split()[5]) for l in k)})
def run(rn, case):
    r = rn.run(plan(case)); return judge6(r, [r])
