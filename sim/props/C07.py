"""Long-running programs that keep a bounded amount of data and churn through much more, under forced and natural collections, with a monitor inside the simulator that holds the collector's own figures against the ledger of pages it was given, and compares what survives full collections early and late in the run."""
import gen_churn as G
from common import *
VARIANTS = ("O0", "O0s", "O3")
N = {"quick": 1500, "thorough": 100000}
RULE = ("seeded loops of 1-5 of 33 kinds of churn (lists, tables, strings, tuples, objects, closures, classes' instances, nested loops, calls, sorting, cloning, evaluated code, files) over 500-20000 iterations; forced collections at random allocations, or none in a build with small generations so that they come of themselves; "
        "non-trivial: at least 12 full collections measured, or a natural run with 20 collections")
REAL = CORE_REAL; STUB = CORE_STUB
MEASURE = "distinct traces of simulated events"
ASSUME = ["what survives a full collection late in a run may exceed what survived in its second quarter by a quarter and 32 KiB (values still on the stack)", "pages of machine code are not the collector's", "classes and captured continuations stay reachable and are not churned"]
def gen(rng, i, tier):
    nat = rng.random() < .35
    v = "O3" if rng.random() < .1 else rng.choice(["O0", "O0s", "O0s"])
    if v == "O3": nat = True
    n = rng.choice([500, 1000, 2000, 4000]) if not nat else rng.choice([4000, 10000, 20000])
    c = {"seed": rng.getrandbits(32), "mode": rng.choice(["-B", "-X"]), "variant": v, "knobs": {"gap": rng.choice([0, 1, 16])}, "ops": G.gen(rng, rng.randrange(1, 6)), "n": n, "gc": None}
    if not nat: c["gc"] = [rng.choice([1500, 4000, 10000]), rng.choice([30, 60, 100])]
    return c
def run(rn, case):
    p = program_plan(case, G.render(case["ops"], case["n"]), mode=case["mode"])
    p.files.append(("d.txt", "hello world " * 10)); p.steps = 10 ** 8; p.knobs.update(memmon=1, cpu_s=60)
    r = rn.run(p); s = r.stat; live = r.live; R = [r]
    b = r.bad()
    if b: return Outcome("%s %s: %s" % (case["mode"], case["variant"], b), R, next((x for x in ("ledger", "figures", "grows") if x in b), "crash"))
    if r.ending != "exit 0" or not r.out.endswith(b"end\n"): return Outcome("the loop did not finish: %s %r %r" % (r.ending, r.out[-80:], r.err[-80:]), R, "ending")
    q = len(live) // 4; ok = len(live) >= 12
    if ok:
        early, late = max(live[q:2 * q]), max(live[3 * q:])
        if late > early * 1.25 + 32768: return Outcome("what survives a full collection grows: %d bytes at most in the second quarter of the run, %d in the last (%s)" % (early, late, live[::max(1, len(live) // 12)]), R, "grows")
    young = (256 << 10) if case["variant"] == "O0s" else 16 << 20
    lim = 3 * max(live + [2 << 20]) + 3 * 3 * young + 8 * young + (8 << 20)
    if s["bytes_peak"] > lim: return Outcome("%d bytes mapped at the peak, %d kept (limit %d)" % (s["bytes_peak"], max(live + [0]), lim), R, "peak")
    return Outcome(None, R, nontrivial=ok or s["maps"] > 20, extra={"full_collections_measured": len(live), "ledger_checks": s["memchecks"], "loop_iterations": case["n"]})
