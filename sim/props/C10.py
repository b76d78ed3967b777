"""Histories over classes, instances, methods and closures against their model, under forced collections."""
import gen_objects as G
from common import *
N = {"quick": 3000, "thorough": 150000}
RULE = ("seeded histories of 5-90 operations over 4 classes (inheritance, overriding, late and class methods), 5 instances, 5 closures (own, shared and nested variables, higher-order, recursion past one VM stack); "
        "non-trivial: at least 5 printed results and one forced collection")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["operations are well typed and calls pass every argument"]
def gen(rng, i, tier):
    return soften({"ops": G.gen(rng, rng.randrange(5, 60) if rng.random() < .9 else rng.randrange(60, 120)), "wrap": rng.randrange(2), "mode": rng.choice(["-B", "-X"]), "gc": pick_gc(rng), "knobs": pick_knobs(rng), "seed": rng.getrandbits(32)})
def run(rn, case):
    src, exp = G.render(case["ops"], case["wrap"])
    r = rn.run(program_plan(case, src))
    m, sig = judge(r, exp)
    return Outcome(m and "%s (history of %d operations): %s" % (case["mode"], len(case["ops"]), m), [r], sig, nontrivial=exp.count("\n") >= 5 and r.stat.get("gcs", 0) > 0)
