"""Histories over lists, tables and strings against their mathematical models, under forced collections."""
import gen_containers as G
from common import *
N = {"quick": 4000, "thorough": 200000}
RULE = ("seeded histories of 3-80 operations over 4 lists, 3 tables and 4 strings (62 kinds of operation, aliases, nesting, iteration, growth while iterating), as top-level code, one function or one closure per operation; "
        "non-trivial: at least 5 operations and one forced collection")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["operations are well typed; strings are ASCII without NUL; table order is not compared"]
def gen(rng, i, tier):
    n = rng.randrange(3, 70) if rng.random() < .93 else rng.randrange(60, 160 if tier == "thorough" else 100)
    return {"ops": G.gen(rng, n), "wrap": rng.randrange(3), "mode": rng.choice(["-B", "-X"]), "gc": pick_gc(rng), "knobs": pick_knobs(rng), "seed": rng.getrandbits(32)}
def run(rn, case):
    src, exp = G.render(case["ops"], case["wrap"])
    r = rn.run(program_plan(case, src))
    m, sig = judge(r, exp)
    return Outcome(m and "%s (%s): %s" % (case["mode"], "history of %d operations" % len(case["ops"]), m), [r], sig, nontrivial=len(case["ops"]) >= 5 and r.stat.get("gcs", 0) > 0)
