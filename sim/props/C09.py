"""Programs that capture continuations in the main body, in functions and in native loops and call them again, in any order, also after those functions returned, against a machine model with copied stacks and one heap, under forced collections."""
import gen_conts as G
from common import *
VARIANTS = ("O0", "O3")
N = {"quick": 6000, "thorough": 300000}
RULE = ("seeded programs of 3-40 statements over a main body and three functions: capture, store, jump to a stored continuation (bounded by heap counters), calls, loops through native iteration, strings and tuples held by captured stacks only; stack-held variables must come back as captured, the log and counters must not; "
        "non-trivial: at least one continuation was called and one collection forced (or the optimised build, without collections)")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["the stack base is the one the continuation was captured on"]
def gen(rng, i, tier):
    v = "O3" if rng.random() < .15 else "O0"
    return {"ops": G.gen(rng, rng.randrange(3, 40)), "mode": rng.choice(["-B", "-X"]), "gc": None if v == "O3" else pick_gc(rng), "knobs": pick_knobs(rng), "seed": rng.getrandbits(32), "variant": v}
def run(rn, case):
    m = G.model(case["ops"])
    if m is None: return Outcome(None, [], nontrivial=False, extra={"programs_too_long": 1})
    r = rn.run(program_plan(case, G.render_src(case["ops"])))
    x, sig = judge(r, m)
    jumps = sum(int(v) for v in m.rstrip("\n").split("\n")[-1].strip("()").split(", "))
    return Outcome(x and "%s (%s): %s" % (case["mode"], case["variant"], x), [r], sig, nontrivial=jumps > 0 and (case["variant"] == "O3" or r.stat.get("gcs", 0) > 0), extra={"continuation_calls_and_tries": jumps})
