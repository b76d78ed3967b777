"""C01, C02: a program prints the same and ends the same whenever the collector strikes."""
import gen_containers, gen_objects, gen_strings, gen_exprs, gen_wide, corpus
from common import *
GENS = {"containers": gen_containers, "objects": gen_objects, "strings": gen_strings, "exprs": gen_exprs, "wide": gen_wide}
PROGS = corpus.programs()
def gen(rng, i, tier, mode):
    c = {"mode": mode, "seed": rng.getrandbits(32), "gc": pick_gc(rng, 0), "knobs": pick_knobs(rng)}
    r = rng.random()
    if i < 2 * len(PROGS) or r < .3:
        c["file"] = PROGS[i % len(PROGS)]
    elif r < .44:
        g = c["gen"] = rng.choice(["strings", "exprs", "wide", "wide"])
        c["ops"] = GENS[g].gen(rng, rng.randrange(2, 20) if g == "exprs" else rng.randrange(2, 50)); c["wrap"] = rng.randrange(2)
    elif r < .72: c["gen"] = "containers"; c["ops"] = gen_containers.gen(rng, rng.randrange(3, 70)); c["wrap"] = rng.randrange(3)
    else: c["gen"] = "objects"; c["ops"] = gen_objects.gen(rng, rng.randrange(5, 60)); c["wrap"] = rng.randrange(2)
    return soften(c)
def source(case):
    if "file" in case: return corpus.source(case["file"]), os.path.basename(case["file"])
    return GENS[case["gen"]].render(case["ops"], case["wrap"])[0], "p.pn"
def run(rn, case):
    src, name = source(case)
    p = program_plan(case, src, name, libs="file" in case)
    p.steps = 3000000
    b = rn.run(p, inject=False)
    if b.bad() or b.end != "exit": return Outcome(None, [b], nontrivial=False, extra={"skipped_programs_that_do_not_end_normally_by_themselves": 1})
    q = p.copy(); q.steps = 20000000
    r = rn.run(q)
    m, sig = judge(r, b.out.decode("latin1"), "the run without forced collections", code=b.ending, err=b.err)
    return Outcome(m and "%s %s: %s" % (case["mode"], case.get("file", "generated program"), m), [b, r], sig, nontrivial=r.stat.get("gcs", 0) > 0)
RULE = ("the repository's test and example programs, and generated programs over containers, classes, closures, strings, arithmetic and large functions (many constants, parameters, captured variables), each under a seeded schedule of minor and major collections at allocations and write barriers, in run time and (half the runs) in parsing and compiling; "
        "non-trivial: at least one forced collection in the compared run")
ASSUME = ["a program that does not end normally without forced collections is not compared"]
