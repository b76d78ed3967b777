"""Programs for checks whose subject is not the program."""
import gen_containers, gen_objects, gen_strings, gen_exprs, gen_wide, corpus, os
GENS = {"containers": gen_containers, "objects": gen_objects, "strings": gen_strings, "exprs": gen_exprs, "wide": gen_wide}
PROGS = corpus.programs()
def gen(rng, small=True, files=.1):
    c = {}
    if rng.random() < files: c["file"] = rng.choice(PROGS); return c
    g = c["gen"] = rng.choice(["exprs", "containers", "objects", "strings"] if rng.random() < .85 else ["wide"])
    n = rng.choice([1, 2, 4, 8]) if small else rng.randrange(2, 50)
    c["ops"] = GENS[g].gen(rng, n if g == "exprs" else 3 * n); c["wrap"] = rng.randrange(2)
    return c
def source(case):
    if "file" in case: return corpus.source(case["file"]), os.path.basename(case["file"])
    return GENS[case["gen"]].render(case["ops"], case["wrap"])[0], "p.pn"
