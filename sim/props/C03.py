"""One program through every engine - bytecode VM, JIT, saved bytecode in each - compared, each run under a collection schedule of its own; part of the runs on the optimised build."""
import gen_containers, gen_objects, gen_strings, gen_exprs, gen_wide, corpus
from common import *
GENS = {"containers": gen_containers, "objects": gen_objects, "strings": gen_strings, "exprs": gen_exprs, "wide": gen_wide}
PROGS = corpus.programs()
VARIANTS = ("O0", "O3")
N = {"quick": 3000, "thorough": 100000}
RULE = ("the repository's test and example programs, and generated programs: arithmetic (integers to 62 bits and past them, doubles, nan), comparisons, nested conditions and loops with break and continue, closures, functions with up to 6 arguments and defaults, "
        "nested calls, recursion, containers, classes, strings, and functions with up to hundreds of constants, names, parameters, arguments, captured variables or statements (sizes around encoding limits). The reference is the VM without forced collections; non-trivial: another engine ran the program to its end")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["operations are well typed and calls pass every mandatory argument", "a program that does not end normally in the VM without forced collections is not compared", "no forced collections in the optimised build"]
MEASURE = "distinct traces of simulated events over all engines"
def gen(rng, i, tier):
    c = {"seed": rng.getrandbits(32), "gc": pick_gc(rng, .2), "knobs": pick_knobs(rng), "mode": "-B", "engines": rng.choice(["all", "X", "Xo3", "Bo3", "save", "save", "saveo3"])}
    r = rng.random()
    if i < 2 * len(PROGS): c["file"] = PROGS[i % len(PROGS)]; c["engines"] = "all"
    else:
        g = c["gen"] = "exprs" if r < .5 else "wide" if r < .65 else rng.choice(["containers", "objects", "strings"])
        c["ops"] = GENS[g].gen(rng, rng.randrange(2, 25) if g == "exprs" else rng.randrange(5, 60)); c["wrap"] = rng.randrange(2)
    return soften(c)
def run(rn, case):
    if "file" in case: src, name = corpus.source(case["file"]), os.path.basename(case["file"])
    else: src, name = GENS[case["gen"]].render(case["ops"], case["wrap"])[0], "p.pn"
    libs = "file" in case; who = case.get("file", "generated program"); R = []; E = case["engines"]
    p = program_plan(case, src, name, "-B", libs); p.steps = 3000000
    b = rn.run(p, inject=False); R.append(b)
    if b.bad() or b.end != "exit":
        # no reference: but an engine disagreeing about crashing is still a disagreement
        p = program_plan(case, src, name, "-X", libs); p.steps = 3000000
        x = rn.run(p, inject=False); R.append(x)
        if b.bad() and not x.bad() and x.end == "exit" and not b.bad().startswith("hang"): return Outcome("%s: the VM run %s, the JIT run did not" % (who, b.bad()), R, "crash")
        return Outcome(None, R, nontrivial=False, extra={"programs_without_a_normal_end_in_the_VM": 1})
    n = 0
    def same(r, what):
        m, sig = judge(r, b.out.decode("latin1"), "the VM", code=b.ending)
        return Outcome("%s, %s: %s" % (who, what, m), R, sig) if m else None
    def go(src, name, mode, variant, what):
        p = program_plan(case, src, name, mode, libs); p.variant = variant; p.steps = 20000000
        r = rn.run(p, inject=variant == "O0"); R.append(r)
        return same(r, what)
    todo = []
    if E in ("all", "X", "save"): todo.append(("-X", "O0"))
    if E in ("all", "Xo3", "saveo3"): todo.append(("-X", "O3"))
    if E in ("all", "Bo3"): todo.append(("-B", "O3"))
    for mode, v in todo:
        o = go(src, name, mode, v, {"-X": "JIT", "-B": "VM"}[mode] + (" of the optimised build" if v == "O3" else "")); n += 1
        if o: return o
    if E in ("all", "save", "saveo3"):
        v = "O3" if E == "saveo3" else "O0"
        p = program_plan(case, src, name, "-c", libs); p.variant = v
        r = rn.run(p, inject=v == "O0"); R.append(r)
        f = "/work/" + name + "b"
        if not r.bad() and b"too many constants or functions" in r.err and len(src) > 1500: return Outcome(None, R, nontrivial=n >= 1, extra={"programs_past_the_bytecode_format": 1})
        if r.bad() or f not in r.files: return Outcome("%s: not saved as bytecode: %s %s" % (who, r.bad() or r.ending, r.err[-200:].decode("latin1")), R, "save")
        for mode in ("-B", "-X"):
            o = go(r.files[f], name + "b", mode, v, "saved bytecode in the " + {"-X": "JIT", "-B": "VM"}[mode]); n += 1
            if o: return o
    return Outcome(None, R, nontrivial=n >= 1)
