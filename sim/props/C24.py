"""Two to five interpreters, each on a thread of its own in one simulated process. One thread holds a token at a time; a seeded scheduler passes it on at allocations and write barriers, so that interpreters are created, parse, compile, run, collect and are destroyed in the middle of one another. Every interpreter's output must be that of the model of its own program, its graph that of its own shadow."""
import gen_containers, gen_objects, gen_strings, gen_exprs, gen_conts
from props import C06
from common import *
N = {"quick": 5000, "thorough": 100000}
RULE = ("2-5 threads with 1-3 interpreters each one after another (lists and tables, classes, strings, expressions, continuations, modules from a search path of its own, or a heap graph; VM or JIT); the token passes on at 0.05-20 % of allocations and barriers; collections forced at 0-10 %; "
        "non-trivial: at least 10 switches and two interpreters at work")
REAL = CORE_REAL; STUB = CORE_STUB + ["the thread scheduler: real threads, one running at a time"]
MEASURE = "distinct sequences of switches and collections"
ASSUME = ["an interpreter is created, used and destroyed on one thread, as the documentation has it", "switches happen at allocations and write barriers, not between machine instructions"]
AXES = ["threads"]
def item(rng):
    k = rng.choice(["cont", "cont", "obj", "obj", "str", "expr", "conts", "load", "load", "graph", "graph", "rand"])
    m = rng.choice("BX")
    if k == "cont": return [k, m, gen_containers.gen(rng, rng.randrange(3, 40)), rng.randrange(3)]
    if k == "obj": return [k, m, gen_objects.gen(rng, rng.randrange(5, 50)), rng.randrange(2)]
    if k == "str": return [k, m, gen_strings.gen(rng, rng.randrange(5, 60)), rng.randrange(2)]
    if k == "conts": return [k, m, gen_conts.gen(rng, rng.randrange(3, 25)), 0]
    if k == "expr": return [k, m, gen_exprs.gen(rng, rng.randrange(3, 30)), rng.randrange(2)]
    if k == "rand": return [k, m, [rng.randrange(5) for _ in range(rng.randrange(3, 20))], 0]
    if k == "load": return [k, m, [[rng.randrange(4), rng.choice(["ma", "mb", "sub/mc"]), rng.randrange(3)] for _ in range(rng.randrange(1, 8))], 0]
    return ["graph", m, C06.ops(rng, rng.choice([60, 200, 500])), 0]
def gen(rng, i, tier):
    th = [[item(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(rng.choice([2, 2, 3, 3, 4, 5]))]
    g = rng.choice([None, None, [1000, 30], [10000, 30], [100000, 10]])
    if g: th = [[["load", t[1], [[1, "ma", 1]], 0] if t[0] == "rand" else t for t in x] for x in th]     # a collection rebuilds tables, which takes random numbers
    return {"seed": rng.getrandbits(32), "threads": th, "sched": rng.choice([500, 3000, 10000, 50000, 200000]), "gc": g, "knobs": {"gap": rng.choice([0, 16])}, "jit": rng.random() < .3, "sf": rng.randrange(5)}
def load_src(ops):
    """Modules m of four directories; every interpreter puts directories of its own on its search path."""
    src = []; exp = []; path = []
    for d, m, n in ops:
        if d not in path: src.append('LOADER_PATH push("dir%d")' % d); path.append(d)
        src.append('load "%s"' % m); exp.append("%s of dir%d" % (m, path[0]))
        if n: src.append('"n%d" say' % n); exp.append("n%d" % n)
    return "\n".join(src) + "\n", "\n".join(exp) + "\n"
def render(it):
    """(plan text, expected output or None)"""
    k, m, ops, wrap = it
    if k == "graph": return "G" + "\n".join("%d %d %d %d" % tuple(o) for o in ops), ""
    if k == "cont": s, e = gen_containers.render(ops, wrap); e = e.encode("latin1").decode("utf-8", "surrogateescape")
    elif k == "obj": s, e = gen_objects.render(ops, wrap)
    elif k == "str": s, e = gen_strings.render(ops, wrap)
    elif k == "expr": s, e = gen_exprs.render(ops, wrap)
    elif k == "conts":
        q = gen_conts.model(ops)
        if q is None: s, e = '"long" say\n', "long\n"
        else: s = gen_conts.render_src(ops); e = q
    elif k == "rand": s, e = "srand(%d)\n" % (len(ops) * 7) + "".join('rand string say\n' if o else "x = (1, \"a%d\")\nx string say\n" % i for i, o in enumerate(ops)), None
    else: s, e = load_src(ops)
    return m + s, e
def plan(case, only=None):
    p = Plan(case["seed"], "heap"); p.knobs = dict(case["knobs"]); p.knobs.update(jit=int(case["jit"]), cpu_s=20, memcap=2 << 30, schedppm=case["sched"])
    p.stackfill = case["sf"]; p.gc = tuple(case["gc"]) if case["gc"] else None; p.steps = 10 ** 8
    p.dirs = ["dir%d" % d for d in range(4)] + ["dir%d/sub" % d for d in range(4)]
    p.files = [("dir%d/%s.pn" % (d, m), '"%s of dir%d" say\n' % (m, d)) for d in range(4) for m in ("ma", "mb", "sub/mc")]
    exp = []; n = 0
    for k, its in enumerate(case["threads"]):
        if only is not None and k != only: continue
        e = ""
        for it in its:
            s, x = render(it); p.texts.append(("t%d" % n, s)); e = None if x is None or e is None else e + x
        exp.append(e); n += 1
    p.knobs["threads"] = n
    return p, exp
def run(rn, case):
    R = []
    p, exp = plan(case)
    if len(exp) < 2: return Outcome(None, [], nontrivial=False)
    # what has no model: each alone first
    for k, e in enumerate(exp):
        if e is None:
            q, _ = plan(case, k); q.gc = None
            r = rn.run(q, inject=False); R.append(r)
            if r.bad() or r.ending != "exit 0": return Outcome(None, R, nontrivial=False, extra={"not_comparable": 1})
            exp[k] = r.out.decode("utf-8", "surrogateescape")
    r = rn.run(p); R.append(r)
    b = r.bad()
    if b:
        import re
        return Outcome("%d interpreters: %s" % (len(exp), b), R, re.sub(r"\d+", "#", b)[:50])
    if r.ending != "exit 0": return Outcome("%d interpreters: the process ended %s %r" % (len(exp), r.ending, r.err[-100:]), R, "ending")
    want = "".join("== thread %d\n%s" % (k, e) for k, e in enumerate(exp)); got = r.out.decode("utf-8", "surrogateescape")
    if got != want: return Outcome("%d interpreters: %s" % (len(exp), first_diff(got, want)), R, "output")
    return Outcome(None, R, nontrivial=r.fired.get("sched", 0) >= 10, extra={"switches": r.fired.get("sched", 0), "interpreters": sum(map(len, case["threads"]))})
