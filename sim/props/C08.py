"""Programs run again with memory refused: at every page request in turn, at a chosen request, from one on, past a limit, or at chosen calls of malloc; the run must finish with its full output or stop with an out-of-memory report and a failure status after a prefix of it."""
import gen_containers, gen_objects, gen_strings, gen_exprs, gen_conts, gen_live, gen_buffile, gen_files, gen_db, corpus
from common import *
GENS = {"containers": gen_containers, "objects": gen_objects, "strings": gen_strings, "exprs": gen_exprs}
LIBS = {"live": lambda ops, w: gen_live.source(ops), "buffile": gen_buffile.render, "files": gen_files.render, "db": lambda ops, w: gen_db.render(ops, w), "conts": lambda ops, w: gen_conts.render_src(ops)}
PROGS = corpus.programs()
VARIANTS = ("O0", "O3")
N = {"quick": 2500, "thorough": 100000}
RULE = ("generated programs over containers, classes, strings, arithmetic and functions, and the repository's test and example programs, in the VM and the JIT, with and without forced collections; per program the undisturbed run, then runs with page requests refused: one chosen request, every request from one on, "
        "all beyond a limit of live bytes, or malloc calls one or from one on; for short runs every page request in turn. non-trivial: a request was refused")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["memory committed by the system stays usable: refusals come at the request, not at first use", "a program that does not end normally undisturbed is not tried"]
MEASURE = "distinct traces of simulated events"
def gen(rng, i, tier):
    c = {"seed": rng.getrandbits(32), "gc": pick_gc(rng, .5), "knobs": pick_knobs(rng), "mode": rng.choice(["-B", "-X", "-X"]), "variant": "O3" if rng.random() < .15 else "O0"}
    if c["variant"] == "O3": c["gc"] = None
    if rng.random() < .08: c["file"] = rng.choice(PROGS)
    else:
        g = c["gen"] = rng.choice(["exprs", "containers", "objects", "strings", "grow", "grow"] if rng.random() < .8 else list(LIBS))
        if g == "grow": c["ops"] = grow(rng)
        elif g == "live": c["ops"] = gen_live.gen(rng)
        elif g == "files": c["ops"] = gen_files.gen(rng, rng.randrange(3, 30))
        elif g in LIBS: c["ops"] = dict(buffile=gen_buffile, db=gen_db, conts=gen_conts)[g].gen(rng, rng.randrange(3, 30))
        else: c["ops"] = GENS[g].gen(rng, rng.randrange(1, 20) if g == "exprs" else rng.randrange(3, 40))
        c["wrap"] = rng.randrange(2)
    c["how"] = rng.choice(["one", "one", "from", "cap", "malloc", "mallocfrom"] if c.get("file") or rng.random() < .8 else ["each"])
    if "malloc" in c["how"] and (c.get("gen") in LIBS or "file" in c and re.search(rb'\b(load|aio|database|buffile)\b', corpus.source(c["file"]))): c["how"] = "one" # what a library does without memory of its own, it tells the script
    c["at"] = [rng.random() for _ in range(1 if rng.random() < .7 else 3)]
    return c if c.get("gen") == "live" else soften(c)
def grow(rng):
    "A program whose kept data grows: the heap needs new generations."
    o = []
    for _ in range(rng.randrange(1, 6)): o.append([rng.choice(["list", "str", "table", "obj", "churn", "big", "class", "fn"]), rng.choice([10, 100, 1000, 4000]), rng.randrange(3, 60)])
    return o
def grow_src(ops):
    s = "keep = ()\nA = class (a): /a = a, self.\n"
    for k, (w, n, m) in enumerate(ops):
        if w == "list": s += "l%d = ()\n%d times (i): l%d push(i).\nkeep push(l%d)\nl%d length say\n" % (k, n, k, k, k)
        elif w == "str": s += 's%d = "%s"\n%d times (i): s%d = s%d + "%s".\nkeep push(s%d)\ns%d length say\n' % (k, "x" * m, min(n, 200), k, k, "y" * m, k, k)
        elif w == "table": s += "t%d = (a=1)\n%d times (i): t%d put(i, i + 1).\nkeep push(t%d)\nt%d length say\n" % (k, n, k, k, k)
        elif w == "obj": s += "o%d = ()\n%d times (i): o%d push(A(i)).\nkeep push(o%d)\no%d length say\n" % (k, n, k, k, k)
        elif w == "churn": s += "%d times (i): x = (i, (i, i), \"%s\").\n%d say\n" % (n, "c" * m, k)
        elif w == "big": s += "b%d = list(%d)\nb%d length say\n" % (k, n * 10, k)
        elif w == "class": s += "".join("K%d_%d = class (v): /v = v, self.\nK%d_%d meth = (): /v.\nK%d_%d(%d) meth say\n" % (k, j, k, j, k, j, j) for j in range(min(m, 20)))
        else: s += "".join("f%d_%d = (x): x + %d.\nf%d_%d(1) say\n" % (k, j, j, k, j) for j in range(min(m, 20)))
    return s + "keep length say\n\"end\" say\n"
def source(case):
    if "file" in case: return corpus.source(case["file"]), os.path.basename(case["file"])
    if case["gen"] == "grow": return grow_src(case["ops"]), "p.pn"
    if case["gen"] in LIBS:
        s = LIBS[case["gen"]](case["ops"], case["wrap"]); return (s if isinstance(s, str) else s[0]), "p.pn"
    return GENS[case["gen"]].render(case["ops"], case["wrap"])[0], "p.pn"
REPORT = re.compile(rb"(?i)out of memory|not enough memory|couldn't allocate|cannot allocate|no memory|memory exhausted")
def run(rn, case):
    src, name = source(case); R = []; libs = "file" in case or case["gen"] in LIBS
    def plan(**kn):
        p = program_plan(case, src, name, case["mode"], libs); p.steps = 4000000
        p.knobs.update(kn); return p
    malloc = case["how"].startswith("malloc")
    base = plan(mallocfault=1) if malloc else plan()
    b = rn.run(base, inject=False); R.append(b)
    if b.bad() or b.end != "exit": return Outcome(None, R, nontrivial=False, extra={"programs_without_a_normal_end": 1})
    if case.get("gc"):   # the schedule of collections alone
        c = rn.run(plan(mallocfault=1) if malloc else plan(), inject=True); R.append(c)
        if c.bad() or c.out != b.out: return Outcome(None, R, nontrivial=False, extra={"programs_disturbed_by_collections": 1})
    else: c = b
    cls = "malloc" if malloc else "mmap"
    n = c.cnt.get(cls, 0); tries = []
    if case["how"] == "each": tries = [("one", k) for k in range(min(n, 40))]
    elif case["how"] == "cap":
        lo, hi = 200000, max(c.stat.get("bytes_peak", 0), 300000)
        tries = [("cap", int(lo + (hi - lo) * f)) for f in case["at"]]
    else: tries = [(case["how"].replace("malloc", "") or "one", int(n * f)) for f in case["at"]]
    refused = 0
    for how, k in tries:
        kn = {"mallocfault": 1} if malloc else {}
        if how == "cap": kn["memcap"] = k
        elif how == "from": kn["mallocfrom" if malloc else "mmapfrom"] = k + 1
        p = plan(**kn); p.gc = tuple(case["gc"]) if case.get("gc") else None
        if how == "one": p.ats = [(cls, k, 2)]
        r = rn.run(p, inject=True); R.append(r)
        x = r.fired.get(cls, 0); refused += x
        what = "memory refused (%s, %s %d of %d, %s %s)" % (cls, how, k, n, case["mode"], case["variant"])
        m = r.bad()
        if m: return Outcome("%s: %s" % (what, m), R, "crash")
        if not b.out.startswith(r.out): return Outcome("%s: output is no prefix of the undisturbed one: %s (ending %s)" % (what, first_diff(r.out.decode("latin1"), b.out.decode("latin1")), r.ending), R, "output")
        if r.out == b.out and r.ending == b.ending and not (x and REPORT.search(r.err)): continue
        if not x: return Outcome("%s: nothing was refused, yet the run differs (ending %s)" % (what, r.ending), R, "norefusal")
        if r.ending == b.ending and b.ending == "exit 0": return Outcome("%s: stopped after %d of %d bytes of output with a success status; stderr %r" % (what, len(r.out), len(b.out), r.err[-200:]), R, "status")
        if not REPORT.search(r.err): return Outcome("%s: stopped (%s) without an out-of-memory report; stderr %r" % (what, r.ending, r.err[-200:]), R, "report")
    return Outcome(None, R, nontrivial=refused > 0, extra={"refusals": refused, "runs_with_refusals": len(tries)})
