"""Bytecode files cut at every kind of place, or as a crash of the compiler left them on disk, then run or loaded: refused with a message, or the whole original."""
import progs
from common import *
N = {"quick": 6000, "thorough": 200000}
RULE = ("the bytecode of the repository's and of generated programs, cut at a seeded length (0 to all but one byte, the header and the end more often), or as left by a crash of the compiler at a seeded write, open or close with only part of the data durable; "
        "run as the script in VM and JIT, or loaded as a module by a script that goes on; non-trivial: the file was incomplete")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["what a crash leaves is a prefix of the file"]
AXES = ["ops"]
def gen(rng, i, tier):
    c = progs.gen(rng, rng.random() < .7, .15)
    how = rng.random()
    c.update(seed=rng.getrandbits(32), gc=pick_gc(rng, .6), knobs=pick_knobs(rng), mode=rng.choice(["-B", "-X"]), load=rng.random() < .35, cuts=[rng.random() for _ in range(4)], ends=[rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, -1, -2, -3, -4, -8, -9, -16, -17]) for _ in range(3)])
    if how < .25: c["crash"] = 1
    return c
def run(rn, case):
    src, name = progs.source(case); libs = "file" in case; R = []
    p = program_plan(case, src, name, "-B", libs); p.steps = 3000000
    b = rn.run(p, inject=False); R.append(b)
    if b.bad() or b.ending != "exit 0": return Outcome(None, R, nontrivial=False, extra={"programs_without_a_normal_end": 1})
    p = program_plan(case, src, name, "-c", libs)
    r = rn.run(p, inject=False); R.append(r)
    f = "/work/" + name + "b"; whole = r.files.get(f)
    if not whole or r.bad(): return Outcome(None, R, nontrivial=False, extra={"not_saved": 1})
    images = []
    if case.get("crash"):
        p = program_plan(case, src, name, "-c", libs); p.faults = [("crash", 1, 300000)]
        r = rn.run(p); R.append(r)
        if f in r.disk: images.append(r.disk[f])
        if f in r.files: images.append(r.files[f])
    else:
        n = len(whole)
        cuts = sorted(set(int(x * n) for x in case["cuts"]) | set(x % n for x in case["ends"]))
        images = [whole[:x] for x in cuts if x < n]
    nt = 0
    for im in images:
        if case["load"]:
            q = program_plan(case, '"before" say\nload "mm"\n"after" say\n', "main.pn", libs=libs); q.files.append(("mm.pnb", im))
        else: q = program_plan(case, im, name + "b", libs=libs)
        q.steps = 20000000
        x = rn.run(q); R.append(x)
        what = "%d of %d bytes %s" % (len(im), len(whole), "loaded" if case["load"] else "run " + case["mode"])
        m = x.bad()
        if m: return Outcome("%s: %s" % (what, m), R, "crash")
        full = im == whole
        exp = b.out.decode("latin1") if full else ""
        if case["load"] and full: continue   # a module may see other globals than a script
        if case["load"]: exp = "before\nafter\n"
        out = x.out.decode("latin1")
        if out != exp or x.ending != "exit 0" and not full: return Outcome("%s: %s (ending %s)" % (what, first_diff(out, exp), x.ending), R, "ran")
        if not full:
            nt += 1
            if b"** " not in x.err and b"damaged" not in x.err: return Outcome("%s: refused, and that was not reported: %r" % (what, x.err[-200:]), R, "report")
    return Outcome(None, R, nontrivial=nt > 0, extra={"incomplete_files_tried": nt})
