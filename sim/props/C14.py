"""Compiling to bytecode while opening, writing and closing the output file fails, comes up short or fills the disk, under forced collections; whenever the compiler says saved, the file is run and compared with the source."""
import progs
from common import *
N = {"quick": 4000, "thorough": 150000}
RULE = ("the repository's and generated programs compiled with -c, half over an older output file, with open, write and close failing at random (EIO, ENOSPC, EDQUOT, EINTR, EACCES, short writes) or a disk with room for a part only; "
        "saved files are run in the VM and the JIT and compared with the source in the VM; non-trivial: a fault struck or the disk was full")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["a program that does not end normally by itself is not compared"]
AXES = ["ops"]
def gen(rng, i, tier):
    c = progs.gen(rng, rng.random() < .6)
    r = rng.random(); f = []; k = pick_knobs(rng)
    if r < .45: f.append(("write", rng.choice([EIO, ENOSPC, EDQUOT, EINTR, SHORT, SHORT]), rng.choice([100000, 400000, 1000000])))
    elif r < .6: k["diskroom"] = rng.choice([0, 1, 10, 50, 100, 200, 500, 1000, 4095, 4096, 4097])
    elif r < .75: f.append(("close", rng.choice([EIO, ENOSPC, EDQUOT, EINTR]), 500000))
    elif r < .85: f += [("close", EIO, 200000), ("write", rng.choice([ENOSPC, SHORT]), 200000)]
    if rng.random() < .1: f.append(("open", rng.choice([EACCES, EMFILE, ENOSPC]), 300000))
    if rng.random() < .1: f.append(("read", rng.choice([EIO, SHORT]), 300000))
    c.update(faults=f, seed=rng.getrandbits(32), gc=pick_gc(rng, .5), knobs=k, old=rng.choice([0, 0, 10, 3000]), mode=rng.choice(["-B", "-X"]), outbuf=0)
    return c
def run(rn, case):
    src, name = progs.source(case); libs = "file" in case; R = []
    p = program_plan(case, src, name, "-B", libs); p.steps = 3000000; p.knobs.pop("diskroom", None)
    b = rn.run(p, inject=False); R.append(b)
    if b.bad() or b.ending != "exit 0": return Outcome(None, R, nontrivial=False, extra={"programs_without_a_normal_end": 1})
    p = program_plan(case, src, name, "-c", libs)
    room = p.knobs.pop("diskroom", None)
    if case["old"]: p.files.append((name + "b", b"\x79\x61\x6c\x6b" + b"old " * case["old"]))
    if room is not None: p.knobs["diskcap"] = sum(len(f[1]) for f in p.files) + room - (len(p.files[-1][1]) if case["old"] else 0) or 1
    r = rn.run(p); R.append(r)
    m = r.bad()
    if m: return Outcome("compiling: " + m, R, "crash")
    hit = any(r.fired.get(c) for c in ("write", "close", "open", "read"))
    out = r.out.decode("latin1"); err = r.err.decode("latin1")
    f = "/work/" + name + "b"
    if "compiled code saved" not in out:
        if not hit and "too many constants or functions" in err and len(src) > 1500: return Outcome(None, R, nontrivial=False, extra={"programs_past_the_format": 1})
        if not hit: return Outcome("not saved, and nothing failed: %s %s" % (r.ending, err[-200:]), R, "nothing")
        if "** " not in err: return Outcome("not saved, and that was not reported (ending %s)" % r.ending, R, "report")
        return Outcome(None, R, nontrivial=True, extra={"failed_saves_reported": 1})
    if f not in r.files: return Outcome("reported saved, there is no file", R, "incomplete")
    for mode in ("-B", "-X") if case["seed"] % 4 == 0 else (case["mode"],):
        q = program_plan(case, r.files[f], name + "b", mode, libs); q.knobs.pop("diskroom", None); q.steps = 20000000
        x = rn.run(q, inject=False); R.append(x)
        m, sig = judge(x, b.out.decode("latin1"), "the source", code=b.ending)
        if m: return Outcome("reported saved, running the %d bytes %s: %s" % (len(r.files[f]), mode, m), R, "incomplete")
    return Outcome(None, R, nontrivial=hit, extra={"saves_reported_done": 1})
