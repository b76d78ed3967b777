"""Histories of opening, reading, writing, printing and closing through File objects while the calls fail or come up short, every reported result and the files left behind against a model of files, offsets and modes, under forced collections."""
import gen_files as G
from common import *
N = {"quick": 5000, "thorough": 200000}
RULE = ("seeded histories of 4-60 operations over 3 handles and 4 paths in every mode, strings, bytes, integers, doubles and booleans written, open, read, write and close failing (EIO, ENOSPC, EINTR, EAGAIN, EACCES, EMFILE), short transfers and full disks; non-trivial: a transfer happened and a fault struck")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["an operation the model allows may fail only as often as calls were failed"]
def gen(rng, i, tier):
    f = []; k = pick_knobs(rng)
    if rng.random() < .75:
        for _ in range(rng.randrange(1, 4)):
            c = rng.choice(["write", "write", "read", "read", "open", "close"])
            f.append((c, rng.choice({"write": [SHORT, SHORT, EIO, ENOSPC, EINTR, EAGAIN], "read": [SHORT, SHORT, EIO, EINTR, EAGAIN], "open": [EACCES, EMFILE, EINTR, EIO], "close": [EIO, EINTR]}[c]), rng.choice([30000, 100000, 300000, 1000000 if c != "open" else 300000])))
    if rng.random() < .1: k["diskroom"] = rng.choice([0, 10, 100, 500])
    return {"ops": G.gen(rng, rng.randrange(4, 60)), "init": G.initial(rng), "wrap": rng.randrange(2), "mode": rng.choice(["-B", "-X"]), "faults": f, "gc": pick_gc(rng, .3), "knobs": k, "seed": rng.getrandbits(32)}
def run(rn, case):
    p = program_plan(case, G.render(case["ops"], case["wrap"]), "p.pn")
    p.files += [(a, b) for a, b in case["init"]]
    if "diskroom" in p.knobs: p.knobs["diskcap"] = sum(len(f[1]) for f in p.files) + p.knobs.pop("diskroom") or 1
    r = rn.run(p); R = [r]
    b = r.bad()
    if b: return Outcome(b, R, "crash")
    if not r.out and b"** " in r.err and (r.fired.get("open") or r.fired.get("read")): return Outcome(None, R, nontrivial=False)  # the script was not read: C13
    err = sum(1 for c, n, k in r.events if c in ("open", "read", "write") and k not in (SHORT, 102)); short = sum(1 for c, n, k in r.events if c in ("read", "write") and k in (SHORT, 102))
    if r.stat.get("evlost"): err = short = sum(r.fired.get(c, 0) for c in ("open", "read", "write"))
    try: G.check(case["ops"], case["init"], r, err, short)
    except G.Bad as e: return Outcome(str(e), R, re.sub("[0-9]+", "N", re.sub(r"\[.*?\]", "", str(e)))[:40])
    if r.ending != "exit 0": return Outcome("ended with " + r.ending, R, "ending")
    return Outcome(None, R, nontrivial=err + short > 0)
