"""Histories of opening, reading, writing, seeking, flushing, closing, reopening and deleting through BufFile objects while the calls under stdio fail or come up short, every reported result and the files left behind against a model of streams, of the real machine and buffile library in the simulator"""
import gen_buffile as G
from common import *
N = {"quick": 1600, "thorough": 200000}
RULE = ("seeded histories of 4-60 operations over 3 streams in every mode with lines, blocks and single bytes of 0-9000 bytes, open, read, write, seek and close failing (EIO, ENOSPC, EINTR, EMFILE ...) or coming up short, "
        "disks that fill up, collections anywhere; every result against the model, the files after the last close byte for byte; a failure the system injected must have been reported by some operation")
REAL = CORE_REAL + ["lib/buffile.c", "glibc stdio buffering over the simulated files (fopencookie)"]; STUB = CORE_STUB
ASSUME = ["after an operation reported a failure, what that stream left in its file is not judged until the file is truncated again", "an operation may report a failure only in a run where a call failed"]
def gen(rng, i, tier):
    f = []; k = pick_knobs(rng)
    if rng.random() < .7:
        for _ in range(rng.randrange(1, 3)):
            c = rng.choice(["write", "write", "write", "read", "read", "open", "close", "seek"])
            f.append((c, rng.choice({"write": [SHORT, SHORT, EIO, ENOSPC, EINTR], "read": [SHORT, SHORT, EIO, EINTR], "open": [EACCES, EMFILE, EIO], "close": [EIO, EINTR], "seek": [EIO]}[c]), rng.choice([20000, 100000, 400000])))
    if rng.random() < .1: k["diskroom"] = rng.choice([0, 10, 100, 500, 5000])
    return {"ops": G.gen(rng, rng.randrange(4, 60)), "init": G.initial(rng), "wrap": rng.randrange(2), "mode": rng.choice(["-B", "-X"]), "faults": f, "gc": pick_gc(rng, .3), "knobs": k, "seed": rng.getrandbits(32)}
MEM = 'load "buffile"\nb = "first line\\nsecond line\\n" bytes\ns = b fmemopen("r")\nl = ()\ni = 0\nwhile (i < 50):\n  l push((i, "text"))\n  i = i + 1\n.\nx = s fgets\nx print\nx = s fgets\nx print\nb length say\n'
def mem(): return {"kind": "mem", "mode": "-B", "seed": 1, "gc": [200000, 50], "knobs": {}}
KNOWN = [("fmemopen-moved", mem)]
def run(rn, case):
    if case.get("kind") == "mem":
        r = rn.run(program_plan(case, MEM, "p.pn", libs=True))
        m, s = judge(r, "first line\nsecond line\n23\n")
        return Outcome(m, [r], s)
    p = program_plan(case, G.render(case["ops"], case["wrap"]), "p.pn", libs=True)
    p.files += [(a, b) for a, b in case["init"]]
    if "diskroom" in p.knobs: p.knobs["diskcap"] = sum(len(f[1]) for f in p.files) + p.knobs.pop("diskroom") or 1
    r = rn.run(p); R = [r]
    b = r.bad()
    if b: return Outcome(b, R, "crash")
    if (b"** " in r.err or b"can't find" in r.err or not r.out) and r.cnt.get("open", 0) and any(c in ("open", "read", "seek", "close") for c, n, k in r.events) and b"end\n" not in r.out: 
        return Outcome(None, R, nontrivial=False)  # the script or the library was not loaded: C13
    hard = [e for e in r.events if e[0] in ("open", "read", "write", "seek", "close") and e[2] not in (SHORT, 102)]
    lost = any(e[0] == "write" and e[2] not in (SHORT, 102) for e in r.events)
    try: reports = G.check(case["ops"], case["init"], r, bool(hard) or bool(r.stat.get("evlost")))
    except G.Bad as e: return Outcome(str(e), R, re.sub("[0-9]+", "N", re.sub(r"\[.*?\]|'[^']*'|\"[^\"]*\"", "", str(e)))[:40])
    if r.ending != "exit 0": return Outcome("ended with " + r.ending, R, "ending")
    return Outcome(None, R, nontrivial=bool(r.events))
