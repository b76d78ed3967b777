"""Strings made equal and different in many ways, dropped and made again, against their contents, under forced collections."""
import gen_strings as G
from common import *
N = {"quick": 2500, "thorough": 200000}
RULE = ("seeded histories of 10-120 operations making strings by literal, concatenation, slicing, indexing, number conversion, join, bytes, evaluation and file reading, dropping and recreating them, using them as table keys, method names and arguments; "
        "non-trivial: at least 5 comparisons and one forced collection")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["strings without NUL bytes, except for the listed finding"]
def gen(rng, i, tier):
    return {"ops": G.gen(rng, rng.randrange(10, 120)), "wrap": rng.randrange(2), "mode": rng.choice(["-B", "-X"]), "gc": pick_gc(rng), "knobs": pick_knobs(rng), "seed": rng.getrandbits(32)}
def nul(): return {"kind": "nul", "mode": "-B", "seed": 1, "gc": None, "knobs": {}}
KNOWN = [("nul-byte", nul)]
def run(rn, case):
    if case.get("kind") == "nul":
        p = program_plan(case, 's = "ab"\nf = File("d", "r")\nb = f read(5)\nu = b string\n(u length, u == s) say\n'); p.files.append(("d", b"ab\0cd"))
        r = rn.run(p); m, sig = judge(r, "(5, false)\n")
        return Outcome(m and "a string of the bytes ab NUL cd: " + m, [r], sig)
    src, exp = G.render(case["ops"], case["wrap"])
    r = rn.run(program_plan(case, src))
    m, sig = judge(r, exp)
    return Outcome(m and "%s (history of %d operations): %s" % (case["mode"], len(case["ops"]), m), [r], sig, nontrivial=exp.count("\n") >= 5 and r.stat.get("gcs", 0) > 0)
