"""Programs that print in every way and read their input line by line, output accepted a few bytes at a time, input arriving in pieces of any size, buffers of any size, ending normally, by exit or by an error: the output against what the program's text and input say, of the real machine in the simulator"""
import gen_print as G
from common import *
N = {"quick": 4000, "thorough": 150000}
RULE = ("seeded programs of 2-40 print and read operations (strings to 20000 bytes, numbers, lists, bytes, loops to 2000 prints, functions, methods, eval, modules), inputs of 0-100 lines to 5000 bytes with and without a final newline; "
        "short writes at 1-100%, input chunks of 1-4096 bytes, stdio buffers of 1-8192 bytes, collections anywhere; non-trivial: a short write or a chunked read happened")
REAL = CORE_REAL + ["glibc stdio buffering over the simulated descriptors"]; STUB = CORE_STUB
ASSUME = ["input without NUL bytes", "a print is not followed by output through a File on the same descriptor"]
def gen(rng, i, tier):
    k = pick_knobs(rng); k["outbuf"] = rng.choice([1, 2, 16, 100, 1024, 4096, 8192]); k["inbuf"] = rng.choice([1, 7, 64, 1024, 4096])
    if rng.random() < .8: k["stdin_chunk"] = rng.choice([1, 2, 3, 10, 100, 1000, 4096])
    f = [("stdout", SHORT, rng.choice([10000, 100000, 500000, 1000000]))] if rng.random() < .8 else []
    return {"ops": G.gen(rng, rng.randrange(2, 40) if rng.random() < .7 else rng.randrange(1, 6)), "stdin": G.stdin(rng).decode("latin1"), "wrap": rng.randrange(2), "mode": rng.choice(["-B", "-X"]), "faults": f,
            "gc": pick_gc(rng, .4) if rng.random() < .5 else [3000, 15], "knobs": k, "seed": rng.getrandbits(32)}
def run(rn, case):
    sin = case["stdin"].encode("latin1")
    src, out, mods, ending = G.render(case["ops"], sin, case["wrap"])
    p = program_plan(case, src, "p.pn")
    p.stdin = sin
    for m, (w, h) in mods.items(): p.files.append((m + ".pn", '"%s" %s\n%s say\n' % (w, h, m[1:])))
    p.files.append(("mbad.pn", "1 + ) (\n"))
    p.steps = 20000000
    r = rn.run(p); R = [r]
    b = r.bad()
    if b: return Outcome(b, R, "crash")
    if r.out != out:
        n = next((i for i in range(min(len(out), len(r.out))) if out[i] != r.out[i]), min(len(out), len(r.out)))
        return Outcome("the output has %d bytes, %d were printed; from byte %d it is %r, printed was %r (ending %s; %s)" % (len(r.out), len(out), n, r.out[max(0, n - 10):n + 40], out[max(0, n - 10):n + 40], r.ending, r.err[-100:].decode("latin1")), R, "output")
    if r.ending != ending: return Outcome("ended with " + r.ending, R, "ending")
    return Outcome(None, R, nontrivial=bool(r.events))
