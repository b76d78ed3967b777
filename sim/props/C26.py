"""One program run repeatedly from the same input, in processes that differ in everything else: heap, stack and mapping addresses, stale stack contents, contents of fresh memory, clocks, buffer sizes, collection timing."""
import progs
from common import *
VARIANTS = ("O0", "O3")
N = {"quick": 5000, "thorough": 150000}
RULE = ("the repository's and generated programs, and programs that print tables with object, list and number keys, default sorts, random numbers and input lines; each run in two or three processes that differ in address layout, stale stack and heap bytes, wall and monotonic clock, and stdio chunking; "
        "non-trivial: the runs differ in layout and the program prints something")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["an address a program prints itself (the default text of an object or function) is not compared"]
ADDR = re.compile(rb"0x[0-9a-f]{5,}|<[a-z ]*[0-9a-f]{8,}>|#<[^>]*>")
def misc(rng):
    L = []
    names = []
    def val(d=0):
        r = rng.random()
        if r < .3: return str(rng.randrange(-1000, 100000))
        if r < .55: return '"%s"' % "".join(rng.choice("abcxyz ") for _ in range(rng.randrange(0, 12)))
        if r < .7 and d < 2: return "(%s)" % ", ".join(val(d + 1) for _ in range(rng.randrange(2, 5)))
        if r < .8: return rng.choice(["1.5", "0.25", "100.125", "nil", "true", "false"])
        return "%d" % rng.randrange(10)
    L.append("C = class (n): /n = n.\nC new = (x): x.")if rng.random() < 0 else L.append("C = class (n): /n = n.")
    for i in range(rng.randrange(3, 12)):
        r = rng.random(); v = "v%d" % i
        if r < .3:
            n = rng.randrange(2, 9)
            L.append("%s = (%s)" % (v, ", ".join('"%s%d"=%s' % (rng.choice("kqz"), j, val()) for j in range(n))))
            L.append(rng.choice(["%s say", "%s each (k, v): (k, v) say.", "%s keys say", "%s string say"]) % v)
        elif r < .5:
            L.append("%s = (%s)" % (v, ", ".join(val() for _ in range(rng.randrange(2, 9)))))
            L.append(rng.choice(["%s say", "%s sort say", "%s sort(nil) say", "%s ins_sort say", "%s reverse say", "%s string length say"]) % v)
        elif r < .6: L.append("%s = C(%s)\n%s = C(7)\nt%d = (%s=1, %s=2)\nt%d each (k, v): v say." % (v, val(), v + "b", i, v, v + "b", i))
        elif r < .7: L.append(rng.choice(["rand say", "5 rand say", "srand(%d)\nrand say" % rng.randrange(100), "(rand % 10) say"]))
        elif r < .8: L.append("read say")
        elif r < .9: L.append('%s = %s\n%s string say' % (v, val(), v))
        else: L.append('Env length say')
    return "\n".join(L) + "\n"
def knobs(rng):
    k = pick_knobs(rng); k.pop("frontend", None)
    k.update(layout=rng.randrange(0, 4000), stacklayout=rng.randrange(0, 4000), perturb=rng.choice([0, 1, 85, 170, 255]), wall_skew=rng.randrange(0, 10**8), mono_base_s=rng.randrange(1, 10**6),
             stackoff=rng.randrange(0, 64) * 64, outbuf=rng.choice([1, 7, 64, 4096]), inbuf=rng.choice([1, 5, 4096]), stdin_chunk=rng.choice([0, 1, 3]))
    return k
def gen(rng, i, tier):
    c = {"text": misc(rng)} if rng.random() < .4 else progs.gen(rng, rng.random() < .5, .3)
    c.update(seed=rng.getrandbits(32), mode=rng.choice(["-B", "-X"]), runs=[[knobs(rng), rng.randrange(5), rng.getrandbits(30)] for _ in range(rng.choice([2, 2, 3]))], variant=rng.choice(["O0", "O3"]))
    return c
AXES = ["ops"]
def run(rn, case):
    src, name = (case["text"], "p.pn") if "text" in case else progs.source(case)
    R = []; first = None
    for k, fill, seed in case["runs"]:
        p = program_plan(case, src, name, libs="file" in case); p.knobs = dict(k); p.stackfill = fill; p.seed = seed; p.steps = 3000000
        p.env = ["HOME=/work", "PATH=/bin", "LANG=C"]; p.stdin = b"one\ntwo\nthree\n" * 5
        r = rn.run(p); R.append(r)
        if first is None: first = r; continue
        a = (ADDR.sub(b"@", first.out), first.ending); b = (ADDR.sub(b"@", r.out), r.ending)
        if first.bad() and (first.bad().startswith("hang") or r.end == first.end): return Outcome(None, R, nontrivial=False)
        if a != b: return Outcome("%s: two runs differ: %s / %s, %s" % (case.get("file", "program"), first.ending, r.ending, first_diff(b[0].decode("latin1"), a[0].decode("latin1"))), R, "differs")
    return Outcome(None, R, nontrivial=bool(first.out))
