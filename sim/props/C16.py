"""Module files, directories and unexaminable entries placed over the search path at random; what load finds is compared with a model of the search, also while stat and open calls fail and collections run."""
import gen_load as G
from common import *
N = {"quick": 20000, "thorough": 200000}
RULE = ("seeded trees: up to 14 candidate entries (regular file, directory, file that cannot be examined, unreadable file) for 1-4 loads over the fixed search path, -L directories and directories pushed while running; modules are source, bytecode or a library; "
        "a twentieth of the cases name modules with -M, with and without an argument, one or more; half of the cases with failing stat calls, where the module found must be a match and every earlier match must be accounted for by a failed call; non-trivial: at least one match on the path")
REAL = CORE_REAL; STUB = CORE_STUB + ["dlopen: a library is recognised by its content and linked in"]
ASSUME = ["directory parts of a name have no dot", "an entry the system refuses to examine counts as no match"]
AXES = ["names", "L", "pushes", "files", "mods"]
def mods(case, rn):
    """modules named on the command line: each loaded, and its function called, in order, before the script"""
    p = program_plan(case, '"script" say\n', "main_.pn"); exp = []; args = []
    for n, a, there in case["mods"]:
        args.append("-M%s%s" % (n, "" if a is None else "=%d" % a))
        if not there: continue
        exp += ["<%s>" % n, "(%s, %d)" % (n, a)] if a is not None else ["<%s>" % n, n + "."]
    for n, a, there in {m[0]: m for m in case["mods"]}.values():
        if there: p.files.append(("/work/lib/%s.pn" % n, '"<%s>" say\n%s = (%s.\n' % (n, n, 'x): ("%s", x) say' % n if a is not None else '): "%s." say' % n)))
    p.dirs = ["/work/lib"]; p.args = ["-L", "lib"] + args + ([p.args[0], "-e", '"script" say'] if case["e"] else p.args)
    r = rn.run(p); m, sig = judge(r, "\n".join(exp + ["script"]) + "\n", "the modules in order")
    return Outcome(m and "-M: " + m, [r], sig, nontrivial=len(exp) > 0)
def gen(rng, i, tier):
    if rng.random() < .05:
        m = {n: [n, rng.choice([None, rng.randrange(1000)]), rng.random() < .85] for n in ("Ma", "Mb", "Mlongername", "Mc")}
        return {"mods": [m[rng.choice(sorted(m))] for _ in range(rng.randrange(1, 5))], "e": rng.randrange(2), "mode": rng.choice(["-X", "-B"]), "seed": rng.getrandbits(32), "gc": pick_gc(rng, .2), "knobs": pick_knobs(rng)}
    c = G.gen(rng)
    c.update(mode=rng.choice(["-X", "-B"]), seed=rng.getrandbits(32), gc=pick_gc(rng, .4), knobs=pick_knobs(rng), lstyle=rng.randrange(2))
    if rng.random() < .4: c["faults"] = [("stat", rng.choice([EIO, EACCES, EINTR, ENOENT]), rng.choice([10000, 50000, 200000, 600000]))]
    if rng.random() < .15: c["names"] = c["names"] * 3; c["knobs"]["maxfd"] = rng.choice([5, 6, 8])   # few descriptors: each load has to give its own back
    if rng.random() < .1: c["faults"] = c.get("faults", []) + [("open", rng.choice([EMFILE, EACCES, EINTR, EIO]), 200000)]
    return c
def content(rn, path, no):
    t = "M%04d" % no
    if path.endswith(".so"): return b"SIML"
    if path.endswith(".pnb"): return G.pnb(rn, t) or ('"%s" say\n' % t)
    return '"%s" say\n' % t
def run(rn, case):
    if "mods" in case: return mods(case, rn)
    src = []
    for k, n in enumerate(case["names"]):
        for w, d in case["pushes"]:
            if w == k: src.append('LOADER_PATH push("%s")' % d)
        src += ['"<%d" say' % k, 'load "%s"' % n, '">%d" say' % k]
    p = program_plan(case, "\n".join(src) + "\n", "main_.pn")
    args = []
    for d in case["L"]: args += ["-L" + d] if case["lstyle"] else ["-L", d]
    p.args = args + p.args
    dirs = set(["/work/lib", "/work/lib/potion", "/work/d1", "/work/d2"])
    kind = dict((a, b) for a, b in case["files"]); num = {}
    for no, (f, k) in enumerate(case["files"]):
        num[f] = no
        d = os.path.dirname(f)
        while d not in ("/", "/work"):
            dirs.add(d); d = os.path.dirname(d)
        if k == "dir": dirs.add(f)
    for f, k in case["files"]:
        if f in dirs: kind[f] = "dir"
    p.dirs = sorted(dirs)
    bad = set()
    for f, k in kind.items():
        if k == "dir": continue
        p.files.append((f, content(rn, f, num[f]), 0 if k == "unreadable" else 0o644))
        if k == "bad": p.texts.append(("badstat", f)); bad.add(f)
    r = rn.run(p)
    b = r.bad()
    R = [r]
    if b: return Outcome(b, R, "crash")
    statf = r.fired.get("stat", 0); openf = r.fired.get("open", 0)
    if openf and b"main_" in r.err and not r.out: return Outcome(None, R, nontrivial=False)   # the script itself was not opened: C13
    if statf and not r.out and b"main_" in r.err: return Outcome(None, R, nontrivial=False)
    if r.ending != "exit 0": return Outcome("ended with %s (%s)" % (r.ending, r.err[-200:].decode("latin1")), R, "ending")
    out = r.out.decode("latin1").split("\n")
    err = r.err.decode("latin1")
    pos = 0; matches = 0; used = 0; reports = 0
    path = G.FIXED + case["L"]
    for k, n in enumerate(case["names"]):
        path = path + [d for w, d in case["pushes"] if w == k]
        if pos >= len(out) or out[pos] != "<%d" % k: return Outcome("load %d: the program did not get there: %s" % (k, out[pos:pos + 2]), R, "flow")
        pos += 1; got = []
        while pos < len(out) and out[pos] != ">%d" % k: got.append(out[pos]); pos += 1
        if pos >= len(out): return Outcome("load %d of \"%s\": the program stopped there" % (k, n), R, "flow")
        pos += 1
        cands = [G.norm(c) for c in G.candidates(path, n)]
        ms = [f for f in cands if kind.get(f) in ("file", "unreadable")]
        ms = [f for i, f in enumerate(ms) if f not in ms[:i]] 
        matches += len(ms)
        def effect(f):
            """What loading this file shows; None: only a report."""
            if kind[f] == "unreadable": return None
            if f.endswith((".pn", ".pnb")) : return ["M%04d" % num[f]]
            if f.endswith(".so"): return ["probe loaded"] if G.base(os.path.basename(f)) == "probe" else None
            return None
        if not statf and not openf:
            want = effect(ms[0]) if ms else None
            if got != (want or []): return Outcome("load \"%s\" along %s: %s, want %s from %s (of the matches %s)" % (n, path, got or "nothing loaded", want or "a report", ms[0] if ms else "no match", ms), R, "search")
            if not want: reports += 1
            if not ms and "can't find %s" % n not in err: return Outcome("load \"%s\": nothing matches, and it was not reported: %r" % (n, err[-200:]), R, "report")
        else:
            # which match was it? as many failed calls are needed as matches were passed over
            if got:
                hit = [i for i, f in enumerate(ms) if effect(f) == got]
                if not hit: return Outcome("load \"%s\" along %s: %s is none of the matches %s" % (n, path, got, ms), R, "search")
                used += hit[0]
            else:
                rep = [i for i, f in enumerate(ms) if effect(f) is None]
                used += min(rep[:1] + ([1] if ms else [0]))   # passed over to a file that cannot be run, or the call that failed was loading the match
                reports += 1
    if pos < len(out) and out[pos:] != [""]: return Outcome("more output: %s" % out[pos:pos + 3], R, "flow")
    if used > statf + openf: return Outcome("%d earlier matches were passed over with %d failed calls" % (used, statf + openf), R, "passed over")
    if err.count("** ") < reports: return Outcome("%d loads failed, %d reports: %r" % (reports, err.count("** "), err[-300:]), R, "report")
    return Outcome(None, R, nontrivial=matches > 0)
