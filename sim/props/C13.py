"""Scripts and modules loaded while opening, examining and reading them fails, comes up short, or finds the file changed: each file's statements show whole or not at all, with a report, and the rest of the program goes on."""
import gen_load
from common import *
N = {"quick": 12000, "thorough": 300000}
RULE = ("a script of 1-60 statements that loads 0-5 modules (source or bytecode, some loading further modules), open, stat, read and close failing at random (EIO, EINTR, ENOENT, EACCES, EMFILE, short reads, file cut or grown before the read), under forced collections; "
        "non-trivial: a fault struck")
REAL = CORE_REAL; STUB = CORE_STUB
ASSUME = ["a file that grew after it was examined may run as it was or as it is"]
MODS = ["a", "b", "c", "d", "sub/e"]
AXES = ["ops"]
READK = [EIO, SHORT, SHORT, EINTR, CUT, GROWN, EAGAIN]
def body(rng, tag, loads, n):
    """Statements: ["s", i] says, ["l", module] loads."""
    b = [["s", i] for i in range(n)]
    for m in loads: b.insert(rng.randrange(len(b) + 1), ["l", m])
    return b
def gen(rng, i, tier):
    k = rng.choice([0, 1, 1, 2, 3, 5]); ms = MODS[:k]
    ops = [["main"] + body(rng, "m", [rng.choice(ms) for _ in range(rng.randrange(1, 6))] if ms else [], rng.choice([1, 2, 3, 8, 30, 60]))]
    for j, m in enumerate(ms):
        if rng.random() < .25: ops.append([m, "pnb"]); continue
        deeper = ms[j + 1:]
        ops.append([m] + body(rng, m, [rng.choice(deeper)] if deeper and rng.random() < .5 else [], rng.choice([0, 1, 2, 5, 40])))
    f = []
    if rng.random() < .8: f.append(("read", rng.choice(READK), rng.choice([30000, 150000, 400000, 1000000])))
    if rng.random() < .3: f.append(("open", rng.choice([EIO, EACCES, ENOENT, EMFILE, EINTR]), rng.choice([50000, 200000, 500000])))
    if rng.random() < .3: f.append(("stat", rng.choice([EIO, EACCES, ENOENT]), rng.choice([20000, 100000])))
    if rng.random() < .1: f.append(("close", EIO, 300000))
    return {"ops": ops, "faults": f, "mode": rng.choice(["-X", "-B"]), "seed": rng.getrandbits(32), "gc": pick_gc(rng, .6), "knobs": pick_knobs(rng), "defs": rng.random() < .5}
def run(rn, case):
    mods = {}; src = {}
    for o in case["ops"]: mods[o[0]] = o[1:]
    def text(m, tag):
        L = []
        for x in mods[m]:
            if x[0] == "s": L.append('"%s:%d" say' % (tag, x[1]))
            elif x[1] in mods: L.append('load "%s"' % x[1])
        return "\n".join(L) + "\n"
    pre = "f = (x): x + 1.\nn = f(41)\n" if case.get("defs") else ""
    post = 'n say\n"done" say\n' if case.get("defs") else '"done" say\n'
    if "main" not in mods: return Outcome(None, [], nontrivial=False)
    p = program_plan(case, pre + text("main", "m") + post, "main.pn")
    p.dirs = ["sub"]; no = {}
    for m in mods:
        if m == "main": continue
        if mods[m] == ["pnb"]:
            no[m] = "M%04d" % len(no); b = gen_load.pnb(rn, no[m])
            if b: p.files.append((m + ".pnb", b)); continue
            mods[m] = [["s", 0]]; 
        p.files.append((m + ".pn", text(m, m)))
    r = rn.run(p); R = [r]; fired = sum(r.fired.get(c, 0) for c in ("open", "stat", "read", "close"))
    b = r.bad()
    if b: return Outcome(b, R, "crash")
    out = r.out.decode("latin1").split("\n"); err = r.err.decode("latin1"); nrep = err.count("** ")
    if out == [""]:
        if not fired: return Outcome("nothing was run, and nothing failed (%s)" % err[-200:], R, "nothing")
        if not nrep: return Outcome("the script was not run, and that was not reported (ending %s)" % r.ending, R, "report")
        return Outcome(None, R, nontrivial=True, extra={"scripts_refused": 1})
    if r.ending != "exit 0": return Outcome("ended with %s (%s)" % (r.ending, err[-200:]), R, "ending")
    pos = [0]; missing = [0]
    GROWN_T = "GROWN"
    class Bad(Exception): pass
    def walk(m):
        tag = "m" if m == "main" else m
        if mods[m] == ["pnb"]:
            if out[pos[0]] != no[m]: raise Bad("module %s: %s" % (m, out[pos[0]]))
            pos[0] += 1; return
        started = False
        for x in mods[m]:
            if x[0] == "l":
                if x[1] in mods: module(x[1])
                continue
            want = "%s:%d" % (tag, x[1])
            if pos[0] >= len(out) or out[pos[0]] != want: raise Bad("statement %s did not run where it should (there is %r)" % (want, out[pos[0]:pos[0] + 1]))
            pos[0] += 1
    def skip_grown():
        while pos[0] < len(out) and out[pos[0]] == GROWN_T: pos[0] += 1
    def module(m):
        """Whole, or not at all and reported."""
        save = (pos[0], missing[0])
        try: walk(m); skip_grown(); return
        except (Bad, IndexError) as e: why = str(e); far = pos[0]
        pos[0], missing[0] = save
        missing[0] += 1; partial.append((far, m, why))
    partial = []
    try:
        walk("main")
        if case.get("defs"):
            if out[pos[0]] != "42": raise Bad("the script's own function gave %s" % out[pos[0]])
            pos[0] += 1
        if out[pos[0]] != "done": raise Bad("want the end, there is %r" % out[pos[0]])
        pos[0] += 1; skip_grown()
        if out[pos[0]:] != [""]: raise Bad("more output: %r" % out[pos[0]:pos[0] + 2])
    except (Bad, IndexError) as e:
        w = max(partial, key=lambda t: t[0]) if partial else None
        return Outcome("not whole: %s%s (%s)" % (e, "; module %s: %s" % w[1:] if w else "", err[-200:]), R, "partial")
    empty = sum(1 for m in mods if m != "main" and mods[m] != ["pnb"] and not any(x[0] == "s" for x in mods[m]))
    if missing[0] and not fired: return Outcome("a module was not run, and nothing failed: %s (%s)" % (partial, err[-200:]), R, "nothing")
    if nrep < missing[0]: return Outcome("%d modules were not run, %d reports: %r" % (missing[0], nrep, err[-300:]), R, "report")
    return Outcome(None, R, nontrivial=fired > 0, extra={"modules_refused": missing[0]})
