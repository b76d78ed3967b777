"""Histories of SQL statements through the Database binding over the real engine, its file calls failing, coming up short, filling the disk, or the program or the machine stopping dead at any of them, under forced collections; every reported result and row, and the databases found on reopening, against the states the reported results allow"""
import gen_db as G
from common import *
N = {"quick": 5000, "thorough": 100000}
RULE = ("seeded histories of 4-50 operations over 3 handles and 3 files: schema changes, inserts of 1-400 rows, updates, deletes, transactions and savepoints, statements that fail, several statements in a string, queries of 0-1500 rows and 1-70 columns read by callback, into a list, or with gettable, statements run inside callbacks, closing and reopening; "
        "file calls failing (EIO, ENOSPC, EMFILE ...), short transfers, full disks, the program or the machine stopping at any file call; every result against the engine's own reference in the states possible, the files reopened afterwards; non-trivial: a fault or a crash struck, or a collection moved the heap")
REAL = CORE_REAL + ["lib/database.c", "SQLite 3.45 (the installed static library) over the simulated files"]; STUB = CORE_STUB
ASSUME = ["no stat call fails: SQLite takes one that does for a missing journal", "values without NUL bytes", "one handle per file", "after a power loss, unlike after a crash of the program, the last commit may be missing unless synchronous=extra is set: SQLite's own documented limit",
          "a statement that failed because of the disk may have ended the transaction it was in"]
def gen(rng, i, tier):
    f = []; k = pick_knobs(rng); r = rng.random(); power = 0
    if r < .35:
        for _ in range(rng.randrange(1, 3)):
            c = rng.choice(["write", "write", "read", "fsync", "open", "meta", "close"])
            f.append((c, rng.choice({"write": [SHORT, EIO, ENOSPC, EDQUOT], "read": [SHORT, EIO], "fsync": [EIO], "open": [EMFILE, EIO, EACCES], "meta": [EIO, EACCES], "close": [EIO]}[c]), rng.choice([3000, 20000, 100000, 300000])))
    elif r < .43: k["diskroom"] = rng.choice([0, 4096, 9000, 20000, 40000])
    elif r < .47: f.append(("malloc", ENOMEM, rng.choice([300, 3000, 20000]))); k["mallocfault"] = 1
    elif r < .75: f.append(("crash", EIO, rng.choice([2000, 5000, 10000, 30000]))); power = rng.choice([0, 1, 1, 2])
    k["outbuf"] = 1; ops = G.gen(rng, rng.randrange(4, 50)); gc = pick_gc(rng, .15)
    if gc and gc[0] * max(gc[1], 5) > 3000000 and len(str(ops).split("< 1500")) + len(str(ops).split("churn', 2000")) + len(str(ops).split("< 400")) + len(str(ops).split("< 300")) > 4: gc = [50000, 15]  # each collection costs in proportion to the heap
    return {"ops": ops, "wrap": 0, "power": power, "mode": rng.choice(["-B", "-X"]), "faults": f, "gc": gc, "knobs": k, "seed": rng.getrandbits(32)}
def reopen(rn, case, R, files, st, what):
    fs = [f for f in G.FILES if any("/work/" + f == x for x in files)]
    q = program_plan({"seed": case["seed"] ^ 5, "mode": "-B"}, G.inspect_src(fs), "q.pn", libs=True); q.dirs.append("/tmp")
    q.files += [(n, b) for n, b in files.items() if re.match(r"/work/f\d\.db", n)]
    x = rn.run(q, inject=False); R.append(x)
    if x.bad(): return x.bad(), "crash"
    got = x.out.decode("latin1").split("\n"); at = 0
    for f in fs:
        j = got.index("@" + f); e = next((y for y in range(j + 1, len(got)) if got[y] in ["@" + g for g in fs]), len(got) - 1)
        g = got[j:e]; ws = [G.inspect_want(s, f) for s in st[f]]
        if g not in ws:
            w = ws[0] if ws else []; d = next((y for y in range(min(len(w), len(g))) if w[y] != g[y]), min(len(w), len(g)))
            return "reopened %s, %s holds from line %d %r; one of %d possible states has %r" % (what, f, d, [y[:80] for y in g[d:d + 4]], len(ws), [y[:80] for y in w[d:d + 4]]), "reopen"
    for f in G.FILES:
        if f not in fs and not any(s.dropped().dump() == G.Db().dump() for s in st[f]): return "%s, %s is gone" % (what, f), "reopen"
    return None, None
def run(rn, case):
    p = program_plan(case, G.render(case["ops"], case["wrap"]), "p.pn", libs=True); p.dirs.append("/tmp")
    room = p.knobs.pop("diskroom", None)
    if room is not None: p.knobs["diskcap"] = sum(len(f[1]) for f in p.files) + room or 1
    p.knobs.setdefault("cpu_s", 20); p.steps = 20000000
    r = rn.run(p); R = [r]
    b = r.bad()
    if b: return Outcome(b, R, "crash")
    oom = r.fired.get("malloc") and b"allocate memory" in r.err  # potion itself was refused memory: it stopped (C08)
    crashed = r.ending.startswith("crash") or oom
    out = r.out.decode("latin1")
    hard = any(c in ("open", "read", "write", "close", "fsync", "meta", "stat", "seek", "malloc") and n != SHORT for c, x, n in r.events) or bool(r.stat.get("evlost"))
    if not out.startswith("#0\n") or out.startswith("#!") or b"can't find" in r.err and r.events:
        if hard or crashed or r.fired.get("read"): return Outcome(None, R, nontrivial=False)  # the script or the library was not loaded: C13
        return Outcome("nothing was done: %s %r" % (r.ending, r.err[-200:]), R, "nothing")
    try: J, done = G.check(case["ops"], out, hard, crashed)
    except G.Bad as e: return Outcome("%s (ending %s; %s)" % (e, r.ending, r.err[-150:].decode("latin1")), R, e.sig)
    except G.Many: return Outcome(None, R, nontrivial=False, extra={"too_many_states": 1})
    if not crashed and r.ending != "exit 0": return Outcome("ended with " + r.ending, R, "ending")
    st = {f: {s.dropped() for s in c} for f, c in J.f.items()}
    m, s = reopen(rn, case, R, r.files, st, "after the program " + ("stopped dead" if crashed else "ended"))
    if m: return Outcome(m, R, s)
    if crashed and not oom:
        st = {f: c | {y for x in c for y in x.before()} for f, c in st.items()}
        m, s = reopen(rn, case, R, r.disk, st, "after a power loss")
        if m: return Outcome(m, R, s + " power")
    return Outcome(None, R, nontrivial=bool(r.events) or crashed or r.stat.get("gcs", 0) > 1, extra={"crashes": int(crashed), "operations_judged": done})
