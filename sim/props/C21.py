"""Keys typed at a simulated terminal - text, editing and history keys, control sequences - arriving in pieces of any size, reads interrupted, the terminal refusing changes of mode, input ending at any byte; every line
readline returns, and the terminal's mode, against a model of the editor."""
import gen_tty as T
from common import *
N = {"quick": 8000, "thorough": 300000}
RULE = ("seeded sessions of 1-25 lines of up to 5000 keys (text, all the editing keys, recall from the history, unknown control sequences, ctrl-c, ctrl-d), delivered in chunks of 1-64 bytes with reads interrupted, cut at "
        "any byte, on terminals of 0-300 columns, terminals that cannot edit, and pipes; mode changes failing (EIO, EINTR); in VM and JIT, under forced collections; non-trivial: input came in pieces or a call failed")
REAL = CORE_REAL + ["lib/readline/*.c"]; STUB = CORE_STUB + ["the terminal: input bytes, mode, width"]
ASSUME = ["keys without a meaning (ctrl-g, ctrl-j ...) and NUL are not typed", "an interrupted read happens on a terminal only"]
AXES = ["lines"]
def gen(rng, i, tier):
    how = rng.choices(["tty", "dumb", "pipe"], [8, 1, 1])[0]; n = rng.randrange(1, 26) if rng.random() < .5 else rng.randrange(1, 5); k = pick_knobs(rng); f = []
    lines = [T.keys(rng, size) if how == "tty" else T.plain(rng, size) for _ in range(n)]
    if rng.random() < .15 and lines[-1]: lines[-1][-1] = lines[-1][-1][:-1] or b""
    k["stdin_chunk"] = rng.choice([0, 1, 1, 2, 3, 3, 4, 7, 64]); k["tty_cols"] = rng.choice([80, 80, 20, 1, 2, 7, 132, 300, 0, 0, -1])
    if how == "tty":
        if rng.random() < .5: f.append(("stdin", EINTR, rng.choice([5000, 50000, 300000])))
        if rng.random() < .25: f.append(("tty", rng.choice([EIO, EINTR]), rng.choice([20000, 100000, 400000])))
    elif rng.random() < .5: f.append(("stdin", SHORT, 300000))
    k["outbuf"] = rng.choice([1, 16, 1024, 4096])
    return {"how": how, "lines": [[t.decode("latin1") for t in l] for l in lines], "hist": [T.typed(rng, rng.randrange(0, 6)).decode("latin1") for _ in range(rng.choice([0, 0, 0, 1, 5, 99, 100, 101, 130]))],
            "prompt": rng.choice([">> ", "", "p", "longer prompt> ", "x" * 90]), "extra": rng.randrange(1, 4), "mode": rng.choice(["-B", "-X"]), "faults": f, "gc": pick_gc(rng, .3), "churn": rng.choice([0, 0, 30]), "knobs": k,
            "seed": rng.getrandbits(32)}
def faults_of(r, cls): return {n: k for c, n, k in r.events if c == cls}
def expect(ed, how, times, bad):
    """The values, and whether the terminal may be left raw: changes of mode that the system refused are looked up by their number."""
    out = []; n = 0; raw = False
    for _ in range(times):
        if how != "tty": v = ed.cooked(b"\r\n" if how == "dumb" else b"\n")
        else:
            v = None; up = True
            if not raw:
                up = n not in bad; n += 1
            if up:
                while bad.get(n) == EINTR: n += 1
                up = n not in bad; n += 1
            if up:
                raw = True; v = ed.edit()
                while bad.get(n) == EINTR: n += 1
                raw = n in bad; n += 1
        if v is not None: ed.add(v)
        out.append(v)
    while raw and n in bad and bad[n] == EINTR: n += 1
    return out, raw and n in bad
def plan(case, data, src, files):
    p = program_plan(case, src, "p.pn", libs=True); p.files += files; p.stdin = data; p.tty = case["how"] != "pipe"
    p.env = ["TERM=" + ("dumb" if case["how"] == "dumb" else "xterm")]; p.knobs.setdefault("cpu_s", 10); p.steps = 3000000
    return p
def run(rn, case):
    data = "".join("".join(l) for l in case["lines"]).encode("latin1"); times = len(case["lines"]) + case["extra"]
    hist = [h.encode("latin1") for h in case["hist"]]
    p = plan(case, data, T.script(case["prompt"], times, case["churn"]), [("history.txt", b"".join(h + b"\n" for h in hist))] if hist else [])
    r = rn.run(p); b = r.bad()
    if b: return Outcome(b, [r], "crash")
    if r.stat["evlost"] and r.fired.get("tty"): return Outcome(None, [r], nontrivial=False)
    want, rawok = expect(T.Ed(data, hist), case["how"], times, faults_of(r, "tty"))
    got, end = T.shown(r.out)
    if r.ending != "exit 0": return Outcome("ended with %s: %s" % (r.ending, r.err[-200:]), [r], "ending")
    for j in range(max(len(got), len(want))):
        g = got[j] if j < len(got) else "nothing"; w = want[j] if j < len(want) else "nothing"
        if g != w: return Outcome("line %d is %r, the keys typed say %r" % (j + 1, g if g is None else g[-80:], w if w is None else w[-80:]), [r], "nil" if g is None or w is None else "line")
    if not end: return Outcome("the program did not get to its end", [r], "end")
    if r.stat["tty_raw"] and not rawok: return Outcome("the terminal was left in raw mode", [r], "raw")
    if r.stat["raw_out"] and not r.fired.get("tty"): return Outcome("the program went on with the terminal in raw mode", [r], "raw")
    return Outcome(None, [r], nontrivial=bool(r.events) or case["knobs"]["stdin_chunk"] == 1, extra={"keys": sum(len(l) for l in case["lines"]), "lines": times})
