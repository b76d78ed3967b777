"""Sessions of lines entered one after another over the same history file, at a terminal and from pipes, while opening, reading, writing, closing and renaming fail or the program stops dead; the file after each session,
and what the history keys recall in the next, against a model."""
import gen_tty as T, props.C21 as C21
from common import *
N = {"quick": 5000, "thorough": 200000}
RULE = ("seeded histories of 1-4 sessions of 1-20 lines (to 130 in some; text, blank, to 4095 bytes, edited and recalled) over files of 0-130 earlier lines, in VM and JIT; open, read, write, close and rename failing "
        "(EIO, ENOSPC, EMFILE ...), short writes, full disks, the program stopping dead at any file call; the file after each session is one that the last saves allow, recall in the next session shows what it holds; "
        "non-trivial: a file call failed or the program was stopped, or two sessions followed one another")
REAL = CORE_REAL + ["lib/readline/*.c"]; STUB = CORE_STUB + ["the terminal: input bytes, mode, width"]
ASSUME = ["one session at a time", "lines hold no carriage returns or newlines", "what a power loss leaves is up to the file system"]
AXES = ["sessions"]
def gen(rng, i, tier):
    S = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        how = rng.choice(["tty", "tty", "tty", "pipe", "dumb"]); n = rng.randrange(1, 20) if rng.random() < .9 else rng.randrange(90, 131); f = []; room = None; r = rng.random()
        if r < .3:
            for _ in range(rng.randrange(1, 3)):
                c = rng.choice(["open", "write", "write", "close", "meta", "read"])
                f.append((c, rng.choice({"open": [EMFILE, EIO, EACCES], "write": [SHORT, EIO, ENOSPC, EDQUOT], "close": [EIO, ENOSPC], "meta": [EIO, EACCES], "read": [EIO, SHORT]}[c]), rng.choice([20000, 100000, 400000])))
        elif r < .5: f.append(("crash", EIO, rng.choice([10000, 50000, 200000])))
        elif r < .58: room = rng.choice([1, 30, 200, 3000])
        lines = [[t.decode("latin1") for t in (T.keys(rng, (lambda g, h: size(g, 4095)) if how == "tty" else size, quit=n < 80) if n < 80 or rng.random() < .1 else [T.typed(rng, 1), b"\r" if how == "tty" else b"\n"])] if how == "tty"
                 else [t.decode("latin1") for t in T.plain(rng, lambda g, h: size(g, 4095))] for _ in range(n)]
        S.append({"how": how, "lines": lines, "faults": f, "room": room, "mode": rng.choice(["-B", "-X"])})
    k = {"stdin_chunk": rng.choice([0, 1, 3, 64]), "outbuf": 1, "tty_cols": 80}
    return {"sessions": S, "hist": [(T.typed(rng, rng.randrange(0, 4)) if rng.random() < .9 else b"y" * size(rng, 4095)).decode("latin1") for _ in range(rng.choice([0, 0, 1, 5, 98, 99, 100, 101, 130]))], "nonl": rng.random() < .1,
            "prompt": "> ", "gc": None, "churn": 0, "knobs": k, "seed": rng.getrandbits(32), "mode": "-B", "faults": []}
def parse(b):
    l = b.split(b"\n")
    if not l[-1]: l.pop()
    return l
def text(h): return b"".join(x + b"\n" for x in h)
def reference(data, hist, how, times, tries):
    """What each call returns and what the file holds after each, when only call number `tries` gets to read the history (None: never)."""
    ed = T.Ed(data); out = []; files = []; cur = None
    for n in range(times):
        if n == tries:
            for l in hist: ed.add(l)
        v = ed.edit() if how == "tty" else ed.cooked(b"\r\n" if how == "dumb" else b"\n")
        if v is not None:
            ed.add(v)
            if tries is not None and n >= tries: cur = text(ed.h)
        out.append(v); files.append(cur)
    return out, files
def run(rn, case):
    R = []; fs = [("history.txt", ("\n".join(case["hist"]) + ("" if case["nonl"] else "\n")).encode("latin1"))] if case["hist"] else []; nt = len(case["sessions"]) > 1; crashes = 0
    for si, s in enumerate(case["sessions"]):
        data = "".join("".join(l) for l in s["lines"]).encode("latin1"); times = len(s["lines"]) + 1
        old = dict(fs).get("history.txt"); hist = parse(old) if old is not None else []
        p = C21.plan(dict(case, how=s["how"], mode=s["mode"], seed=case["seed"] + si), data, T.script(case["prompt"], times), fs)
        if s["room"] is not None: p.knobs["diskcap"] = sum(len(f[1]) for f in p.files) + s["room"]
        p.faults = list(s["faults"])
        r = rn.run(p); R.append(r); b = r.bad()
        if b: return Outcome("session %d: %s" % (si + 1, b), R, "crash")
        crashed = r.ending.startswith("crash"); crashes += crashed
        hard = sum(1 for c, n, k in r.events if c in ("open", "read", "write", "close", "meta", "stat") and k != SHORT); nt = nt or bool(hard) or crashed
        got, end = T.shown(r.out)
        if not got and r.events: break  # the script or the library was not read: C13
        if r.ending != "exit 0" and not crashed: return Outcome("session %d ended with %s: %s" % (si + 1, r.ending, r.err[-200:]), R, "ending")
        new = r.files.get("/work/history.txt"); why = None
        for tries in [0] + (list(range(1, times)) + [None] if hard else []):
            out, files = reference(data, hist, s["how"], times, tries)
            if tries is not None and tries > hard: continue
            if out[:len(got)] != got or not crashed and len(got) != times:
                j = next((j for j in range(min(len(out), len(got))) if out[j] != got[j]), len(got)); why = why or ("line %d is %r, the keys and the history say %r" % (j + 1, got[j:j + 1], out[j:j + 1]), "line"); continue
            # the saves of the calls that returned, that of the one in flight, and each one before it that a failure may have undone
            done = [old] + files[:len(got)]; ok = []; n = hard
            if crashed and len(got) < times: ok.append(files[len(got)])
            for x in reversed(done):
                if not ok or x != ok[-1]: ok.append(x)
            if not hard: ok = ok[:(2 if crashed and len(got) < times and files[len(got)] not in (None, done[-1]) else 1)]
            ok = [old if x is None else x for x in ok]
            if not hard and all(x is None for x in done): ok = [old] + ok
            if new in ok or (new or b"") == b"" and old is None and None in ok: why = None; break
            w = ok[0] or b""; g = new or b""; why = ("the history file holds %d lines ending %r, it should hold %d ending %r" % (len(parse(g)), g[-60:], len(parse(w)), w[-60:]), "file")
        if why: return Outcome("session %d (%s%s): %s" % (si + 1, s["how"], ", stopped dead" if crashed else "", why[0]), R, why[1])
        fs = [(n.replace("/work/", ""), b) for n, b in r.files.items() if "history" in n]
    return Outcome(None, R, nontrivial=nt, extra={"sessions": len(R), "crashes": crashes})
