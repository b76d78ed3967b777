"""Interactive sessions - definitions, uses, wrong and unfinished lines - typed at a simulated terminal or piped in, in pieces of any size, under forced collections; each line's value as shown against a model of the
definitions in force."""
import gen_repl as G
from common import *
N = {"quick": 5000, "thorough": 200000}
RULE = ("seeded sessions of 2-60 lines (to 300 in some): arithmetic, global variables, lists, functions, classes, objects, methods of built-in types, evaluation, loops, and between them lines that do not parse, use unknown "
        "names or yield errors; from a raw terminal, one that cannot edit, or a pipe, in chunks of 1-64 bytes; collections forced at 0-100 % of allocations; every value shown against the model; non-trivial: at least 5 lines "
        "and one that failed, or one forced collection")
REAL = CORE_REAL + ["lib/readline/*.c"]; STUB = CORE_STUB + ["the terminal: input bytes, mode, width"]
ASSUME = ["what a line that fails shows is left open, except that a text that does not parse shows nil", "a name not capitalised is local to its line"]
AXES = ["lines"]
def gen(rng, i, tier):
    n = rng.randrange(100, 300) if rng.random() < .03 else rng.randrange(2, 60); k = pick_knobs(rng)
    k["stdin_chunk"] = rng.choice([0, 0, 1, 3, 64]); k["outbuf"] = rng.choice([1, 64, 4096]); k["frontend"] = int(rng.random() < .5)
    return {"lines": G.gen(rng, n), "how": rng.choice(["pipe", "tty", "dumb"]), "nonl": rng.random() < .2, "mode": "-X", "faults": [], "gc": pick_gc(rng, .2), "knobs": k, "seed": rng.getrandbits(32)}
def one(*lines):
    return lambda: {"lines": [["\"tick\"", "=> tick\n"]] + [[l, None] for l in lines] + [["\"tock\"", "=> tock\n"]], "how": "pipe", "nonl": False, "mode": "-X", "faults": [], "gc": None, "knobs": {}, "seed": 1}
KNOWN = [("compile-error", one("break")), ("bad-argument", one("\"a\" + 1")), ("zero-division", one("1 / 0"))]
ADDR = re.compile(r"<(K\d) [0-9a-f]+>")
def run(rn, case):
    L = case["lines"]; how = case["how"]; p = program_plan(case, "", "p.pn", libs=True); p.files = [f for f in p.files if f[0] != "p.pn"]; p.args = []
    text = ""; 
    for j, (l, w) in enumerate(L): text += l + "\n" + ("\"@%d\"\n" % j if w is None else "")
    if case["nonl"] and text.rstrip("\n") == text[:-1]: text = text[:-1]
    p.stdin = text.replace("\n", "\r").encode() if how == "tty" else text.encode(); p.tty = how != "pipe"; p.env = ["TERM=" + ("dumb" if how == "dumb" else "xterm")]
    p.knobs.setdefault("cpu_s", 20); p.knobs["tty_cols"] = 30000; p.steps = 20000000
    r = rn.run(p); b = r.bad()
    if b: return Outcome(b, [r], "crash")
    out = ADDR.sub(r"<\1 ADDR>", r.out.decode("latin1")); at = 0
    def pre(l, last): # what the prompt itself shows for a line
        return "" if how == "pipe" else ">> " if how == "dumb" else ">> " + l + "\n"
    bad = 0
    for j, (l, w) in enumerate(L):
        e = pre(l, 0)
        if not out.startswith(e, at): return Outcome("line %d %r is met by %r" % (j + 1, l[:80], out[at:at + 120]), [r], "prompt")
        at += len(e)
        if w is None:
            m = pre("\"@%d\"" % j, 0) + "=> @%d\n" % j; x = out.find(m, at)
            if x < 0: return Outcome("after line %d %r the session shows %r, never the next line's value (ending %s; %s)" % (j + 1, l[:80], out[at:at + 120], r.ending, r.err[-150:].decode("latin1")), [r], "stopped")
            if x - at > 300: return Outcome("line %d %r shows %r" % (j + 1, l[:80], out[at:x][:200]), [r], "shows")
            at = x + len(m); bad += 1
        else:
            if not out.startswith(w, at): return Outcome("line %d %r shows %r instead of %r (ending %s; %s)" % (j + 1, l[:80], out[at:at + 120], w[:120], r.ending, r.err[-150:].decode("latin1")), [r], "value")
            at += len(w); bad += w == "=> nil\n"
    tail = {"pipe": "\n", "dumb": ">> \n", "tty": ">> \n\n"}[how]
    if out[at:] != tail: return Outcome("after the last line: %r instead of %r" % (out[at:at + 200], tail), [r], "tail")
    if r.ending != "exit 0": return Outcome("the session ended with %s: %s" % (r.ending, r.err[-200:]), [r], "ending")
    n = r.err.count(b"Syntax error"); want = sum(l in G.BAD for l, w in L if w is not None)
    if n < want: return Outcome("%d texts do not parse, %d were reported" % (want, n), [r], "report")
    return Outcome(None, [r], nontrivial=len(L) >= 5 and bad > 0 or r.stat["gcs"] > 1, extra={"lines": len(L)})
