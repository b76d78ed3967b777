"""What the property modules share: choosing schedules, running a program, comparing."""
import os, re
from lib import Plan, EIO, SHORT, EINTR, ENOSPC, EACCES, ENOENT, EMFILE, ENOMEM, EAGAIN, EDQUOT, CUT, GROWN
from harness import Outcome

SOS = "readline buffile aio database".split()
CORE_REAL = ["core/*.c as the VM, JIT, collector, parser, compiler and object model of the shipped library, compiled from /repo"]
CORE_STUB = ["the operating system under libc: memory map, files, clocks, terminal, sockets (sim/rt/simrt.c)"]

def pick_gc(rng, zero=.04):
    """A collection schedule: how often a collection strikes at an allocation or write barrier, and how many are major."""
    if rng.random() < zero: return None
    rate = rng.choice([1000000, 1000000, 500000, 200000, 100000, 50000, 20000, 10000, 3000, 1000])
    major = rng.choice([0, 5, 15, 15, 40, 100])
    g = [rate, major]
    r = rng.random()
    if r < .15:  # only in a window of the run
        a = rng.randrange(0, 400); g += [a, a + rng.randrange(1, 60), 3]
    elif r < .25:  # only at allocations, or only at write barriers
        g += [0, 1 << 40, rng.choice([1, 2])]
    return g

def soften(case):
    """A history that builds hundreds of classes meets fewer collections: each costs in proportion to the heap."""
    if case.get("gc") and any(o[0] == "manycls" and o[1] > 60 for o in case.get("ops") or []): case["gc"] = [min(case["gc"][0], 10000), min(case["gc"][1], 15)] + case["gc"][2:]
    return case

def pick_knobs(rng):
    k = {"gap": rng.choice([0, 1, 16, 64])}
    if rng.random() < .5: k["frontend"] = 1
    if rng.random() < .3: k["stackoff"] = rng.randrange(0, 64) * 16
    return k

def program_plan(case, src, name="p.pn", mode=None, libs=False):
    p = Plan(case.get("seed", 1))
    p.variant = case.get("variant", "O0")
    p.args = [mode or case["mode"], name]
    p.files = [(name, src)]
    if libs:
        p.dirs = ["lib", "lib/potion"]
        p.files += [("lib/potion/%s.so" % l, b"SIML") for l in SOS]
    p.knobs = dict(case.get("knobs", {}))
    if case.get("stackfill"): p.stackfill = case["stackfill"]
    return p

def first_diff(got, want):
    a, b = got.split("\n"), want.split("\n")
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "<end>"; y = b[i] if i < len(b) else "<end>"
        if x != y: return "line %d: got %s want %s" % (i + 1, x[:200], y[:200])
    return "same"

def judge(r, exp, what="the model", code="exit 0", err=None):
    """Compares a finished run with the expected output and ending; None when they agree."""
    b = r.bad()
    if b: return b, "crash"
    out = r.out.decode("latin1")
    if out != exp: return "output differs from %s: %s (ending %s; %s)" % (what, first_diff(out, exp), r.ending, r.err[-200:].decode("latin1").strip()), "output"
    if code and r.ending != code: return "ended with %s, %s with %s (%s)" % (r.ending, what, code, r.err[-200:].decode("latin1").strip()), "ending"
    if err is not None and r.err != err: return "standard error differs: %r, want %r" % (r.err[-300:], err[-300:]), "stderr"
    return None, None

def size(rng, hi, lo=1):
    """A size with no favourites: some anywhere on a logarithmic scale, most where buffers with or without a header end."""
    import math
    if rng.random() < .4: n = int(math.exp(rng.uniform(math.log(max(lo, 1)), math.log(hi))))
    else: n = (1 << rng.randrange(3, max(4, hi.bit_length()))) * rng.choice([1, 1, 2, 3]) - rng.choice([0, 0, 0, 8, 16, 24, 32]) + rng.choice([-1, 0, 0, 0, 1])
    return max(lo, min(n, hi))
