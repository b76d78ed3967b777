"""The repository's own Potion programs, as workloads."""
import glob, os, sys
import build as B
SKIP = {"test/misc/aio.pn"}      # needs a network; it has checks of its own
EX = "100_doors almost_prime euler001 fizzbuzz nqueens prime".split()
def programs(examples=True):
    R = B.REPO
    l = [os.path.relpath(f, R) for f in sorted(glob.glob(os.path.join(R, "test", "*", "*.pn")))]
    if examples: l += ["example/%s.pn" % e for e in EX]
    return [f for f in l if f not in SKIP and os.path.exists(os.path.join(R, f))]
def source(f):
    with open(os.path.join(B.REPO, f), "rb") as h: return h.read()
