"""Collection is invisible to programs run by the JIT."""
import gctrans
from common import *
N = {"quick": 5000, "thorough": 120000}
RULE = gctrans.RULE; REAL = CORE_REAL; STUB = CORE_STUB; ASSUME = gctrans.ASSUME
def gen(rng, i, tier): return gctrans.gen(rng, i, tier, "-X")
run = gctrans.run
