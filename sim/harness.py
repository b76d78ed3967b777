"""Runs a property's cases over 8 workers, minimises a violation, writes the replay file and the evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, random, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from lib import Sim, Plan, Result, KIND

VERIF = B.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")

class Outcome:
    """What one case came to. msg None: the property held. sig: what kind of failure (kept while minimising)."""
    def __init__(self, msg, results, sig=None, nontrivial=True, key=None, extra=None):
        self.msg = msg; self.results = results; self.sig = sig or (re.sub(r"[0-9]+", "N", msg)[:60] if msg else None)
        self.nontrivial = nontrivial; self.key = key; self.extra = extra or {}

class Runner:
    """Gives a property module its simulators, and applies a case's fault schedule to each phase's plan."""
    def __init__(self, bindir):
        self.dir = bindir; self.sims = {}; self.fresh = False; self.phase = 0; self.case = None; self.results = []; self.runs = 0; self.hung = False
    def begin(self, case):
        self.case = case; self.phase = 0; self.results = []
    def run(self, plan, inject=True):
        """Runs a plan. inject: this phase is subject to the case's faults."""
        c = self.case
        if inject:
            if "explicit" in c:
                ev = c["explicit"].get(str(self.phase), [])
                plan.explicit = True; plan.ats = [tuple(e) for e in ev]; plan.gc = None; plan.faults = []
            else:
                if c.get("gc") and plan.gc is None: plan.gc = tuple(c["gc"])
                plan.faults = list(plan.faults) + [tuple(f) for f in c.get("faults", [])]
        v = plan.variant
        s = self.sims.get(v)
        if s is None: s = self.sims[v] = Sim(self.dir, v)
        r = s.fresh(plan) if self.fresh else s.run(plan)
        if r.bad() == "hang: CPU limit" and not self.hung:   # a slow machine, not a program that never ends, until the limit is hit again
            lim = plan.knobs.get("cpu_s", 10); plan.knobs["cpu_s"] = lim * 5
            r = s.fresh(plan) if self.fresh else s.run(plan)
            plan.knobs["cpu_s"] = lim
            if r.bad() == "hang: CPU limit": self.hung = True
        r.inject = inject; r.phase = self.phase; r.plan = plan
        self.results.append(r); self.phase += 1; self.runs += 1
        return r
    def close(self):
        for s in self.sims.values(): s.close()
        self.sims = {}

def case_rng(prop, seed, i):
    return random.Random(int.from_bytes(hashlib.sha256(("%s/%s/%s" % (prop, seed, i)).encode()).digest()[:8], "big"))

def trace_of(rn):
    return hashlib.sha256(" ".join(r.hash or "" for r in rn.results).encode()).hexdigest()[:16]

def run_case(mod, rn, case):
    rn.begin(case)
    o = mod.run(rn, case)
    o.trace = trace_of(rn)
    return o

def worker(modname, bindir, seed, tier, idxs, deadline, q, ncorpus):
    mod = importlib.import_module("props." + modname)
    rn = Runner(bindir)
    st = dict(cases=0, runs=0, keys=set(), nontriv=0, fired={}, cnt={}, now=0, det=0, gcs=0, majors=0, steps=0, samples=[], viol=[], traces=set(), endings={}, extra={}, phases=set(), inj_runs=0, maxpeak=0, nondet=0)
    try:
        for i in idxs:
            if time.time() > deadline: break
            case = mod.gen(case_rng(modname, seed, i), i, tier)
            case["prop"] = modname
            o = run_case(mod, rn, case)
            st["cases"] += 1
            for r in rn.results:
                st["now"] += r.stat.get("now", 0); st["steps"] += r.stat.get("steps", 0)
                st["gcs"] += r.stat.get("gcs", 0); st["majors"] += r.stat.get("majors", 0)
                st["endings"][r.ending] = st["endings"].get(r.ending, 0) + 1
                if r.inject: st["inj_runs"] += 1
                for c, n, k in r.events:
                    kk = "%s:%s" % (c, kindname(c, k)); st["fired"][kk] = st["fired"].get(kk, 0) + 1
                for c, n in r.cnt.items():
                    if n: st["cnt"][c] = st["cnt"].get(c, 0) + n
            st["traces"].add(o.trace)
            if o.nontrivial:
                st["nontriv"] += 1; st["keys"].add(o.key or hashlib.sha256(json.dumps({k: v for k, v in case.items() if k not in ("seed", "gc", "faults", "knobs")}, sort_keys=True).encode()).hexdigest()[:16])
            for k, v in o.extra.items(): st["extra"][k] = st["extra"].get(k, 0) + v
            if len(st["samples"]) < 1 and o.nontrivial: st["samples"].append(sample(case, o, rn))
            if o.msg:
                st["viol"].append((i, case, o.msg, o.sig))
                if len(st["viol"]) >= 3: break
            elif st["cases"] % 25 == 1:
                h = o.trace
                o2 = run_case(mod, rn, case)
                st["det"] += 1
                if o2.trace != h: st["nondet"] += 1
        st["runs"] = rn.runs
        rn.close()
        q.put(("ok", st))
    except BaseException:
        q.put(("error", traceback.format_exc()))

def kindname(c, k):
    if c == "gc": return {1: "minor", 2: "major"}.get(k, str(k))
    if c in ("mmap", "malloc"): return "refused"
    if c == "crash": return "crash"
    return KIND.get(k, str(k))

def sample(case, o, rn):
    c = {k: v for k, v in case.items() if k not in ("explicit",)}
    s = json.dumps(c)
    d = {"case": c if len(s) < 3000 else s[:3000], "endings": [r.ending for r in rn.results], "events": [["%s:%d:%s" % (a, n, kindname(a, k)) for a, n, k in r.events[:40]] for r in rn.results],
         "output": [r.out[:200].decode("latin1") for r in rn.results], "trace": o.trace}
    return d

# ---- minimising ----
def explicit_of(mod, rn, case):
    """The same case with the events that fired spelled out."""
    o = run_case(mod, rn, case)
    c = json.loads(json.dumps(case))
    c["explicit"] = {str(r.phase): [list(e) for e in r.events] for r in rn.results if r.inject}
    return c, o

def minimise(mod, rn, case, sig, budget):
    t0 = time.time()
    left = lambda: budget - (time.time() - t0)
    def fails(c):
        try: o = run_case(mod, rn, c)
        except Exception: return False
        return bool(o.msg) and o.sig == sig
    best = case
    # the program or history first, under the seeded schedule
    def ddmin(get, put, test, best):
        items = get(best); n = 2
        while len(items) >= 1 and left() > 0:
            size = max(1, (len(items) + n - 1) // n); done = True
            for s in range(0, len(items), size):
                if left() <= 0: break
                cand = items[:s] + items[s + size:]
                c = put(best, cand)
                if test(c): best = c; items = cand; n = max(n - 1, 2); done = False; break
            if done:
                if size <= 1: break
                n = min(len(items), n * 2)
        return best
    def axis(name):
        def get(c): return c[name]
        def put(c, v): d = json.loads(json.dumps(c)); d[name] = v; return d
        return get, put
    axes = getattr(mod, "AXES", ["ops"])
    for a in axes:
        if a in best and isinstance(best[a], list): g, p = axis(a); best = ddmin(g, p, fails, best)
    # then the events, spelled out
    ex, o = explicit_of(mod, rn, best)
    if any(len(r.events) >= 4090 for r in rn.results): return best
    if not fails(ex): return best
    best = ex
    for ph in sorted(best["explicit"]):
        def get(c, ph=ph): return c["explicit"][ph]
        def put(c, v, ph=ph): d = json.loads(json.dumps(c)); d["explicit"][ph] = v; return d
        if fails(put(best, [])): best = put(best, []); continue
        best = ddmin(get, put, fails, best)
    # with few events left the program may shrink more
    for a in axes:
        if a in best and isinstance(best[a], list): g, p = axis(a); best = ddmin(g, p, fails, best)
    return best

def write_replay(prop, case, o, rn, seed):
    d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    body = {"property": prop, "violation": o.msg, "sig": o.sig, "trace": o.trace, "verif_seed": seed, "case": case,
            "executions": [{"ending": r.ending, "events": ["%s #%d %s" % (a, n, kindname(a, k)) for a, n, k in r.events], "stdout": r.out[-2000:].decode("latin1"), "stderr": r.err[-2000:].decode("latin1"),
                            "simviolations": r.viol, "args": [a if isinstance(a, str) else a.decode("latin1") for a in r.plan.args],
                            "files": {str(f[0]): (f[1] if isinstance(f[1], str) else f[1].decode("latin1"))[:20000] for f in r.plan.files}, "stdin": (r.plan.stdin if isinstance(r.plan.stdin, str) else r.plan.stdin.decode("latin1"))[:20000]} for r in rn.results]}
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f: json.dump(body, f, indent=1); f.write("\n")
    return p

def replay(path):
    """Runs a replay file against the current tree, in processes of its own."""
    d = json.load(open(path)); case = d["case"]
    mod = importlib.import_module("props." + case["prop"])
    rn = Runner(B.build(getattr(mod, "VARIANTS", ("O0",)))); rn.fresh = True
    o = run_case(mod, rn, case)
    print("property %s: %s" % (d["property"], o.msg or "holds on this execution"))
    print("trace %s (recorded %s: %s)" % (o.trace, d["trace"], "identical" if o.trace == d["trace"] else "different"))
    for r in rn.results:
        print("-- %s, %d events: %s" % (r.ending, len(r.events), " ".join("%s#%d:%s" % (a, n, kindname(a, k)) for a, n, k in r.events[:60])))
    if o.msg: print("VIOLATION property=%s replay=%s" % (d["property"], path)); return 1
    return 0

def findings():
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

def check(prop, seed=None, tier=None, cases=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    mod = importlib.import_module("props." + prop)
    bindir = B.build(getattr(mod, "VARIANTS", ("O0",)))
    tb = time.time()
    n = cases or mod.N[tier]
    cap = {"quick": 240, "thorough": float(os.environ.get("VERIF_THOROUGH_S", "1800"))}[tier]
    deadline = tb + cap
    nw = min(8, os.cpu_count() or 8)
    q = mp.Queue(); ps = []
    known = findings()
    rn = Runner(bindir)
    viol = []; kf_lines = []
    for kid, mk in getattr(mod, "KNOWN", []):
        c = mk(); c["prop"] = prop
        o = run_case(mod, rn, c)
        if o.msg:
            if (prop, kid) in known: kf_lines.append("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[(prop, kid)], kid))
            else: viol.append((-1, c, o.msg, o.sig))
    for w in range(nw):
        p = mp.Process(target=worker, args=(prop, bindir, seed, tier, range(w, n, nw), deadline, q, 0)); p.start(); ps.append(p)
    sts = []; errs = []
    for _ in ps:
        while True:
            try: k, v = q.get(timeout=5); break
            except Exception:
                if not any(p.is_alive() for p in ps): k, v = "error", "a worker died"; break
        (sts if k == "ok" else errs).append(v)
    for p in ps: p.join()
    if errs:
        sys.stderr.write(errs[0] + "\n"); print("ERROR property=%s the check could not run" % prop); return 3
    for s in sts: viol += s["viol"]
    viol.sort(key=lambda v: v[0])
    fired = {}; cnt = {}; endings = {}; keys = set(); traces = set(); extra = {}; tot = {}
    for s in sts:
        for k, v in s["fired"].items(): fired[k] = fired.get(k, 0) + v
        for k, v in s["cnt"].items(): cnt[k] = cnt.get(k, 0) + v
        for k, v in s["endings"].items(): endings[k] = endings.get(k, 0) + v
        for k, v in s["extra"].items(): extra[k] = extra.get(k, 0) + v
        keys |= s["keys"]; traces |= s["traces"]
        for k in ("cases", "runs", "now", "det", "gcs", "majors", "steps", "nontriv", "inj_runs", "nondet"): tot[k] = tot.get(k, 0) + s[k]
    search_s = time.time() - tb
    replay_path = None; msg = None
    unrep = 0
    for i, case, msg, sig in viol[:12]:
        # in a process of its own first: what does not happen again is not reported as found
        rn.fresh = True; o = run_case(mod, rn, case); again = bool(o.msg); rn.fresh = False
        if not again: unrep += 1; continue
        best = minimise(mod, rn, case, sig, 60 if tier == "quick" else 240)
        rn.fresh = True
        o = run_case(mod, rn, best); h = o.trace
        o2 = run_case(mod, rn, best)
        if not o.msg or o2.trace != h:  # fall back to the unminimised, which the search saw
            best = case; o = run_case(mod, rn, best)
        if not o.msg: unrep += 1; continue
        replay_path = write_replay(prop, best, o, rn, seed); msg = o.msg
        break
    if viol and not replay_path:
        sys.stderr.write("%d violations, none reproduced in a process of its own; the first: case %s: %s\n" % (len(viol), viol[0][0], viol[0][2]))
        if any(not v[2].startswith("hang") and "hang:" not in v[2] for v in viol):
            i, case, msg, sig = viol[0]; rn.fresh = False; o = run_case(mod, rn, case)
            if not o.msg: o = Outcome(msg, rn.results, sig); o.trace = ""
            replay_path = write_replay(prop, case, o, rn, seed)
    rn.close()
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot["cases"], "distinct_nontrivial": len(keys), "rule": mod.RULE,
                       "samples": [x for s in sts[:3] for x in s["samples"]],
                       "simulated_runs": tot["runs"], "runs_with_injection": tot["inj_runs"],
                       "runs_per_hour": int(tot["runs"] / max(search_s, .001) * 3600), "seeds_per_hour": int(tot["cases"] / max(search_s, .001) * 3600),
                       "simulated_time_s": tot["now"] / 1e9, "simulated_steps": tot["steps"],
                       "faults_injected": fired, "decision_points": cnt, "forced_collections": tot["gcs"], "of_them_major": tot["majors"],
                       "distinct_executions": len(traces), "nontrivial_cases": tot["nontriv"], "distinct_executions_measure": getattr(mod, "MEASURE", "hash of the whole sequence of injected events, memory-map changes, I/O results, output and ending of the run"),
                       "endings": endings, "same_seed_twice_identical": tot["det"] - tot["nondet"], "same_seed_twice_different": tot["nondet"],
                       "real_components": mod.REAL, "stubs": mod.STUB, **extra},
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(wall, 2), "violations": len(viol) if replay_path else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    for l in kf_lines: print(l)
    print("%s %s: %d cases, %d runs (%d distinct non-trivial), %d events injected, %.1f s" % (prop, tier, tot["cases"], tot["runs"], len(keys), sum(fired.values()), wall))
    if tot["nondet"]: print("  note: %d of %d cases run twice from one seed differed" % (tot["nondet"], tot["det"]))
    if replay_path:
        print("  " + msg.replace("\n", "\n  ")[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, replay_path)); return 1
    return 0
