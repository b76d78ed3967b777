#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present."""
import importlib, json, os, sys, subprocess
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H); V = os.path.dirname(H)
NA = {
 "C27": "which texts the grammar accepts is a pure function of the text: no schedule, time, I/O fault or other party can change it; simulation would only be example testing. (That a collection during parsing or compiling changes nothing is in C01 and C02; a partly read text in C13.)",
 "C28": "arithmetic is a pure function of its operands, with no nondeterminism for a simulator to control. (That it agrees between VM, JIT and saved bytecode on the programs generated is part of C03.)",
 "C29": "text operations are pure functions of their operands. (That strings survive collections and stay equal is C05; what bytes a file or terminal delivers C11, C12, C21.)",
 "C30": "the parser generator is a sequential batch tool run at build time, a pure function of its input grammar.",
}
WHAT = {}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []; na = []
    for p in ids:
        if os.path.exists(os.path.join(H, "props", p + ".py")):
            m = importlib.import_module("props." + p)
            checks.append({"property": p, "quick_cmd": "python3 sim/check.py %s" % p, "thorough_cmd": "python3 sim/check.py %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
                           "technique": getattr(m, "TECH", "deterministic simulation with fault injection: " + " ".join(m.__doc__.split()).rstrip(".")), "level": "exploration",
                           "level_note": getattr(m, "NOTE", "Seeded search, not exhaustive: %s. Trusts: the simulator's model of the operating system, and %s" % (m.RULE, "; ".join(getattr(m, "ASSUME", [])) or "the reference model"))})
        else: na.append({"property": p, "reason": NA.get(p, "not claimed yet: the check is still being built")})
    d = {"version": 1, "setup_cmd": "python3 sim/build.py O0 O3",
         "hooks": {"guard": "POTION_SIM", "enable": "sim/build.py compiles /repo's core, lib and front-end sources with -DPOTION_SIM and links them into one process with the simulator (sim/rt)",
                   "source_commits": ["d0a73181" if False else subprocess.run(["git", "-C", "/repo", "rev-parse", "d0a7318"], capture_output=True, text=True).stdout.strip() or "d0a7318"]},
         "checks": checks, "not_applicable": na,
         "notes": "sim/check.py replay FILE runs a replay file again; known_findings.txt lists known findings and repairs; DESIGN.md describes everything."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(d, f, indent=1); f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")
if __name__ == "__main__": main()
