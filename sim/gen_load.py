"""Module trees: files placed over the search path, and what load must find."""
import os
# the bytecode of a module that says M0000..., made by the current tree; the digits are replaced
TMPL = '"M0000" say\n'
_pnb = {}
def pnb(rn, text):
    """Bytecode of a module saying a five-letter text; None when this tree cannot save any."""
    import common
    if rn.dir not in _pnb:
        from lib import Plan, Sim
        p = Plan(1); p.args = ["-c", "p.pn"]; p.files = [("p.pn", TMPL)]
        s = Sim(rn.dir, "O0"); r = s.run(p); s.close()
        b = r.files.get("/work/p.pnb")
        _pnb[rn.dir] = b if b and b.count(b"M0000") == 1 else None
    b = _pnb[rn.dir]
    return b and b.replace(b"M0000", text.encode())

FIXED = ["lib/potion", "/usr/local/lib/potion", "."]
EXT = [".pnb", ".pn", ".so"]
def base(name):
    """The last part of a name, up to its first dot."""
    return name.rsplit("/", 1)[-1].split(".")[0]
def candidates(path, name):
    """Every place load looks at, in order."""
    out = []
    for d in path:
        p = d + "/" + name
        out.append(p); out += [p + e for e in EXT]
        q = p + "/" + base(name)
        out.append(q); out += [q + e for e in EXT]
    return out
def norm(p):
    return os.path.normpath(os.path.join("/work", p))

NAMES = ["m", "mod", "a", "probe", "sub/m", "x_1", "sub/deep/mod", "m.pn", "m.pnb", "probe.so", "mod.txt", "sub/a.pn", "a.b", "a.b.c", "mod.v1.pn", "long" + "n" * 60]
DIRS = ["lib/potion", ".", "d1", "d2", "d3", "sub", "d1/d2", "./d2", "d1//d2", "e" * 40]
def gen(rng):
    """A case: which names are loaded, what the search path is, which files exist."""
    names = [rng.choice(NAMES) for _ in range(rng.randrange(1, 5))]
    L = [rng.choice(DIRS[2:]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]      # -L directories
    pushes = []                                                                    # before which load, which directory
    for _ in range(rng.choice([0, 1, 1, 2, 3])): pushes.append([rng.randrange(len(names)), rng.choice(DIRS[2:])])
    path = FIXED + L + [d for _, d in pushes]
    files = {}; n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14])
    for _ in range(n):
        nm = rng.choice(names)
        c = candidates([rng.choice(path)], nm)
        f = norm(rng.choice(c))
        files[f] = rng.choice(["file", "file", "file", "file", "file", "file", "dir", "bad", "unreadable"])
    return {"names": names, "L": L, "pushes": sorted(pushes, key=lambda x: x[0]), "files": [[k, v] for k, v in sorted(files.items())]}
