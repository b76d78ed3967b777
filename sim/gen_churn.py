"""Programs that keep a bounded amount of data and throw away much more: the loop runs a random mix of these."""
OPS = {
 "pushpop": ("t{k} = ()", "t{k} push(i), t{k} push(i string), t{k} pop (), t{k} shift ()"),
 "unshift": ("t{k} = (0, 1, 2)", "t{k} unshift((i, i)), t{k} pop ()"),
 "ring": ("t{k} = ({z})", "t{k} put(i % {m}, (i, i string))"),
 "ring2": ("t{k} = ({z})", "t{k} put(i % {m}, (i, (i, (\"{w}\" + i string, i))))"),
 "remove": ("t{k} = (-3, -2, -1)", "t{k} push(i), t{k} delete(0), t{k} remove(1)"),
 "window": ("h{k} = (a=1)", "h{k} put(i, i string), h{k} remove(i - {m})"),
 "swindow": ("h{k} = (a=1)", "h{k} put(\"{w}\" + i string, i), j{k} = i - {m}\n  m{k} = \"{w}\" + j{k} string\n  h{k} remove(m{k})"),
 "keys": ("h{k} = (a=1)", "h{k} put(i % {m}, (i, i))"),
 "str": ("s{k} = \"\"", "s{k} = \"{w}\" + i string"),
 "strs": ("s{k} = \"\"", "s{k} = \"{w}\" + i string\n  s{k} = s{k} + s{k}"),
 "slice": ("s{k} = \"abcdefghijklmnop{w}\"", "u{k} = s{k} + i string\n  u{k} = u{k} slice(i % 10, 9)"),
 "tuple": ("v{k} = nil", "v{k} = (i, (i, i), \"{w}\")"),
 "clone": ("c{k} = ({z})\nd{k} = c{k} clone", "d{k} = d{k} clone"),
 "map": ("c{k} = ({z})\nd{k} = c{k}", "d{k} = c{k} map (x): (x, i)."),
 "rev": ("c{k} = ({z})\nd{k} = c{k}", "d{k} = d{k} reverse"),
 "join": ("c{k} = ({z})\nd{k} = \"\"", "c{k} put(0, i), d{k} = c{k} join(\"-\")"),
 "sort": ("d{k} = nil", "d{k} = (i % 7, 3, i % 5, 1, i % 11) sort"),
 "double": ("d{k} = 0.5", "d{k} = d{k} + 0.25, d{k} = d{k} * 1.0000001"),
 "obj": ("A{k} = class (v): /v = v, self.\nA{k} get = (): /v.\no{k} = A{k}(1)", "o{k} = A{k}(i), o{k} get"),
 "setter": ("A{k} = class (v): /v = v, self.\nA{k} set = (x): /v = x.\nA{k} get = (): /v.\no{k} = A{k}(1)", "o{k} set((i, \"{w}\" + i string))"),
 "objring": ("A{k} = class (v): /v = v, self.\nt{k} = ({z})", "t{k} put(i % {m}, A{k}((i, A{k}(i))))"),
 "closure": ("f{k} = (): 1.", "f{k} = (x): x + i.\n  g{k} = f{k}(2)"),
 "closring": ("t{k} = ({z})", "t{k} put(i % {m}, (x): x + i.)"),
 "call": ("q{k} = (n): if (n < 1): (n, n). else: (n, q{k}(n - 1)) ..\nr{k} = nil", "r{k} = q{k}({d})"),
 "inner": ("r{k} = 0", "{d} times (j): r{k} = (j, i, j string)."),
 "table": ("h{k} = nil", "h{k} = (a=i, b=(i, i), c=i string)"),
 "tabclone": ("g{k} = (a=1, b=2)\nh{k} = g{k}", "g{k} put(i % {m}, i), h{k} = g{k} clone"),
 "list": ("l{k} = nil", "l{k} = list({m}), l{k} put(0, i)"),
 "big": ("l{k} = nil", "if (i % 50 == 0): l{k} = list(20000)."),
 "growshrink": ("t{k} = ()", "{d} times (j): t{k} push(j string).\n  {d} times (j): t{k} pop ()."),
 "eval": ("e{k} = nil", "if (i % 40 == 0): \n    e{k} = \"(1, \" + i string\n    e{k} = e{k} + \")\"\n    e{k} = e{k} eval."),
 "print": ("", "if (i % 100 == 0): i print, (i, i) print."),
 "each": ("c{k} = ({z})\nn{k} = 0", "c{k} each (x): n{k} = i."),
 "setivar": ("A{k} = class (v): /v = v, self.\nB{k} = A{k} class (v): /v = (v, v), self.\no{k} = A{k}(1)", "o{k} = B{k}(o{k} string length), o{k} string"),
 "file": ("", "if (i % 30 == 0):\n    p{k} = File(\"d.txt\", \"r\")\n    p{k} read(20)\n    p{k} close."),
}
DEEP = {"call"}
def gen(rng, n):
    ks = sorted(OPS); o = []
    for k in range(n): o.append([rng.choice(ks), rng.choice([1, 2, 3, 5, 8, 20, 60, 200]), "x" * rng.choice([0, 1, 5, 20, 100, 600]), rng.randrange(1, 6)])
    return o
def render(ops, n):
    s = ""; b = ""
    for k, (w, m, t, d) in enumerate(ops):
        if w not in OPS: continue
        f = dict(k=k, m=m, w=t, d=d, z=", ".join(["0"] * max(m, 2)))
        a = OPS[w][0].format(**f); s += a + "\n" if a else ""
        b += "  " + OPS[w][1].format(**f) + "\n"
    return s + "%d times (i):\n%s.\n\"end\" say\n" % (n, b)
