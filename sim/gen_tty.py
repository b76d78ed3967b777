"""Typing at a terminal: the line editor's model, sessions of keys, and what readline must return for them."""
import re
LINE = 4095; HIST = 100; TAKE = 4095
class Ed:
    """What the keys mean. Input is the whole of the bytes typed; how they arrive does not matter."""
    def __init__(self, data, hist=()): self.d = data; self.i = 0; self.h = list(hist)[-HIST:]
    def add(self, l):
        if len(self.h) == HIST: self.h.pop(0)
        self.h.append(l)
    def byte(self):
        if self.i >= len(self.d): return None
        self.i += 1; return self.d[self.i - 1]
    def cooked(self, strip):
        """Line mode: a pipe, or a terminal that cannot edit."""
        if self.i >= len(self.d): return None
        j = self.d.find(b"\n", self.i, self.i + TAKE); e = min(len(self.d), self.i + TAKE) if j < 0 else j + 1
        l = self.d[self.i:e]; self.i = e
        return l.rstrip(strip) if len(strip) > 1 else l[:-1] if l.endswith(b"\n") else l
    def edit(self):
        self.add(b""); b = bytearray(); pos = 0; idx = 0; h = self.h; pending = False
        while 1:
            c = self.byte()
            if c is None: h.pop(); return bytes(b) if b else None
            k = None
            if c == 13: h.pop(); return bytes(b)
            if c == 3: h.pop(); return None
            if c == 27:
                e = self.byte()
                if e not in (91, 79): continue
                f = self.byte()
                if f is None or e == 79: continue
                if 48 <= f <= 57:
                    g = self.byte()
                    while g is not None and 48 <= g <= 59: g = self.byte()
                    if f == 51 and g == 126: k = "del"
                else: k = {68: "left", 67: "right", 65: "up", 66: "down"}.get(f)
            else: k = {127: "bs", 8: "bs", 4: "ctrl-d", 20: "swap", 2: "left", 6: "right", 16: "up", 14: "down", 21: "clear", 11: "kill", 1: "home", 5: "end", 12: "redraw", 23: "word"}.get(c, "ins")
            if k == "ins":
                if len(b) < LINE: b.insert(pos, c); pos += 1
            elif k == "bs":
                if pos: del b[pos - 1]; pos -= 1
            elif k in ("del", "ctrl-d"):
                if pos < len(b): del b[pos]
                elif k == "ctrl-d" and not b: h.pop(); return None
            elif k == "swap":
                if 0 < pos < len(b):
                    b[pos - 1], b[pos] = b[pos], b[pos - 1]
                    if pos != len(b) - 1: pos += 1
            elif k == "left": pos = max(0, pos - 1)
            elif k == "right": pos = min(len(b), pos + 1)
            elif k == "home": pos = 0
            elif k == "end": pos = len(b)
            elif k == "clear": b = bytearray(); pos = 0
            elif k == "kill": del b[pos:]
            elif k == "word":
                q = pos
                while q and b[q - 1] == 32: q -= 1
                while q and b[q - 1] != 32: q -= 1
                del b[q:pos]; pos = q
            elif k in ("up", "down") and len(h) > 1:
                h[-1 - idx] = bytes(b); n = idx + (1 if k == "up" else -1)
                if 0 <= n < len(h): idx = n; b = bytearray(h[-1 - idx]); pos = len(b)
WORDS = [b"x", b"foo", b"12", b"say", b"print", b"(a, b)", b"\"text\"", b"  ", b" ", b"h\xc3\xa9", b"\xe2\x82\xac", b"x = 5", b"list map", b"-", b"~", b"[", b"[3~", b"OA", b"1", b"0;5", b"#", b"%d%s", b"\\n", b"a" * 40]
def typed(rng, n):
    r = rng.random()
    if r < .75: return b"".join(rng.choice(WORDS) for _ in range(n))
    return bytes(rng.choice(b"abcdefghijklmnop qrstuvwxyz0123456789.,:;+-*/<=>!?@#$%&~^`'\"{}()[]_\\") for _ in range(n))
EDIT = [b"\x1b[A", b"\x1b[B", b"\x1b[C", b"\x1b[D", b"\x1b[3~", b"\x7f", b"\x08", b"\x04", b"\x14", b"\x02", b"\x06", b"\x10", b"\x0e", b"\x15", b"\x0b", b"\x01", b"\x05", b"\x0c", b"\x17",
        b"\x1b[H", b"\x1b[F", b"\x1b[1~", b"\x1b[5~", b"\x1b[6~", b"\x1b[1;5C", b"\x1b[1;5D", b"\x1b[15~", b"\x1b[24~", b"\x1bOP", b"\x1bOA", b"\x1b[Z"]
WEIGHT = [6, 4, 4, 8, 4, 6, 2, 1, 2, 2, 2, 3, 2, 1, 1, 3, 2, 1, 3] + [.3] * 12
def keys(rng, size, recall=True, quit=True):
    """The tokens of one line, its end included."""
    t = []; n = rng.randrange(0, 14)
    for _ in range(n):
        if rng.random() < .5: t.append(typed(rng, rng.randrange(1, 5)))
        elif rng.random() < .03: t.append(typed(rng, 1) * size(rng, 5000))
        elif rng.random() < .04: t += [rng.choice(EDIT)] * rng.randrange(2, 120)
        else: t.append(rng.choices(EDIT, WEIGHT)[0])
    if not recall: t = [x for x in t if x not in (b"\x1b[A", b"\x1b[B", b"\x10", b"\x0e", b"\x1bOA")]
    if not quit: t = [x for x in t if x != b"\x04"]
    r = rng.random(); t.append(b"\x03" if r < .02 and quit else b"\x04" if r < .03 and quit else b"" if r < .04 and quit else b"\x1b\x0d\r" if r < .05 else b"\r")
    return t
def plain(rng, size):
    r = rng.random()
    return [b"" if r < .1 else typed(rng, 1)[:1].replace(b"\r", b"") * size(rng, 9000) if r < .16 else typed(rng, rng.randrange(1, 8)), b"\n"]
def script(prompt, times, churn=0):
    """Reads a number of lines and shows each between marks."""
    s = ["load \"readline\"", "i = 0", "while (i < %d):" % times, "  i = i + 1"]
    if churn: s += ["  j = 0", "  while (j < %d):" % churn, "    j = j + 1", "    k = \"g\" + (j string)", "  ."]
    return "\n".join(s + ["  x = readline(\"%s\")" % prompt, "  if (x == nil): \"<|!|>\" say", "  . else:", "    (\"<|.\", x, \"|>\\n\") join print", "  .", ".", "\"<|end|>\" say"]) + "\n"
def shown(out):
    """The values readline returned, as the program showed them (None for nil), and whether it got to its end."""
    l = re.findall(rb"<\|(.*?)\|>", out, re.S); end = l and l[-1] == b"end"
    return [None if x == b"!" else x[1:] for x in l if x != b"end"], bool(end)
