"""Histories of SQL through the Database binding: generation, rendering as a potion program, and the judge.
The reference is SQLite itself through Python's binding, replayed for every state the history so far allows."""
import sqlite3, re
FILES = ["f0.db", "f1.db", "f2.db"]
NH = 3
WORDS = ["alpha", "Beta", "gamma ray", "x", "", "O''Brien", "zwei und zwanzig", "caf\u00e9", "longer text with several words in it", "0", "NULL", "true", "a,b;c", "(p)", "q--w"]
COLS = {"t": ["id", "name", "v"], "u": ["k", "w"], "c": ["n", "txt"]}
DDL = {"t": "CREATE TABLE t (id INTEGER PRIMARY KEY, name TEXT, v INT)", "u": "CREATE TABLE u (k TEXT UNIQUE, w REAL NOT NULL)", "c": "CREATE TABLE c (n INT CHECK (n < 1000), txt TEXT)"}

def lit(rng):
    r = rng.random()
    if r < .12: return "NULL"
    if r < .4: return str(rng.choice([0, 1, -1, 7, 42, 999, 1000, 2147483648, -9007199254740993, rng.randrange(-500, 2000)]))
    if r < .47: return rng.choice(["1.5", "-0.25", "1e10", "0.1", "100.0"])
    if r < .85: return "'" + rng.choice(WORDS) + "'"
    n = rng.choice([20, 255, 256, 1000, 4000, 9000, 40000]) if rng.random() < .3 else rng.randrange(0, 120)
    return "printf('%%.*c', %d, '%s')" % (n, rng.choice("xyz"))
def where(rng, t):
    c = rng.choice(COLS[t])
    return rng.choice(["", "", " WHERE %s = %s" % (c, lit(rng)), " WHERE %s > %d" % (c, rng.randrange(0, 60)), " WHERE rowid %% %d = %d" % (rng.randrange(2, 5), rng.randrange(0, 2))])
def write(rng):
    t = rng.choice("tttuc"); r = rng.random()
    if r < .45:
        cols = COLS[t] if rng.random() < .6 or t == "u" else rng.sample(COLS[t], rng.randrange(1, len(COLS[t]) + 1))
        def row(): return "(" + ",".join(str(rng.randrange(1, 60)) if c == "id" else "%d.5" % rng.randrange(9) if c == "w" and rng.random() < .9 else lit(rng) for c in cols) + ")"
        n = 1 if rng.random() < .7 else rng.randrange(2, 30)
        return "INSERT %sINTO %s (%s) VALUES %s" % (rng.choice(["", "", "", "OR REPLACE ", "OR IGNORE "]), t, ",".join(cols), ",".join(row() for _ in range(n)))
    if r < .55:
        n = rng.choice([3, 20, 100, 400])
        return {"t": "INSERT INTO t (name, v) WITH RECURSIVE s(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM s WHERE x < %d) SELECT 'row ' || x, x * %d FROM s" % (n, rng.randrange(1, 9)),
                "u": "INSERT INTO u WITH RECURSIVE s(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM s WHERE x < %d) SELECT 'key ' || (x * 7 %% %d), x FROM s" % (n, rng.choice([n + 1, n, 1009])),
                "c": "INSERT INTO c WITH RECURSIVE s(x) AS (SELECT %d UNION ALL SELECT x+1 FROM s LIMIT %d) SELECT x, hex(x) FROM s" % (rng.choice([0, 900, 990]), n)}[t]
    if r < .75:
        c = rng.choice(COLS[t]); e = rng.choice([re.sub("[49]0{3,4},", "700,", lit(rng)), "%s || 'z'" % c, "%s + 1" % c])
        return "UPDATE %s%s SET %s = %s%s" % (rng.choice(["", "", "OR IGNORE "]), t, c, e, where(rng, t))
    if r < .88: return "DELETE FROM %s%s" % (t, where(rng, t))
    if r < .91: return "DROP TABLE %s%s" % (rng.choice(["", "IF EXISTS "]), t)
    if r < .96: return DDL[t].replace("TABLE", "TABLE IF NOT EXISTS") if rng.random() < .7 else DDL[t]
    return rng.choice(["CREATE INDEX IF NOT EXISTS i%s ON %s(%s)" % (t, t, COLS[t][1]), "CREATE TABLE IF NOT EXISTS u2 AS SELECT 1 AS a", "ALTER TABLE %s RENAME COLUMN %s TO %s" % (t, COLS[t][1], COLS[t][1]), "INSERT INTO nosuch VALUES (1)", "THIS IS NOT SQL", "INSERT INTO t VALUES (1", "", "/* only a comment */", "VACUUM"])
def query(rng):
    """A select and the columns it has; ordered, so that its rows have one right order."""
    r = rng.random(); t = rng.choice("tttuc")
    if r < .5:
        cs = COLS[t]
        if rng.random() < .3: cs = rng.sample(cs, rng.randrange(1, len(cs) + 1)); return "SELECT %s FROM %s%s ORDER BY rowid%s" % (", ".join(cs), t, where(rng, t), rng.choice(["", " DESC", " LIMIT %d" % rng.randrange(0, 9)])), cs
        return "SELECT * FROM %s%s ORDER BY rowid" % (t, where(rng, t)), cs
    if r < .62: return "SELECT count(*) AS n, max(%s) AS m, group_concat(%s, '/') AS g FROM %s" % (COLS[t][0], COLS[t][1], t), ["n", "m", "g"]
    if r < .72:
        n = rng.choice([1, 2, 9, 33, 100, 300]) if rng.random() < .9 else 1500
        return "WITH RECURSIVE s(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM s WHERE x < %d) SELECT x, 'row ' || x AS label FROM s" % n, ["x", "label"]
    if r < .82:
        n = rng.choice([1, 3, 8, 17, 40, 70]); cs = ["c%d" % i for i in range(n)]
        return "SELECT " + ", ".join("%s AS %s" % (lit(rng), c) for c in cs), cs
    if r < .88: return "SELECT %s AS one, '' AS two, NULL AS three" % lit(rng), ["one", "two", "three"]
    if r < .92: return "SELECT 1 AS a WHERE 0", ["a"]
    if r < .95: return "SELECT * FROM nosuch", ["a"]
    return "SELECT name AS s FROM sqlite_master ORDER BY name", ["s"]
def gen(rng, n, crash=False):
    ops = []; files = rng.sample(FILES, rng.randrange(1, 3)) if rng.random() < .8 else [":memory:", "f0.db"]
    intx = {}; pool = []
    for h in range(len(files)): ops.append(["open", h, files[h]])
    for h in range(len(files)):
        for t in "tuc":
            if rng.random() < .85: ops.append(["sql", h, DDL[t]])
    for _ in range(n):
        h = rng.randrange(len(files)); r = rng.random()
        if r < .5: ops.append(["sql", h, write(rng) if not pool or rng.random() < .9 else rng.choice(pool)])
        elif r < .75:
            q, cs = query(rng); ops.append(["rows", h, q, cs, rng.choice(["call", "call", "table", "table", "keep", "none"])])
        elif r < .83:
            ops.append(["sql", h, rng.choice(["BEGIN", "BEGIN", "BEGIN IMMEDIATE", "COMMIT", "COMMIT", "ROLLBACK", "SAVEPOINT s", "RELEASE s", "ROLLBACK TO s"])])
        elif r < .87: ops.append(["sql", h, ";".join(write(rng) for _ in range(rng.randrange(2, 4))) + rng.choice(["", ";"])])
        elif r < .91:
            q, cs = query(rng); q += "" if "LIMIT" in q else " LIMIT 12"; h2 = rng.randrange(len(files)); s = write(rng) if h2 != h else "INSERT INTO u2 VALUES (5)"
            ops.append(["nest", h, q, cs, h2, s])
        elif r < .92:
            q, cs = query(rng); q += "" if "LIMIT" in q else " LIMIT 12"; ops.append(["shut", h, q, cs, rng.choice(["close", "open \"%s\"" % files[h]])])
        elif r < .945: ops.append(["reopen", h, files[h]] if rng.random() < .6 else ["close", h])
        elif r < .96: ops.append(["bad", h])
        elif r < .98: ops.append(["isopen", h])
        else: ops.append(["churn", rng.choice([10, 200, 2000])])
    return ops

def pq(s): return '"' + s + '"'
def ind(ls, k=1): return ["  " * k + l for l in ls]
def render(ops, wrap=0):
    o = ['load "database"', 'z = Database(":memory:")', "z close"] + ["d%d = Database(\":memory:\")" % h for h in range(NH)] + ["d%d close" % h for h in range(NH)]
    o += ["st = (x):", "  y = \"K\"", "  if (x == nil):", "    y = \"N\"", "  .", "  if (x kind == Error):", "    y = \"E\"", "  .", "  y say", "."]
    b = [l for h in range(NH) for l in ("if (d%d kind == Error):" % h, "  \"#!\" say", ".")]
    for i, op in enumerate(ops):
        k = op[0]; b.append('"#%d" say' % i)
        show = lambda v, cs: ["(\"r\", %s length) say" % v] + ["%s(\"%s\") say" % (v, c) for c in cs]
        if k == "open": b += ["x = Database(\"%s\")" % op[2], "if (x kind == Error): \"E\" say", ". else: d%d = x" % op[1], "  \"K\" say", "."]
        elif k == "reopen": b += ["x = d%d open(\"%s\")" % (op[1], op[2]), "st(x)"]
        elif k == "close": b += ["d%d close" % op[1], "\"K\" say"]
        elif k == "bad": b += ["x = Database(\"/nosuch/dir/f.db\")", "st(x)"]
        elif k == "isopen": b += ["d%d open? say" % op[1]]
        elif k == "churn": b += ["l = ()", "i = 0", "while (i < %d):" % op[1], "  l push((i, \"text\" + i string))", "  i = i + 1", "."]
        elif k == "sql": b += ["x = d%d exec %s" % (op[1], pq(op[2])), "st(x)"]
        elif k == "rows":
            h, q, cs, how = op[1:5]
            if how == "call": b += ["x = d%d exec %s (row):" % (h, pq(q))] + ind(show("row", cs)) + ["."]
            elif how == "keep": b += ["keep = ()", "x = d%d exec %s (row):" % (h, pq(q)), "  keep push(row)", ".", "keep each (row):"] + ind(show("row", cs)) + ["."]
            elif how == "none": b += ["x = d%d exec %s" % (h, pq(q))]
            else: b += ["x = d%d gettable %s" % (h, pq(q)), "if (x kind == Tuple):", "  (\"n\", x length) say", "  x each (row):"] + ind(show("row", cs), 2) + ["  .", "."]
            b.append("st(x)")
        elif k == "shut":
            h, q, cs, how = op[1:5]
            b += ["x = d%d exec %s (row):" % (h, pq(q))] + ind(show("row", cs)) + ["  y = d%d %s" % (h, how), "  st(y)", ".", "st(x)"]
        elif k == "nest":
            h, q, cs, h2, s = op[1:6]
            b += ["x = d%d exec %s (row):" % (h, pq(q))] + ind(show("row", cs)) + ["  y = d%d exec %s" % (h2, pq(s)), "  st(y)", ".", "st(x)"]
    b.append('"#end" say')
    return "\n".join(o + b) + "\n"

class Bad(Exception):
    def __init__(self, sig, msg): Exception.__init__(self, msg); self.sig = sig
class Db:
    """One state a database may be in: the statements each commit made it of, and those of the open transaction."""
    cache = {}
    def __init__(self, done=(), tx=None): self.done = done; self.tx = tx; self.key = (done, tx)
    def __eq__(self, o): return self.key == o.key
    def __hash__(self): return hash(self.key)
    def conn(self):
        c = Db.cache.pop(self.key, None)
        if c is None:
            c = sqlite3.connect(":memory:", isolation_level=None)
            for g in self.done:
                for s in g: ex1(c, s)
            for s in self.tx or (): ex1(c, s)
        return c
    def put(self, c):
        if len(Db.cache) > 32:
            for x in Db.cache.values(): x.close()
            Db.cache.clear()
        o = Db.cache.pop(self.key, None)
        if o: o.close()
        Db.cache[self.key] = c
    def dropped(self): return Db(self.done, None)
    def dump(self):
        c = self.conn(); d = list(c.iterdump()); self.put(c); return d
    def before(self):
        """The states back to the one before the last commit that changed anything."""
        d = self.dropped().dump(); n = self.done; o = set()
        while n:
            n = n[:-1]; o.add(Db(n))
            if Db(n).dump() != d: break
        return o
def ex1(c, s):
    try: c.execute(s).fetchall(); return True
    except (sqlite3.Error, sqlite3.Warning): return False
def split(sql):
    """The statements of a string, as the engine takes them one after another."""
    out = []; cur = ""
    for p in sql.split(";"):
        cur = cur + ";" + p if cur else p
        if cur.count("'") % 2 == 0: out.append(cur); cur = ""
    if cur: out.append(cur)
    return [s for s in out if re.sub(r"/\*.*?\*/", "", s).strip()]
def step(st, sql):
    """One statement on a healthy disk: the state after it, and whether it succeeds."""
    c = st.conn(); ok = ex1(c, sql)
    if c.in_transaction: n = Db(st.done, (st.tx or ()) + (sql,))
    elif st.tx is None: n = Db(st.done + ((sql,),)) if ok and not re.match(r"\s*(SELECT|WITH)", sql) else st
    elif re.match(r"\s*(COMMIT|RELEASE)", sql): n = Db(st.done + (st.tx + (sql,),))
    else: n = Db(st.done)
    n.put(c)
    return n, ok
def failed(st):
    """What a statement that failed for the disk may leave: nothing of it, and perhaps nothing of the open transaction, which may be over."""
    return {st} if st.tx is None else {st, st.dropped(), Db(st.done, st.tx[:1])}
def text(v): return "nil" if v is None else str(v)
def rows_text(st, sql, cs):
    """The lines the script prints for each row of a query, and whether the query succeeds."""
    c = st.conn()
    try:
        cur = c.execute(sql); names = [d[0] for d in cur.description or ()]; rows = cur.fetchall(); ok = True
        if any(isinstance(v, float) for r in rows for v in r):
            f = lambda v: c.execute("SELECT CAST(? AS TEXT)", (v,)).fetchone()[0] if isinstance(v, float) else v
            rows = [tuple(f(v) for v in r) for r in rows]
    except (sqlite3.Error, sqlite3.Warning): rows, ok, names = [], False, []
    st.put(c)
    out = []
    for r in rows:
        d = dict(zip(names, r))
        out.append(["(r, %d)" % len(d)] + [text(d.get(x)).encode().decode("latin1") for x in cs])
    return out, ok
def execute(cands, sql, got, fault):
    """The states possible after a string of statements for which the script saw got ('K', 'E', or None when it was not told)."""
    out = set()
    for st in cands:
        for s in split(sql):
            if got is None or fault and got == "E": out |= failed(st)
            n, ok = step(st, s)
            if not ok:
                if got != "K": out.add(n)
                break
            st = n
            if got is None: out.add(st)
        else:
            if got != "E": out.add(st)
            elif fault: out.add(st) if False else None
            if got is None: out |= {st}
    return out
MANY = 48
class Judge:
    def __init__(self, init=()):
        self.f = {f: {Db()} for f in FILES}; self.h = [None] * NH; self.mem = {}
    def cands(self, h): return self.f[self.h[h]] if self.h[h] in self.f else self.mem[h]
    def setc(self, h, c, i, op, got):
        if not c: raise Bad("state", "operation %d %r reported %s, which no state the history allows explains" % (i, op[:3], got))
        if len(c) > MANY: raise Many()
        if self.h[h] in self.f: self.f[self.h[h]] = c
        else: self.mem[h] = c
    def close(self, h):
        if self.h[h] in self.f: self.f[self.h[h]] = {s.dropped() for s in self.f[self.h[h]]}
        self.h[h] = None
    def open(self, h, f):
        self.close(h); self.h[h] = f
        if f == ":memory:": self.mem[h] = {Db()}
class Many(Exception): pass
def check(ops, out, fault, crashed):
    """Follows the output of a run. Gives the judge with the states left, and how many operations reported an ending."""
    J = Judge(); lines = out.split("\n"); pos = 0; n = 0
    if lines and lines[-1] == "": lines.pop()
    cut = lambda: crashed and pos >= len(lines)
    for i, op in enumerate(ops):
        k = op[0]
        if pos >= len(lines) and crashed: return J, n
        if pos >= len(lines) or lines[pos] != "#%d" % i: raise Bad("order", "operation %d did not begin: %r" % (i, lines[pos:pos + 2]))
        pos += 1; e = pos
        while e < len(lines) and not re.match(r"#\d+$|#end$", lines[e]): e += 1
        body = lines[pos:e]; last = e >= len(lines); pos = e
        if last and crashed: body_done = False
        else: body_done = True
        got = body[-1] if body and body_done else None
        h = op[1] if len(op) > 1 else 0
        def bad(sig, what): raise Bad(sig, "operation %d %r: %s" % (i, [str(x)[:120] for x in op[:3]], what))
        if k in ("open", "reopen"):
            if not body_done:
                if k == "reopen": J.close(h)
                if op[2] in FILES: J.open(h, op[2])
                return J, n
            if body == ["K"]: J.open(h, op[2])
            elif body == ["E"] and fault:
                if k == "reopen": J.close(h)
            else: bad("open", "printed %r" % body[:3])
        elif k == "close":
            if body_done and body != ["K"]: bad("close", "printed %r" % body[:3])
            J.close(h)
        elif k == "bad":
            if body_done and body != ["E"]: bad("open", "printed %r" % body[:3])
        elif k == "isopen":
            w = ["true"] if J.h[h] else ["false"]
            if body_done and body != w: bad("open?", "printed %r, want %r" % (body[:3], w))
        elif k == "churn": pass
        elif J.h[h] is None:
            w = "N" if k == "rows" and op[4] == "table" else "E"
            if body_done and body != [w]: bad("closed", "printed %r on a closed database, want %r" % (body[:3], w))
        elif k == "sql":
            if body_done and (len(body) != 1 or got not in "KE"): bad("report", "printed %r" % body[:3])
            J.setc(h, execute(J.cands(h), op[2], got, fault), i, op, got)
            if not body_done: return J, n
        elif k in ("rows", "shut"):
            keepc = set(); why = None
            for st in J.cands(h):
                rows, ok = rows_text(st, op[2], op[3])
                if op[4] == "none": rows = []
                if k == "shut": rows = [r + ["E"] for r in rows]  # it cannot be closed while rows are coming: said, and still open
                want = [x for r in rows for x in r]
                if op[4] == "table": want = ["(n, %d)" % len(rows)] + want if ok else []
                if not body_done: keepc.add(st); continue
                w = want + ["K" if ok else "E"]
                if body == w: keepc.add(st)
                elif fault and got == "E" and (body[:-1] == want[:len(body) - 1]): keepc |= failed(st)
                elif why is None: why = (w, next((j for j in range(min(len(w), len(body))) if w[j] != body[j]), min(len(w), len(body))))
            if not keepc: bad("rows", "from line %d printed %r, want %r (%d lines, want %d)" % (why[1], [x[:80] for x in body[why[1]:why[1] + 3]], [x[:80] for x in why[0][why[1]:why[1] + 3]], len(body), len(why[0])))
            J.setc(h, keepc, i, op, got)
            if not body_done: return J, n
        elif k == "nest":
            h2, s = op[4], op[5]; keepc = set(); per = len(op[3]) + 2; why = None
            if J.h[h2] is None: c2 = None
            else: c2 = J.cands(h2)
            for st in J.cands(h):
                rows, ok = rows_text(st, op[2], op[3]); 
                if h2 == h: rs = [(r, 0) for r in rows]
                m = 0; good = True
                for r in rows:
                    if m + per > len(body): break
                    loose = fault and h2 == h and st.tx and any(body[(j + 1) * per - 1] == "E" for j in range(m // per))  # its transaction may be gone under the query
                    if not loose and body[m:m + per - 1] != r or body[m + per - 1] not in ("K", "E"): good = False; break
                    m += per
                if body_done and good:
                    if m == len(rows) * per and body[m:] == ["K" if ok else "E"]: pass
                    elif fault and body[m:] == ["E"]: pass
                    else: good = False
                if good: keepc.add((st, m))
                elif why is None: why = rows
            if not keepc: bad("rows", "printed %r, want rows %r" % ([x[:80] for x in body[:12]], why and why[:3]))
            m = max(x[1] for x in keepc)
            keepc = {x[0] for x in keepc}
            if h2 != h: J.setc(h, keepc | ({y for x in keepc for y in failed(x)} if fault and got != "K" else set()), i, op, got)
            else: c2 = keepc
            res = [body[(j + 1) * per - 1] for j in range(m // per)]
            if not body_done and len(body) > m: res.append(None)
            if c2 is None:
                if any(x == "K" for x in res): bad("closed", "reported success on a closed database")
            else:
                for x in res:
                    c2 = execute(c2, s, x, fault)
                    if not c2: bad("state", "the statement in the callback reported %s, which no state explains" % x)
                    if len(c2) > MANY: raise Many()
                J.setc(h2, c2, i, op, got)
            if not body_done: return J, n
        if not body_done: return J, n
        n += 1
    if not crashed and (pos >= len(lines) or lines[pos] != "#end"): raise Bad("order", "the script did not end: %r" % lines[pos:pos + 2])
    return J, n

TABLES = [("t", "SELECT rowid AS r, * FROM t ORDER BY rowid"), ("u", "SELECT rowid AS r, * FROM u ORDER BY rowid"), ("c", "SELECT rowid AS r, * FROM c ORDER BY rowid"), ("u2", "SELECT * FROM u2 ORDER BY rowid")]
def inspect_src(files):
    o = ['load "database"', 'load "buffile"']
    for f in files:
        o += ['d = Database("%s")' % f, '"@%s" say' % f, "d exec \"PRAGMA integrity_check\" (row):", "  row(\"integrity_check\") say", ".", "d exec \"SELECT name, sql FROM sqlite_master ORDER BY name\" (row):", "  row(\"name\") say", "  row(\"sql\") say", "."]
        for t, q in TABLES:
            o += ['"@%s" say' % t, "d exec \"%s\" (row):" % q, "  (\"r\", row length) say", "  row(\"r\") say"] + ["  row(\"%s\") say" % c for c in COLS.get(t, ["a"])] + ["."]
        o += ["d close"]
    return "\n".join(o) + "\n"
def inspect_want(st, f):
    o = ["@" + f, "ok"]
    rows, ok = rows_text(st, "SELECT name, sql FROM sqlite_master ORDER BY name", ["name", "sql"])
    for r in rows: o += r[1:]
    for t, q in TABLES:
        rows, ok = rows_text(st, q, ["r"] + COLS.get(t, ["a"]))
        o.append("@" + t)
        for r in rows: o += r
    return "\n".join(o).split("\n")
