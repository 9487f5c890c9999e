"""Scripts over a few tables of one shape (id, a, s), variables and contexts; judged by Session.tla."""
import csv
import json
import os
import shutil

from campaign import Result, h, rng
import gen
import tlc
from gen import ExprGen, Schema
from q import L, col, pushdown, query_sql, select, subq, table, tla, union, Render, TRUE, const, conjuncts, listable, renamed
from vals import NULL, enc, dec, num, txt

COLS = [("id", "id"), ("a", "i"), ("s", "s")]
NAMES = ["id", "a", "s"]
UNSET = [8, 0, 1, []]
MISS = [4, 0, 1, []]
TABS = ["t", "u", "x", "y"]
VARS = ["m", "n", "k"]


def var(n):
    return {"k": "var", "n": n}


class VGen(ExprGen):
    """expressions that also read variables; vars: name -> type"""

    def __init__(self, rnd, cols, vars=(), p=.25):
        super().__init__(rnd, cols)
        self.vars, self.pv = dict(vars), p

    def column(self, t):
        c = [n for n, k in self.vars.items() if k == t]
        if c and self.rnd.random() < self.pv:
            return var(self.rnd.choice(c))
        return super().column(t)

    def realcol(self, t):
        return ExprGen.column(self, t)

    def simple(self):
        c = [n for n, k in self.vars.items() if k == "li"]
        if c and self.rnd.random() < self.pv:
            return {"k": "invar", "a": self.realcol("i"), "n": self.rnd.choice(c), "paren": self.rnd.random() < .4}
        e = super().simple()
        if e["k"] == "cmp":
            lhs, rhs = ("a", "b") if e["b"]["k"] == "lit" else ("b", "a")
            t = "i" if e[rhs]["v"][0] == 1 else "s"
            e = {**e, lhs: self.realcol(t)}
            c = [n for n, k in self.vars.items() if k == t]
            if c and self.rnd.random() < self.pv:
                e[rhs] = var(self.rnd.choice(c))
        elif e["k"] == "in":
            e = dict(e, a=self.realcol("i" if e["l"][0]["v"][0] == 1 else "s"))
            c = [n for n, k in self.vars.items() if k == "li"]
            if c and e["l"][0]["v"][0] == 1 and self.rnd.random() < .6:
                return {"k": "invar", "a": e["a"], "n": self.rnd.choice(c), "paren": self.rnd.random() < .5}
        else:
            e = dict(e, a=self.realcol(self.rnd.choice(["i", "s"])))
        return e


CC = [(0, i + 1, t) for i, (_, t) in enumerate(COLS)]


def reads(x):
    """names of the tables a query names"""
    if isinstance(x, dict):
        return ({x["t"]} if x.get("kind") == "base" else set()).union(*[reads(v) for v in x.values()], set())
    if isinstance(x, (list, tuple)):
        return set().union(*[reads(v) for v in x], set())
    return set()


class Script:
    """Generates the statements of one script.  known: variable -> type as far as the generator knows."""

    def __init__(self, rnd, mix, vars, tabs, lvl="m", names=TABS, files=(), outer=None):
        self.outer, self.made = outer, []      # made: the executed files (path, lines, statements, variables then, those it leaves)
        self.rnd, self.mix, self.vars, self.tabs, self.lvl, self.names = rnd, mix, dict(vars), tabs, lvl, names
        self.files = dict(files)
        self.csv = [n for n, f in self.files.items() if f.endswith(".csv")]
        self.names = [n for n in names if n not in self.csv]
        self.used = set()      # variables some statement of the script used so far
        self.touched = set()   # variables set by the script
        self.last = False      # a partial row was written: no further statement may read it
        self.lines, self.stmts = [], []

    def nm(self, t, mode=""):
        """how the table is written in SQL"""
        name = self.files.get(t, t)
        return "`%s%s`" % (name, mode) if name != t or mode else t

    def table(self, t, cols, alias="", **kw):
        return table(t, cols, alias, **(dict(kw, sql=self.nm(t)) if t in self.files else kw))

    def g(self, p=None):
        return VGen(self.rnd, CC, self.vars, (.25 if self.mix.get("vars") else 0) if p is None else p)

    # ---- queries giving (id, a, s)
    def base(self, alias="", where=None, src=None, idw=False, plain=False):
        rnd = self.rnd
        t = src or rnd.choice(self.names)
        g = self.g()
        frm = [self.table(t, NAMES, alias)]
        w = TRUE
        if rnd.random() < .6:
            w = self.idpred() if idw else g.pred(rnd.choice([0, 1, 1]))
        sel = [col(1), col(2), col(3)]
        if not plain:
            if rnd.random() < .5:
                sel[1] = g.value("i", 1)
            if rnd.random() < .3:
                sel[2] = g.value("s", 1)
        return select(sel, NAMES, frm, where=pushdown(w, 3) if w["k"] != "true" else TRUE, flat=True)

    def idpred(self):
        rnd = self.rnd
        r = rnd.random()
        if r < .6:
            return {"k": "cmp", "o": rnd.choice(["=", "<", "<=", ">", ">=", "!="]), "a": col(1), "b": L(rnd.choice([1, 2, 3, 4]))}
        if r < .8:
            return {"k": "in", "a": col(1), "l": [L(rnd.choice([1, 2, 3, 4, 5])) for _ in range(rnd.choice([1, 2, 3]))]}
        return {"k": "and", "a": {"k": "cmp", "o": ">", "a": col(1), "b": L(rnd.choice([0, 1, 2]))}, "b": {"k": "cmp", "o": "<", "a": col(1), "b": L(rnd.choice([3, 4, 5]))}}

    def query(self, keyed=False, depth=1):
        """keyed: conditions only on id, first item a plain column"""
        rnd = self.rnd
        k = rnd.choice(["base"] * 6 + ["union", "unions", "order", "join", "group", "derived", "insub", "distinct", "const"])
        if k in ("base", "insub") or depth == 0:
            q = self.base(idw=keyed)
            if k == "insub" and not keyed and q["where"]["k"] == "true":
                sub = select([col(1)], ["v"], [self.table(rnd.choice(self.names), NAMES)], where=TRUE, flat=True)
                q = dict(q, where={"k": "linsub", "a": col(1), "q": sub})
            return q
        if k in ("union", "unions"):
            return union([self.base(idw=keyed) for _ in range(rnd.choice([2, 2, 3]))], distinct=1 if k == "unions" else 0)
        if k == "order":
            q = self.base(idw=keyed, plain=True)
            return dict(q, order=[{"i": i, "e": {}, "d": rnd.choice([0, 1])} for i in (1, 2, 3)], lim=rnd.choice([0, 1, 2, 3, -1]), off=0)
        if k == "join":
            a, b = rnd.choice(self.names), rnd.choice(self.names)
            on = {"k": "kcmp", "a": col(1), "b": col(4)}
            return select([col(1), col(5), rnd.choice([col(3), col(6)])], NAMES,
                          [self.table(a, NAMES, "p"), self.table(b, NAMES, "q", join=rnd.choice(["left", "inner"]), on=on)], flat=True)
        if k == "group":
            f = rnd.choice(["max", "min", "sum"])
            return \
                select([col(1), {"k": "agg", "f": f, "a": col(2)}, {"k": "agg", "f": "max", "a": col(3)}], NAMES,
                       [self.table(rnd.choice(self.names), NAMES)], group=[col(1)], flat=True)
        if k == "derived":
            inner = self.base(plain=False)
            return select([col(1), col(2), col(3)], NAMES, [subq(inner, "d")], flat=True)
        if k == "distinct":
            q = self.base(idw=keyed)
            return dict(q, distinct=1)
        if keyed:
            return self.base(idw=True)
        q = self.base(plain=True)
        return dict(q, sel=[{"k": "ar", "o": "+", "a": col(1), "b": L(rnd.choice([1, 10]))}, col(2), L("c")])

    # ---- statements
    def add(self, sql, st):
        self.lines.append(sql)
        self.stmts.append(tla(st))
        for n in self.varnames(st):
            self.used.add(n)

    def varnames(self, x):
        if isinstance(x, dict):
            out = set()
            if x.get("k") in ("var", "invar", "linvar"):
                out.add(x["n"])
            return out.union(*[self.varnames(v) for v in x.values()], set())
        if isinstance(x, (list, tuple)):
            return set().union(*[self.varnames(v) for v in x], set())
        return set()

    def stmt(self):
        rnd = self.rnd
        ops = [o for o, w in self.mix["ops"].items() for _ in range(w)]
        if self.csv and rnd.random() < .35:
            return self.op_csv()
        getattr(self, "op_" + rnd.choice(ops))()

    def target(self, mode):
        t = self.rnd.choice(self.names)
        if self.rnd.random() < .25:
            t = self.rnd.choice([x for x in ["y", "z%d" % self.rnd.randint(1, 3)] if x not in self.csv])
        return t

    def rng_of(self, q):
        """source filters of a plain select, as a condition on the target"""
        if q["k"] != "sel" or q["from"][0]["kind"] != "base" or len(q["from"]) > 1:
            return TRUE
        cs = [c for c in conjuncts(q["where"]) if c["k"] in ("lcmp", "lin")]
        out = TRUE
        for c in cs:
            out = c if out is TRUE else {"k": "and", "a": out, "b": c}
        return out

    def with_ctes(self, n):
        """(ctes, names before)"""
        rnd = self.rnd
        ctes, old = [], self.names
        recursive = rnd.random() < self.mix.get("recursive", 0)
        for i in range(n):
            name = rnd.choice(["c1", "c2", "t"]) if rnd.random() < .8 else rnd.choice(TABS)
            if name in self.files:
                name = "c1"
            if any(c["n"] == name for c in ctes):
                continue
            names = self.names
            if recursive:                  # a name in its own definition is the definition
                self.names = [x for x in names if x != name]
                if not self.names:
                    self.names = names
                    continue
            q = self.query(depth=1 if rnd.random() < .5 else 0)
            rec = [self.again(name)] if recursive and rnd.random() < .8 and not self.csv and listable(q) and not q["order"] and q["lim"] < 0 and not q["distinct"] else []
            self.names = names
            c = {"n": name, "q": q, "rec": rec}
            head, shown = name, q
            if listable(q) and rnd.random() < self.mix.get("collist", 0):
                head, shown = "%s (%s)" % (name, ",".join(q["names"])), renamed(q)
            c["sql"] = "%s AS (%s%s)" % (head, query_sql(shown), "".join(" UNION ALL " + query_sql(r) for r in rec))
            ctes.append(c)
            self.names = self.names + [name] * 3
        if recursive and ctes:
            ctes[0]["sql"] = "RECURSIVE " + ctes[0]["sql"]
        return ctes, old

    def again(self, name):
        """the recursive part: each row gives rows with a larger id, up to a bound"""
        rnd = self.rnd
        k = rnd.choice([2, 3, 4, 5])
        end = {"k": "and", "a": {"k": "cmp", "o": ">=", "a": col(1), "b": L(0)}, "b": {"k": "cmp", "o": "<", "a": col(1), "b": L(k)}}
        up = {"k": "ar", "o": "+", "a": col(1), "b": L(rnd.choice([1, 1, 2]))}
        others = [t for t in self.names if t != name and t not in self.csv]
        if rnd.random() < .4 and k < 4 and others:
            on = {"k": "kcmp", "a": col(1), "b": col(4)}
            return select([up, col(5), rnd.choice([col(3), col(6)])], NAMES,
                          [self.table(name, NAMES, "p"), self.table(rnd.choice(others), NAMES, "q", join=rnd.choice(["left", "inner"]), on=on)], where=pushdown(end, 6), flat=True)
        g = self.g()
        return select([up, g.value("i", 1) if rnd.random() < .6 else col(2), col(3)], NAMES, [self.table(name, NAMES)], where=pushdown(end, 3), flat=True)

    def op_ins(self):
        rnd = self.rnd
        mode = rnd.choice(self.mix.get("modes", ["I"]))
        t = self.target(mode)
        ctes, old = [], self.names
        if rnd.random() < self.mix.get("with", 0):
            ctes, old = self.with_ctes(rnd.choice([1, 1, 2]))
        q = self.query(keyed=mode not in ("I", ))
        self.names = old
        m = [1, 2, 3]
        if rnd.random() < self.mix.get("partial", 0) and q["k"] == "sel" and not q["order"] and not q["distinct"] and t == "y":
            keep = rnd.choice([[0, 1], [0, 2]])
            q = dict(q, sel=[q["sel"][i] for i in keep], names=[q["names"][i] for i in keep])
            m = [keep.index(i) + 1 if i in keep else 0 for i in range(3)]
            self.last = True
        if mode in ("I", "DI") and q["k"] == "sel" and m == [1, 2, 3] and rnd.random() < self.mix.get("star", 0):
            src = rnd.choice(self.names)
            q = self.base(src=src, idw=True, plain=True)
            w = query_sql(q).partition(" WHERE ")
            q["sqltext"] = "SELECT * FROM %s%s%s" % (self.nm(src), w[1], w[2])
        self.put_ins(mode, t, q, m, ctes)

    def put_ins(self, mode, t, q, m, ctes):
        rnd = self.rnd
        sql = query_sql(q)
        wsql = "WITH %s " % ", ".join(c["sql"] for c in ctes) if ctes else ""
        styled = self.nm(t, "<%s>" % (mode if rnd.random() < .7 else mode.lower())) if mode != "I" or rnd.random() < .3 else self.nm(t)
        pre = post = None
        if mode != "I" and rnd.random() < self.mix.get("usetype", 0):
            pre, post, styled = "SET @use_output_type='%s'" % mode, "SET @use_output_type=NULL", self.nm(t)
        st = {"op": "ins", "mode": mode, "t": t, "q": q, "map": m, "rng": self.rng_of(q), "with": [{"n": c["n"], "q": c["q"], "rec": c["rec"]} for c in ctes]}
        text = "%sINSERT INTO %s %s" % (wsql, styled, sql) if rnd.random() < .5 else "INSERT INTO %s %s%s" % (styled, wsql, sql)
        if pre:
            self.lines.append(pre)
        self.add(text, st)
        if post:
            self.lines.append(post)

    def op_insv(self):
        rnd = self.rnd
        mode = rnd.choice(self.mix.get("modes", ["I"]))
        t = self.target(mode)
        n = rnd.choice([1, 1, 2, 3])
        cols = [0, 1, 2] if rnd.random() < .7 else rnd.choice([[0, 2, 1], [0, 1], [0, 2]] if t == "y" else [[0, 2, 1], [0, 1, 2]])
        self.last = self.last or len(cols) < 3
        rows = [[L([rnd.choice([1, 2, 3, 4, 5, 6]), rnd.choice([None, 0, 1, -2, 7]), rnd.choice([None, "a", "ab", "", "7"])][c]) for c in cols] for _ in range(n)]
        m = [cols.index(i) + 1 if i in cols else 0 for i in range(3)]
        r = Render([[]])
        styled = self.nm(t, "<%s>" % mode) if mode != "I" or rnd.random() < .3 else self.nm(t)
        self.add("INSERT INTO %s(%s) VALUES %s" % (styled, ",".join(NAMES[c] for c in cols), ",".join("(%s)" % ",".join(r.e(v) for v in row) for row in rows)),
                 {"op": "insv", "mode": mode, "t": t, "rows": rows, "map": m})

    def op_del(self):
        rnd = self.rnd
        t = rnd.choice(self.names)
        g = self.g()
        parts, seen = [], set()
        for _ in range(rnd.choice([0, 1, 1, 1, 2, 3])):
            e = g.simple()
            if e["k"] not in ("cmp", "in", "invar"):
                continue
            if e["k"] == "cmp" and e["b"]["k"] == "col":
                e = dict(e, a=e["b"], b=e["a"])
            key = (e["a"]["i"], "=" if e["k"] != "cmp" else e["o"])
            if key in seen and key[1] != "!=":
                continue
            seen.add(key)
            if e["k"] == "cmp" and rnd.random() < .12 and e["o"] in ("=", "!="):
                e = dict(e, a=e["b"], b=e["a"])
            parts.append(e)
        if rnd.random() < .15 and (1, "=") not in seen:
            sub = select([col(1)], ["v"], [self.table(rnd.choice(self.names), NAMES)], where=pushdown(self.idpred(), 3), flat=True)
            parts.append({"k": "linsub", "a": col(1), "q": sub})
        w = TRUE
        for e in parts:
            e = pushdown(e, 3)
            w = e if w is TRUE else {"k": "and", "a": w, "b": e}
        r = Render([NAMES], flat=True)
        self.add("DELETE FROM %s%s" % (self.nm(t), " WHERE " + r.bare(w) if parts else ""), {"op": "del", "t": t, "where": w, "refuse": 0})

    def op_delany(self):
        """any condition: either refused as a whole or carried out exactly"""
        t = self.rnd.choice(self.names)
        w = self.g(0).pred(self.rnd.choice([1, 1, 2]))
        for _ in range(self.rnd.choice([0, 1])):
            s = self.g(0).simple()
            if s["k"] in ("cmp", "in"):
                w = {"k": "and", "a": s, "b": w} if self.rnd.random() < .7 else {"k": "and", "a": w, "b": s}
        r = Render([NAMES], flat=True)
        self.add("DELETE FROM %s WHERE %s" % (self.nm(t), r.bare(w)), {"op": "del", "t": t, "where": pushdown(w, 3), "refuse": 1})

    CSVW = ["=", "<", "<=", ">", ">=", "!="]

    def csv_where(self):
        rnd = self.rnd
        lits = ["", "1", "2", "3", "a", "ab", "7", "a,b", 'q"q', "it"]
        if rnd.random() < .6:
            return {"k": "lcmp", "o": rnd.choice(self.CSVW), "a": col(rnd.choice([1, 2, 3])), "b": L(rnd.choice(lits))}
        return {"k": "lin", "a": col(rnd.choice([1, 2, 3])), "l": [L(x) for x in rnd.sample(lits, rnd.choice([1, 2, 3]))]}

    def op_csv(self):
        """statements on CSV tables: what is written becomes text"""
        rnd = self.rnd
        t = rnd.choice(self.csv)
        k = rnd.choice(["from", "from", "values", "copy", "copy", "del", "order", "group"])
        if k == "del":
            w = self.csv_where()
            return self.add("DELETE FROM %s WHERE %s" % (self.nm(t), Render([NAMES], flat=True).bare(w)), {"op": "del", "t": t, "where": w, "refuse": 0})
        if k == "values":
            rows = [[L(rnd.choice([1, 2, 3, 4])), L(rnd.choice([None, 0, -7, 12])), L(rnd.choice([None, "a", "", "a,b", 'q"q', "é", "l\nm", " x "]))] for _ in range(rnd.choice([1, 2, 3]))]
            r = Render([[]])
            return self.add("INSERT INTO %s(id,a,s) VALUES %s" % (self.nm(t), ",".join("(%s)" % ",".join(r.e(v) for v in row) for row in rows)), {"op": "insv", "mode": "I", "t": t, "rows": rows, "map": [1, 2, 3]})
        src = rnd.choice(self.names if k == "from" else self.csv)
        w = TRUE if rnd.random() < .4 else self.csv_where() if k != "from" else pushdown(self.idpred(), 3)
        q = select([col(1), col(2), col(3)], NAMES, [self.table(src, NAMES)], where=w, flat=True)
        if k == "order":
            q = dict(q, order=[{"i": i, "e": {}, "d": rnd.choice([0, 1])} for i in (1, 2, 3)], lim=rnd.choice([0, 1, 2, 3, -1]), off=0)
        if k == "group":
            q = select([col(1), {"k": "agg", "f": "max", "a": col(2)}, {"k": "agg", "f": "min", "a": col(3)}], NAMES, [self.table(src, NAMES)], where=w, group=[col(1)], flat=True)
        self.put_ins("I", t, q, [1, 2, 3], [])

    def setvar(self, v, t):
        self.vars[v] = t
        self.touched.add(v)

    def op_setlit(self):
        rnd = self.rnd
        free = [v for v in VARS if v not in self.used and v not in self.touched]
        if not free or self.any("rerr"):      # SET-LAST-WINS
            return
        v = rnd.choice(free)
        t = rnd.choice(["i", "i", "s"])
        e = L(rnd.choice([0, 1, 2, 3, 5, -2, None]) if t == "i" else rnd.choice(["a", "ab", "b", "", "it's", 'q"q', "a=b", "x -- y", "/* a */", "o''o", "#;"]))
        glob = 1 if rnd.random() < self.mix.get("glob", 0) else 0
        if glob and self.outer and (v in self.outer.used or v in self.outer.touched):
            return
        text = Render([[]]).e(e)
        if t == "s" and 34 not in e["v"][3] and rnd.random() < .3:
            text = '"%s"' % dec(e["v"])
        self.add("SET %s@%s=%s" % ("global " if glob else "", v, text), {"op": "set", "v": v, "e": e, "glob": glob})
        if glob:
            self.used.add(v)       # may be hidden by an inner level
            self.vars.pop(v, None)
        else:
            self.setvar(v, t)

    def op_setexpr(self):
        rnd = self.rnd
        v = rnd.choice(VARS)
        r = rnd.random()
        if r < .5:
            c = [n for n, t in self.vars.items() if t == "i"]
            a = var(rnd.choice(c)) if c else L(rnd.choice([1, 2]))
            e = {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": a, "b": L(rnd.choice([1, 2, 3]))}
            sql = Render([[]]).e(e)[1:-1]
        else:
            q = select([{"k": "agg", "f": rnd.choice(["max", "min", "count"]), "a": col(rnd.choice([1, 1, 2]))}], ["v"], [self.table(rnd.choice(self.names), NAMES)], flat=True)
            e = {"k": "scalar", "q": q}
            sql = Render([[]]).e(e)
        self.add("SET @%s=%s" % (v, sql), {"op": "set", "v": v, "e": e, "glob": 0})
        self.setvar(v, "i?" if r >= .5 else "i")
        if r >= .5:
            self.vars[v] = "e"     # may be an empty result: not used in expressions
        return

    def op_into(self):
        rnd = self.rnd
        v = rnd.choice(VARS)
        if rnd.random() < .5:
            q = select([col(1)], ["v"], [self.table(rnd.choice(self.names), NAMES)], where=pushdown(self.idpred(), 3) if rnd.random() < .6 else TRUE, flat=True)
            t = "li"
        else:
            q = select([{"k": "agg", "f": "count*"}], ["v"], [subq(select([col(1)], ["w"], [self.table(rnd.choice(self.names), NAMES)], flat=True), "d")], flat=True)
            q = select([{"k": "ar", "o": "+", "a": L(rnd.choice([1, 2])), "b": L(3)}], ["v"], [], flat=True)
            t = "i"
        sql = query_sql(q)
        a, f, b = sql.partition(" FROM ")
        text = "%s INTO @%s%s%s" % (a, v, f, b)
        self.add(text, {"op": "into", "v": v, "q": q, "with": []})
        self.setvar(v, t)

    def op_acc(self):
        rnd = self.rnd
        c = [n for n, t in self.vars.items() if t == "i"]
        if not c:
            return self.op_setlit()
        v = rnd.choice(c)
        src, t = rnd.choice(self.names), self.target("I")
        if src == t:
            t = "y" if src != "y" else "t"
        e = rnd.choice([{"k": "ar", "o": "+", "a": var(v), "b": L(1)}, {"k": "ar", "o": "+", "a": var(v), "b": col(1)},
                        {"k": "ar", "o": "-", "a": var(v), "b": {"k": "coalesce", "l": [col(2), L(0)], "ifnull": True}}])
        self.add("INSERT INTO %s SELECT id AS id, @%s:=%s AS a, s AS s FROM %s" % (self.nm(t), v, Render([NAMES]).e(e)[1:-1], self.nm(src)),
                 {"op": "acc", "t": t, "src": src, "v": v, "e": e})
        self.setvar(v, "i")
        self.vars[v] = "i"

    def op_sel(self):
        q = self.query()
        self.add(query_sql(q), {"op": "sel"})

    def op_cerr(self):
        rnd = self.rnd
        if self.mix.get("nolit") is None and self.any("set"):
            return      # a literal SET is already done when the rest is compiled (SET-LAST-WINS)
        bad = rnd.choice(["SELEC id FROM t", "SELECT FROM WHERE", "SELECT nofunc__xx(id) FROM t", "DELETE FROM t WHERE id=1 OR a=2", "SELECT id AS id FROM nodb.t",
                          "CREATE TABLE q (id INT)", "EXECUTE `/nonexistent/f.sql`", "SELECT id AS id FROM t INTO @m, @n WHERE", "INSERT INTO x SELECT", "USE nosuchmodule_xyz"])
        self.add(bad, {"op": "cerr"})
        self.has_cerr = True

    def any(self, op):
        def has(sts):
            return any(s["op"] == op or s["op"] == "exec" and has(s["stmts"]) for s in sts)
        return has(self.stmts) or self.outer is not None and self.outer.any(op)

    def op_exec(self):
        """EXECUTE of a file of statements, one written for it or one executed before"""
        rnd = self.rnd
        depth, o = 0, self
        while o.outer:
            o, depth = o.outer, depth + 1
        if self.made and rnd.random() < .35:
            path, stmts, vars, used = rnd.choice(self.made)
            if all(vars.get(v) == self.vars.get(v) for v in used):
                return self.put_exec(path, stmts, used)
        if depth >= 2:
            return
        child = Script(rnd, dict(self.mix, ops={k: v for k, v in self.mix["ops"].items() if k != "exec" or depth == 0}), self.vars, self.tabs, self.lvl, TABS, self.files, outer=self)
        want = rnd.choice([0, 1, 1, 2, 3])
        for _ in range(2 * want):
            if len(child.stmts) < want and not child.last:
                child.stmt()
        global FILES
        FILES += 1
        path = "%s/f%d.sql" % (rnd.choice(["w/sql", "w", "."]), FILES)
        if rnd.random() < .3:
            path = os.path.abspath(path)
        os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
        child.lines = dressed(rnd, self.mix, child.lines)
        text = noisy(rnd, child.lines) if self.mix.get("noise") else ";\n".join(child.lines) + rnd.choice(["", ";", ";\n"])
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        for s in child.stmts:
            if s["op"] == "set" and s["glob"]:
                self.vars.pop(s["v"], None)
        self.last = self.last or child.last
        self.texts = getattr(self, "texts", []) + [(path, text)] + getattr(child, "texts", [])
        if not child.last:
            self.made.append((path, child.stmts, dict(self.vars), sorted(child.used | child.touched)))
        self.put_exec(path, child.stmts, child.used)

    def put_exec(self, path, stmts, used):
        self.lines.append("%s `%s`" % (self.rnd.choice(["EXECUTE", "execute"]), path))
        self.stmts.append({"op": "exec", "lvl": "f%d" % (len(self.stmts) + 100 * len(self.lvlname())), "stmts": stmts})
        self.used |= set(used)

    def lvlname(self):
        return [] if self.outer is None else self.outer.lvlname() + [1]

    def op_rerr(self):
        q = self.query(depth=0)
        self.add("INSERT INTO `/nonexistent-dir/f.json` " + query_sql(q), {"op": "rerr", "q": q})


FILES = 0
NOISE = [" /* it's; */ ", " -- don't; x\n", " # \"q ` \n", "\n", " \t ", "/**/", " /* ` */ ", " --\n"]


def noisy(rnd, lines):
    """the same script with comments, line breaks and other spelling"""
    def one(sql):
        low = rnd.random() < .25
        out, quote = [], None
        for c in sql:
            if quote:
                quote = None if c == quote else quote
            elif c in "'`\"":
                quote = c
            elif c == " " and rnd.random() < .08:
                two = "".join(out[-5:]).upper() in ("GROUP", "ORDER")     # one word to sqlglot
                out.append("\n" if two else rnd.choice(NOISE) + " ")
                continue
            elif low:
                c = c.lower()
            out.append(c)
        return "".join(out)
    out = rnd.choice(["", "", "-- it's\n", ";;", "/* a; 'b */"])
    for x in lines:
        out += one(x)
        out += rnd.choice([";\n", ";", " ;; ", "; -- it's done; really\n", ";/* ' */", "\n;#'\n"])
    return out


def initial(rnd):
    out = {}
    for n in TABS:
        k = rnd.choice([0, 1, 2, 3, 4, 5]) if n != "y" else rnd.choice([0, 0, 2])
        rows = gen.rows(rnd, COLS, k)
        dup = rnd.random() < .15
        for r in rows:
            if dup:
                r[0] = r[0] + rnd.choice([0, 0, 1])
        out[n] = rows
    return out


def dressed(rnd, mix, lines):
    """the same statements after EXPLAIN and between statements that only show something"""
    out = []
    for x in lines:
        if rnd.random() < mix.get("show", 0):
            out.append(rnd.choice(["SHOW DATABASES", "show imports", "Show Databases", "EXPLAIN SHOW DATABASES"]))
        while rnd.random() < mix.get("explain", 0) and not x.lower().startswith("explain explain"):
            x = rnd.choice(["EXPLAIN ", "EXPLAIN ", "explain ", "Explain\n"]) + x
        out.append(x)
    return out


def initial_vars(rnd, levels, p):
    return {l: {v: rnd.choice([0, 1, 2, 3, 5, None, "a", "ab", [1, 2], [2, 3, 5], []]) for v in VARS if rnd.random() < p} for l in levels}


DIRS = ["w/d/e", "w/d_e", "w/o", "w/d/e/f", "w/D"]


def choose_files(rnd):
    out, used = {}, set()
    for n in TABS:
        if rnd.random() < .3:
            continue
        for _ in range(5):
            p = "%s/%s.%s" % (rnd.choice(DIRS), rnd.choice(["t", "t_", "data", n]), rnd.choice(["json", "json", "csv"]))
            if rnd.random() < .3:
                p = os.path.abspath(p)
            if os.path.abspath(p) not in used:
                used.add(os.path.abspath(p))
                out[n] = p
                break
    if sum(f.endswith(".csv") for f in out.values()) == len(TABS):
        del out["t"]
    return out


class World:
    """The real engine with its levels of variables, and the projection of its state."""

    def __init__(self, levels=("m",)):
        from impl import Engine
        for v in list(os.environ):      # an environment variable is a variable of the process
            if v.lower() in VARS:
                del os.environ[v]
        os.system = lambda c: 0         # EXECUTE of something that is no script is a shell command
        self.eng = Engine()
        self.ctx = {"m": self.eng.e}
        for l in levels:
            if l != "m" and l != "g":
                self.ctx[l] = self.eng.e.context()
        self.levels = ["g", "m"] + [l for l in levels if l not in ("m", "g")]

    def env(self, l):
        from syncanysql.executor import Executor
        return Executor.global_env_variables if l == "g" else self.ctx[l].executor.env_variables

    def reset(self, tabs, vars=None, files=()):
        """files: table -> path; the other tables are in memory"""
        self.files = dict(files)
        shutil.rmtree("w", ignore_errors=True)
        for n, path in self.files.items():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            rows = [dict(zip(NAMES, r)) for r in tabs.get(n, [])]
            if path.endswith(".csv"):
                tabs[n] = [["" if x is None else str(x) for x in r] for r in tabs.get(n, [])]
                if rows or len(n) % 2:
                    with open(path, "w", newline="") as f:
                        csv.writer(f, quoting=csv.QUOTE_MINIMAL).writerows([NAMES] + tabs[n])
            elif rows or path.endswith("_.json"):
                with open(path, "w") as f:
                    json.dump(rows[0] if len(rows) == 1 and "o" in path else rows, f)
        for n in self.eng.collections():
            self.eng.pop(n)
        for n, rows in tabs.items():
            if n in self.files:
                continue
            self.eng.put(n, [dict(zip(NAMES, r)) for r in rows])
        for l in self.levels:
            for v in VARS:
                self.env(l).pop("@" + v, None)
                if vars and v in vars.get(l, {}):
                    self.env(l)["@" + v] = vars[l][v]

    def run(self, lvl, sql):
        from impl import limit
        try:
            with self.eng._quiet(), limit(20):
                self.ctx[lvl].execute(sql)
            return None
        except KeyboardInterrupt:
            raise
        except BaseException as x:
            return "%s: %s" % (type(x).__name__, str(x)[:200])

    @staticmethod
    def read(path):
        if not os.path.exists(path):
            return []
        with open(path, newline="") as f:
            if path.endswith(".csv"):
                return list(csv.DictReader(f))
            rows = json.load(f)
            return rows if isinstance(rows, list) else [rows]

    def state(self):
        tabs = {n: [] for n in TABS}
        for n in self.eng.collections() + list(self.files):
            rows = self.read(self.files[n]) if n in self.files else self.eng.get(n)
            if not rows:
                continue
            tabs[n] = [[enc(r[c]) if c in r else MISS for c in NAMES] if isinstance(r, dict) and set(r) <= set(NAMES) else [[9, 0, 1, []]] * 3 for r in rows]
        return {"tabs": tabs, "vars": {l: {v: enc(self.env(l)["@" + v]) if "@" + v in self.env(l) else UNSET for v in VARS} for l in self.levels}}


def types_of(vars, levels_chain):
    out = {}
    for v in VARS:
        for l in levels_chain:
            x = vars[l][v]
            if x != UNSET:
                t = {0: "i", 1: "i", 2: "s", 3: "li"}.get(x[0])
                if t == "li" and any(y[0] != 1 for y in x[3]):
                    t = None
                if t:
                    out[v] = t
                break
        else:
            out[v] = "i"       # undefined: NULL
    return out


def chunk(prop, mod, tier, seed, c, n):
    import importlib
    m = importlib.import_module(mod)
    rnd = rng(prop, seed, c)
    res = Result()
    levels = getattr(m, "LEVELS", ["m"])
    up = dict({"m": "g"}, **{l: "m" for l in levels if l not in ("m", "g")})
    w = World(levels)
    trace, meta = [], []
    done = 0
    while done < n:
        tabs = initial(rnd)
        files = choose_files(rnd) if any(x.get("files") for x in m.MIXES) else {}
        w.reset(tabs, initial_vars(rnd, w.levels, rnd.choice([0, .3, .6])) if any(x.get("vars") for x in m.MIXES) else None, files)
        st = w.state()
        trace.append({"ev": "reset", "tabs": st["tabs"], "vars": st["vars"], "up": up, "csv": [n for n in files if files[n].endswith(".csv")]})
        meta.append(None)
        for _ in range(rnd.choice([1, 2, 2, 3, 4])):
            mix = rnd.choice(m.MIXES)
            lvl = rnd.choice(levels)
            chain = [lvl]
            while chain[-1] in up:
                chain.append(up[chain[-1]])
            s = Script(rnd, mix, types_of(st["vars"], chain), st["tabs"], lvl, files=files)
            want = rnd.choice(mix.get("len", [1, 2, 3, 4]))
            while len(s.stmts) < want and not s.last:
                s.stmt()
            s.lines = dressed(rnd, mix, s.lines)
            sql = ";\n".join(s.lines) + (";" if rnd.random() < .5 else "")
            if mix.get("noise"):
                sql = noisy(rnd, s.lines)
            if mix.get("subst"):      # parts of the text behind references ${}
                from props.p27 import rewrite
                sql = ";\n".join(rewrite(rnd, x) if rnd.random() < mix["subst"] else x for x in s.lines)
            err = w.run(lvl, sql)
            obs = w.state()
            obs["err"] = 1 if err else 0
            done += 1
            res.evaluations += 1
            texts = getattr(s, "texts", [])
            if texts:
                sql += "".join(" /* file %s: %s */" % x for x in texts)
            trace.append({"ev": "script", "lvl": lvl, "stmts": s.stmts, "obs": obs})
            meta.append({"sql": sql, "level": lvl, "tables": {k: [[dec(x) for x in r] for r in v] for k, v in st["tabs"].items()},
                         "variables": {l: {v: dec(x) for v, x in d.items() if x != UNSET} for l, d in st["vars"].items()}, "error": err, "obs": obs})
            if any(len(v) for v in st["tabs"].values()):
                res.distinct.add(h([sql, st["tabs"]]))
            if len(res.samples) < 1:
                res.samples.append({"sql": sql, "after": {k: [[dec(x) for x in r] for r in v] for k, v in obs["tabs"].items()}})
            st = {"tabs": obs["tabs"], "vars": obs["vars"]}
            if any(any(x[0] in (4, 9) for x in r) for v in st["tabs"].values() for r in v):
                break
    bad, states = tlc.validate("SessionTrace", trace)
    res.states += states
    res.transitions += len(trace)
    res.traces += 1
    for l, v in bad:
        case = meta[l - 1]
        if v == "open":
            res.extra["left_open_by_the_specification"] = res.extra.get("left_open_by_the_specification", 0) + 1
            continue
        case["verdict"] = v
        obs = case.pop("obs")
        case["observed"] = {"tables": {k: [[dec(x) for x in r] for r in t] for k, t in obs["tabs"].items()},
                            "variables": {l2: {n2: dec(x) for n2, x in d.items() if x != UNSET} for l2, d in obs["vars"].items()}}
        res.violations.append({"what": "%s: %s | before %s | after %s %s" % (v, case["sql"].replace("\n", " "), case["tables"], case["observed"], case["error"] or ""), "case": case})
    return res
