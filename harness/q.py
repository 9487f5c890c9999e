"""Query / expression trees: the JSON the specification reads (Rel.tla) and their SQL text."""
import zlib
from vals import lit, num, txt, NULL

TRUE = {"k": "true"}


def L(v):
    if v is None:
        return {"k": "lit", "v": NULL}
    if isinstance(v, int):
        return {"k": "lit", "v": num(v)}
    return {"k": "lit", "v": txt(v)}


def col(i, d=0):
    return {"k": "col", "d": d, "i": i}


BARE = ("cmp", "lcmp", "kcmp", "icmp", "in", "lin", "notin", "isnull", "notnull", "like", "btw", "insub", "linsub", "exists", "not", "invar", "linvar")


class Render:
    """names: stack of lists of column names, names[0] the innermost query's flattened columns."""

    def __init__(self, names, flat=False):
        self.names, self.flat, self.wins = names, flat, None

    def bare(self, e, lvl=0):
        """AND/OR chains with only the parentheses precedence needs"""
        own = {"or": 0, "and": 1}.get(e["k"])
        if own is None:
            s = self.e(e)
            return s if e["k"] in BARE or self.p(e) == s else "(%s)" % s
        s = "%s %s %s" % (self.bare(e["a"], own), e["k"].upper(), self.bare(e["b"], own + 1))
        return s if own >= lvl else "(%s)" % s

    def e(self, e):
        k = e["k"]
        r = self.e
        if k == "lit":
            return lit(e["v"])
        if k == "col":
            return self.names[e["d"]][e["i"] - 1]
        if k in ("cmp", "lcmp"):
            return "%s%s%s" % (self.p(e["a"]), e["o"], self.p(e["b"]))
        if k in ("kcmp", "icmp"):
            return "%s=%s" % (self.p(e["a"]), self.p(e["b"]))
        if k in ("and", "or"):
            if self.flat:
                return "(%s)" % self.bare(e)
            return "(%s %s %s)" % (self.p(e["a"]), k.upper(), self.p(e["b"]))
        if k == "not":
            return "NOT (%s)" % r(e["a"])
        if k == "isnull":
            return "%s IS NULL" % self.p(e["a"])
        if k == "notnull":
            return "%s IS NOT NULL" % self.p(e["a"])
        if k in ("in", "lin"):
            return "%s IN (%s)" % (self.p(e["a"]), ",".join(r(x) for x in e["l"]))
        if k == "btw":
            return "%s BETWEEN %s AND %s" % (self.p(e["a"]), self.p(e["lo"]), self.p(e["hi"]))
        if k == "like":
            return "%s LIKE %s" % (self.p(e["a"]), self.p(e["b"]))
        if k == "ar":
            return "(%s%s%s)" % (self.p(e["a"]), e["o"], self.p(e["b"]))
        if k == "if":
            return "IF(%s,%s,%s)" % (r(e["c"]), self.p(e["a"]), self.p(e["b"]))
        if k == "case":
            return "CASE %s%s END" % (" ".join("WHEN %s THEN %s" % (self.p(w["c"]), self.p(w["v"])) for w in e["w"]),
                                       "" if e.get("noelse") else " ELSE " + self.p(e["e"]))
        if k == "coalesce":
            return "%s(%s)" % ("IFNULL" if len(e["l"]) == 2 and e.get("ifnull") else "COALESCE", ",".join(self.p(x) for x in e["l"]))
        if k == "neg":
            return "(-%s)" % (self.p(e["a"]) if e["a"]["k"] != "lit" or e["a"]["v"][1] >= 0 else "(" + self.e(e["a"]) + ")")
        if k == "bit":
            return "(%s %s %s)" % (self.p(e["a"]), {"and": "&", "or": "|", "xor": "^"}[e["o"]], self.p(e["b"]))
        if k == "scase":
            return "CASE %s %s ELSE %s END" % (self.p(e["a"]), " ".join("WHEN %s THEN %s" % (self.p(w["c"]), self.p(w["v"])) for w in e["w"]), self.p(e["e"]))
        if k == "notin":
            return "%s NOT IN (%s)" % (self.p(e["a"]), ",".join(r(x) for x in e["l"]))
        if k == "fn":
            if "as" in e:
                if not e.get("ann"):
                    return e["as"] % tuple(self.p(x) for x in (e["l"] if "shown" not in e else [e["l"][i] for i in e["shown"]]))
                ts, x = [e["ann"]], e["l"][0]
                while x.get("ann"):
                    ts, x = [x["ann"]] + ts, x["l"][0]
                return self.annotate(r(x), ";".join(ts))
            return self.fn(e["f"], e["l"])
        if k == "istrue":
            return "%s IS TRUE" % self.p(e["a"])
        if k == "nullif":
            return "NULLIF(%s,%s)" % (r(e["a"]), r(e["b"]))
        if k == "agg":
            return self.agg(e["f"], e.get("a"))
        if k == "jobj":
            return "JSON_OBJECTAGG(%s,%s)" % (self.p(e["a"]), self.p(e["b"]))
        if k == "win":
            return self.win(e)
        if k in ("insub", "linsub"):
            return "%s IN (%s)" % (self.p(e["a"]), query_sql(e["q"], self.names))
        if k == "scalar":
            return "(%s)" % query_sql(e["q"], self.names)
        if k == "exists":
            return "EXISTS(%s)" % query_sql(e["q"], self.names)
        if k == "var":
            return e.get("as") or "@" + e["n"]
        if k == "set":
            return "(@%s := %s)" % (e["n"], self.p(e["a"]))
        if k == "rowindex":
            return "ROW_INDEX()"
        if k == "rowlast":
            return "ROW_LAST(%s)" % self.p(e["a"])
        if k == "list":
            return "(%s)" % ", ".join(self.p(x) for x in e["l"])
        if k == "yield":
            return e["as"] % r(e["a"])
        if k in ("invar", "linvar"):
            return "%s IN %s" % (self.p(e["a"]), "(@%s)" % e["n"] if e.get("paren", 1) else "@" + e["n"])
        raise ValueError(k)

    def p(self, e):
        s = self.e(e)
        return s if e["k"] in ("lit", "col", "ar", "if", "case", "coalesce", "nullif", "and", "or", "agg", "jobj", "scalar", "var", "neg", "bit", "scase", "fn", "set", "rowindex", "rowlast", "list", "yield") else "(%s)" % s

    def annotate(self, name, t):
        """x.n -> x.`n[t]`"""
        i = name.rfind(".") + 1
        return "%s`%s[%s]`" % (name[:i], name[i:], t)

    def fn(self, f, l):
        a = [self.p(x) for x in l]
        if f in ("shl", "shr"):
            return "(%s %s %s)" % (a[0], {"shl": "<<", "shr": ">>"}[f], a[1])
        if f == "inv":
            return "(~%s)" % a[0]
        if f == "regexp":
            return "(%s REGEXP %s)" % (a[0], a[1])
        if f == "sqrt2":
            return "SQRT(%s*%s)" % (a[0], a[0])
        return "%s(%s)" % (f.upper(), ",".join(a))

    def agg(self, f, a):
        if f == "count*":
            return "COUNT(*)"
        x = self.p(a)
        return {"count": "COUNT(%s)", "countd": "COUNT(DISTINCT %s)", "sum": "SUM(%s)", "avg": "AVG(%s)", "min": "MIN(%s)",
                "max": "MAX(%s)", "gconcat": "GROUP_CONCAT(%s)", "garray": "GROUP_ARRAY(%s)", "guniq": "GROUP_UNIQ_ARRAY(%s)",
                "bitand": "GROUP_BIT_AND(%s)", "bitor": "GROUP_BIT_OR(%s)", "bitxor": "GROUP_BIT_XOR(%s)",
                "jarr": "JSON_ARRAYAGG(%s)", "ujoin": "u_join(%s)", "upeak": "u_peak(%s)"}[f] % x

    def win(self, e):
        f = e["f"]
        args = ",".join(self.e(a) for a in e["args"])
        if f == "count*":
            head = "COUNT(*)"
        elif f in ("sum", "avg", "min", "max", "count", "countd", "gconcat", "garray", "guniq", "ujoin", "upeak"):
            head = self.agg(f, e["args"][0])
        else:
            head = "%s(%s)" % (f.upper(), args)
        over = []
        if e["part"]:
            over.append("PARTITION BY " + ",".join(self.e(x) for x in e["part"]))
        if e["ord"]:
            over.append("ORDER BY " + ",".join(self.e(x["e"]) + (" DESC" if x["d"] else "") for x in e["ord"]))
        over = " ".join(over)
        if self.wins is not None and over:
            return "%s OVER %s" % (head, self.wins.setdefault(over, "w%d" % (len(self.wins) + 1)))
        return "%s OVER (%s)" % (head, over)


def from_names(fs):
    out = []
    for f in fs:
        out += ["%s.%s" % (f["alias"], c) if f["alias"] else c for c in f["cols"]]
    return out


def from_sql(fs, outer=()):
    r = Render([from_names(fs)] + list(outer))
    s = ""
    for i, f in enumerate(fs):
        named = f["kind"] == "sub" and f["alias"] and listable(f["q"]) and zlib.crc32(repr(f["q"]).encode()) % 6 == 0
        src = "(%s)" % query_sql(renamed(f["q"]) if named else f["q"], [[]] + list(outer)) if f["kind"] in ("sub", "xform") and "sql" not in f else f.get("sql", f["t"])
        if f["alias"]:
            src += " " + f["alias"] + (" (%s)" % ",".join(f["cols"]) if named else "")
        if i == 0:
            s += src
        else:
            s += {"left": " LEFT JOIN ", "inner": " INNER JOIN ", "right": " RIGHT JOIN ", "theta": " LEFT JOIN ", "cross": " CROSS JOIN "}[f["join"]] if not f.get("joinkw") else f["joinkw"]
            s += src
            if f["on"]["k"] != "true":
                s += " ON " + " AND ".join(r.e(x) for x in conjuncts(f["on"]))
    return s


def listable(q):
    """may its columns be named by a list after its alias?"""
    if q["k"] == "union":
        return "sqltext" not in q and all(listable(x) for x in q["qs"]) and not any("sql" in o for o in q["order"])
    return q["k"] == "sel" and "sqltext" not in q and "grouptext" not in q and not any("sql" in o for o in q["order"])


def renamed(q):
    q = dict(q, names=[n + "z" for n in q["names"]])
    return dict(q, qs=[renamed(x) for x in q["qs"]]) if q["k"] == "union" else q


def query_sql(q, outer=()):
    outer = list(outer)
    if "sqltext" in q:
        return q["sqltext"]
    if q["k"] == "union":
        kw = q.get("kw") or (" UNION " if q["distinct"] else " UNION ALL ")
        s = kw.join(query_sql(x, outer) for x in q["qs"])
        return s + tail(q)
    if q["k"] == "rw":
        return rowwise_sql(q)
    if q["k"] == "xform":
        return "SELECT %s%s(%s) FROM (%s)" % ("" if q["f"][:2] == "u_" else "transform$", q["f"], ",".join(q.get("argtext") or [lit(a) for a in q["xa"]]), query_sql(q["q"]))
    names = [from_names(q["from"])] + outer
    r = Render(names, q.get("flat"))
    if q.get("winname"):
        r.wins = {}
    s = "SELECT " + ("DISTINCT " if q["distinct"] else "")
    s += ",".join("%s AS %s" % (r.e(e), n) for e, n in zip(q["sel"], q["names"]))
    if q["from"]:
        s += " FROM " + from_sql(q["from"], outer)
    where = q["where"]
    for f in q["from"]:        # conditions a view takes
        for c in f.get("conds", []):
            c = {"k": "cmp", "o": c["o"], "a": col(c["i"]), "b": c.get("e_") or {"k": "lit", "v": c["v"]}}
            where = c if where["k"] == "true" else {"k": "and", "a": c, "b": where}
    if where["k"] != "true":
        s += " WHERE " + (r.bare(where) if q.get("flat") else r.e(where))
    if q["group"]:
        s += " GROUP BY " + ",".join(q.get("grouptext") or [r.e(g) for g in q["group"]])
    if q["having"]["k"] != "true":
        hr = Render([list(q["names"]) + names[0]] + outer, q.get("flat"))
        s += " HAVING " + (hr.bare(q["having"]) if q.get("flat") else hr.e(q["having"]))
    if r.wins:
        s += " WINDOW " + ", ".join("%s AS (%s)" % (n, o) for o, n in r.wins.items())
    return s + tail(q)


def rowwise_sql(q):
    """items that depend on the rows before; their source is written inline (inline: 1) or as a derived table"""
    src = q["src"]
    names = list(src["names"])
    if q.get("transform"):
        return "SELECT %s FROM (%s)" % (q["transform"], query_sql(src)) + tail(q)
    end = q
    if q.get("inline"):
        frm, where = from_sql(src["from"]), src["where"]
        names = from_names(src["from"])
        if src["order"] or src["lim"] >= 0:      # the rows are taken in this order, and only these
            end = dict(src, names=names)
    else:
        frm, where = "(%s) x" % query_sql(src), TRUE
    r = Render([names], q.get("flat"))
    s = "SELECT " + ",".join("%s AS %s" % (r.e(e), n) for e, n in zip(q["sel"], q["names"])) + " FROM " + frm
    if where["k"] != "true":
        s += " WHERE " + (r.bare(where) if q.get("flat") else r.e(where))
    if q["having"]["k"] != "true":
        s += " HAVING " + Render([list(q["names"])]).e(q["having"])
    return s + tail(end)


def rowwise(src, sel, names, vs, having=TRUE, order=(), off=0, lim=-1, **kw):
    return dict({"k": "rw", "src": src, "sel": list(sel), "names": list(names), "vars": vs, "having": having, "order": list(order), "off": off, "lim": lim, "distinct": 0}, **kw)


def conjuncts(e):
    return conjuncts(e["a"]) + conjuncts(e["b"]) if e["k"] == "and" else [e]


def tail(q):
    s = ""
    if q["order"]:
        s += " ORDER BY " + ",".join((o.get("sql") or (q["names"][o["i"] - 1] if o["i"] else Render([from_names(q["from"])]).e(o["e"]))) + (" DESC" if o["d"] else "") for o in q["order"])
    if q["lim"] >= 0:
        s += " LIMIT %d,%d" % (q["off"], q["lim"]) if q.get("limstyle") == "," and q["off"] else " LIMIT %d" % q["lim"]
        if q["off"] and q.get("limstyle") != ",":
            s += " OFFSET %d" % q["off"]
    elif q["off"]:
        s += " OFFSET %d" % q["off"]
    return s


def select(sel, names, frm, where=TRUE, group=(), having=TRUE, order=(), off=0, lim=-1, distinct=0, agg=None, **kw):
    if agg is None:
        agg = 1 if group or any(has_agg(e) for e in sel) else 0
    return dict({"k": "sel", "sel": list(sel), "names": list(names), "from": list(frm), "where": where, "group": list(group),
                 "having": having, "order": list(order), "off": off, "lim": lim, "distinct": distinct, "agg": agg}, **kw)


def union(qs, distinct=0, order=(), off=0, lim=-1, **kw):
    return dict({"k": "union", "qs": list(qs), "names": list(qs[0]["names"]), "distinct": distinct, "order": list(order), "off": off, "lim": lim}, **kw)


def cols_used(e):
    """indexes of this query's own columns named in an expression"""
    if isinstance(e, dict):
        if e.get("k") == "col":
            return {e["i"]} if e["d"] == 0 else set()
        return set().union(*[cols_used(v) for k, v in e.items() if k != "q"], set())
    if isinstance(e, (list, tuple)):
        return set().union(*[cols_used(v) for v in e], set())
    return set()


def has_agg(e):
    if isinstance(e, dict):
        if e.get("k") in ("agg", "jobj"):
            return True
        if e.get("k") in ("scalar", "insub", "exists"):
            return "a" in e and has_agg(e["a"])
        return any(has_agg(v) for v in e.values())
    if isinstance(e, list):
        return any(has_agg(v) for v in e)
    return False


def table(t, cols, alias="", join="left", on=TRUE, **kw):
    return dict({"kind": "base", "t": t, "alias": alias, "cols": list(cols), "w": len(cols), "join": join, "on": on, "q": {}}, **kw)


def subq(q, alias, join="left", on=TRUE, **kw):
    return dict({"kind": "sub", "t": "", "alias": alias, "cols": list(q["names"]), "w": len(q["names"]), "join": join, "on": on, "q": q}, **kw)


PY_ONLY = ("argtext", "e_", "inline", "transform", "as", "shown", "ann", "flat", "grouptext", "paren", "sqltext", "sub", "winname", "names", "alias", "cols", "sql", "joinkw", "kw", "limstyle", "ifnull", "noelse")


def const(e):
    """an expression naming no column"""
    if isinstance(e, dict):
        if e.get("k") in ("col", "insub", "scalar", "exists", "agg", "win"):
            return False
        return all(const(v) for v in e.values())
    if isinstance(e, (list, tuple)):
        return all(const(v) for v in e)
    return True


def correlated(q):
    def dep(e, d):
        if isinstance(e, dict):
            if e.get("k") == "col":
                return e["d"] > d
            return any(dep(v, d + 1 if k == "q" else d) for k, v in e.items())
        if isinstance(e, list):
            return any(dep(v, d) for v in e)
        return False
    return dep(q, 0)


def pushdown(w, primary, first=0, subs=False):
    """The planner hands the conjuncts `column op constant` of WHERE to the source, where a NULL
    is the smallest value (LoaderNull).  Marks them; `primary` = columns of the first table.
    subs: a subquery that does not depend on the row counts as a constant."""
    seen = set()

    def iscol(e):
        return e["k"] == "col" and e["d"] == 0 and first < e["i"] <= first + primary

    def push(i, o):
        key = (i, "==" if o in ("=", "in") else o)
        if key in seen and o != "!=":
            return False
        seen.add(key)
        return True

    def go(w):
        if w["k"] == "and":
            a = go(w["a"])
            return dict(w, a=a, b=go(w["b"]))
        if w["k"] == "cmp":
            if iscol(w["a"]) and (const(w["b"]) or (subs and w["b"]["k"] == "scalar" and not correlated(w["b"]["q"]))):
                return dict(w, k="lcmp") if push(w["a"]["i"], w["o"]) else w
            if w["o"] in ("=", "!=") and iscol(w["b"]) and const(w["a"]):
                return dict(w, k="lcmp") if push(w["b"]["i"], w["o"]) else w
        if subs and w["k"] == "insub" and iscol(w["a"]) and not correlated(w["q"]):
            return dict(w, k="linsub") if push(w["a"]["i"], "in") else w
        if w["k"] == "invar" and iscol(w["a"]):
            return dict(w, k="linvar") if push(w["a"]["i"], "in") else w
        if w["k"] == "in" and iscol(w["a"]) and const(w["l"]):
            return dict(w, k="lin") if push(w["a"]["i"], "in") else w
        return w
    return go(w)


def tla(x):
    """Strip what only the SQL rendering needs."""
    if isinstance(x, dict):
        return {k: tla(v) for k, v in x.items() if k not in PY_ONLY}
    if isinstance(x, (list, tuple)):
        return [tla(v) for v in x]
    return x
