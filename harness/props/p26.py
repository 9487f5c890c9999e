"""Transforms are applied to the whole result of their subquery; raw queries and views stand for the rows of their text."""
import json
import os
import sqlite3
import tempfile

from gen import Schema
from q import L, col, pushdown, select, subq, table, union, TRUE
from vals import enc, num, txt

LEVEL = "model_checking"
RULE = ("two tables kept in memory and in a sqlite database; either 1-3 nested transforms (v2h, h2v, v4h, h4v, uniqkv, user-registered ones; arguments as literals, expressions or variables) over an ordered query of either, "
        "alone, as derived table, WITH name or subquery of an outer query; or a query (filters, groups, joins, subqueries) over raw queries and over views of the database, with 0-3 parameters bound by conditions "
        "or left at their defaults; non-trivial: result not empty or two rows in t")

USE = "USE `userfuncs as uf`; "
COLS = [("id", "id"), ("a", "i"), ("n", "n"), ("s", "s"), ("g", "s")]
UCOLS = [("id", "id"), ("a", "i"), ("s", "s")]
TYPES = dict(COLS)
OPS = {"eq": "=", "gt": ">", "gte": ">=", "lt": "<", "lte": "<="}


class Both(Schema):
    """a table in memory and the same in sqlite"""

    def install(self, eng):
        super().install(eng)
        db = sqlite3.connect(eng.sqlite)
        db.execute("DROP TABLE IF EXISTS " + self.name)
        db.execute("CREATE TABLE %s (%s)" % (self.name, ",".join("%s %s" % (c, "TEXT" if t == "s" else "INT") for c, t in self.cols)))
        db.executemany("INSERT INTO %s VALUES (%s)" % (self.name, ",".join("?" * len(self.cols))), self.rows)
        db.commit()
        db.close()


def setup(eng):
    eng.dir = tempfile.TemporaryDirectory()
    eng.sqlite = os.path.join(eng.dir.name, "d.db")
    eng.run("SET @databases.d='%s'" % json.dumps({"driver": "sqlite", "database": eng.sqlite}))


def rows(rnd, cols, n):
    out = [[{"id": i + 1, "i": rnd.choice([None, 0, 1, 2, 3]), "n": rnd.choice([0, 1, 2, 3]), "s": rnd.choice(["x", "y", "z"]) if c == "s" else rnd.choice(["p", "q"])}[t] for c, t in cols] for i in range(n)]
    if rnd.random() < .5:
        rnd.shuffle(out)
    return out


def pred(rnd, names, n=None):
    w = TRUE
    for _ in range(rnd.choice([0, 0, 1, 1, 2]) if n is None else n):
        i = rnd.randrange(len(names))
        t = TYPES.get(names[i], "n")
        c = {"k": "cmp", "o": rnd.choice(["=", "!=", ">", "<", ">=", "<="]), "a": col(i + 1), "b": L(rnd.choice(["x", "y", "p"]) if t == "s" else rnd.choice([0, 1, 2, 3]))}
        w = c if w is TRUE else {"k": "and", "a": w, "b": c}
    return w


def plain(rnd, mem, f=None):
    """an ordered query of t, of known columns"""
    tn = [c for c, _ in COLS]
    src = table("t", tn, rnd.choice(["", "t1"]) if f is None else "t1", **({"sql": f} if f else {}))
    r = rnd.random()
    if r < .2:
        g = rnd.choice([4, 5])
        sel = [col(g), {"k": "agg", "f": "count*"}, {"k": "agg", "f": rnd.choice(["sum", "max", "min"]), "a": col(3)}]
        names = [tn[g - 1], "c", "m"]
        w = pred(rnd, tn)
        return select(sel, names, [src], pushdown(w, 5) if mem else w, [col(g)], order=[{"i": 1, "d": 0}])
    cs = [1] + sorted(rnd.sample([2, 3, 4, 5], rnd.choice([1, 2, 3, 3, 4])))
    if r > .85:
        cut = rnd.choice([2, 3])
        bs = []
        for o in ("<", ">="):
            c = {"k": "cmp", "o": o, "a": col(1), "b": L(cut)}
            bs.append(select([col(i) for i in cs], [tn[i - 1] for i in cs], [dict(src)], pushdown(c, 5) if mem else c))
        return union(bs, order=[{"i": 1, "d": rnd.choice([0, 1])}])
    sel, names = [col(i) for i in cs], [tn[i - 1] for i in cs]
    if rnd.random() < .2:
        sel.append({"k": "ar", "o": "+", "a": col(3), "b": L(1)})
        names.append("n1")
    w = pred(rnd, tn)
    lim = rnd.choice([-1, -1, -1, 1, 2, 3])
    return select(sel, names, [src], pushdown(w, 5) if mem else w, order=[{"i": 1, "d": rnd.choice([0, 0, 1])}], lim=lim)


def plain2(rnd):
    tn = [c for c, _ in COLS]
    return select([col(1), col(2)], tn[:2], [table("t", tn, "t1")], pred(rnd, tn, 1))


def raw(rnd, q, name):
    from q import query_sql
    return rnd.choice(["/* raw(d.%s) */ (%s) /* endraw */", "/*raw(d.%s)*/(%s)/*endraw*/", "/* raw(d.%s)\n%s\nendraw */", "/* raw(d.%s) */ (\n  %s\n) /* endraw */"]) % (name, query_sql(q))


NAMES = ["v1", "v12", "v2", "w", "w1", "w12"]


def rawsub(rnd, q, alias, n=None):
    """a raw query as a source"""
    n = n or rnd.choice(NAMES)
    DEFINED.pop(n, None)
    return subq(q, alias, **{"sql": raw(rnd, q, n)})


DEFINED = {}      # views of the engine that can be read again


def code(s):
    return [ord(c) for c in s]


def xform(rnd, depth=None, env=None, full=False):
    """-> (query, its columns when they are known, else None, their types)"""
    r = rnd.random()
    if r < .6:
        q = plain(rnd, True)
        names = q["names"]
    elif r < .8:
        b = plain(rnd, False)
        f = rawsub(rnd, b, "r1")
        names = b["names"]
        q = select([col(i + 1) for i in range(len(names))], names, [f], pred(rnd, names), order=[{"i": 1, "d": rnd.choice([0, 1])}])
    else:
        b = plain(rnd, True)
        names = b["names"]
        q = select([col(i + 1) for i in range(len(names))], names, [subq(b, "r1")], order=[{"i": 1, "d": rnd.choice([0, 1])}])
    cols, ordered = list(names), True
    for k in range(depth or rnd.choice([1, 1, 1, 1, 2, 2, 3])):
        if k and q["f"] == "h4v":            # its rows have different columns
            break
        q, cols, ordered = apply(rnd, q, cols, ordered, env, full)
    return q, cols


def apply(rnd, q, cols, ordered, env, full):
    """one transform over q"""
    known = cols is not None
    heads = [c for c in (cols or []) if c in ("s", "g")]
    nums = [c for c in (cols or []) if c in ("n", "id", "n1", "c", "m")]
    fs = ["u_number", "u_back", "u_take"]
    if known and "k" not in cols and "v" not in cols and ordered:
        fs += ["h2v"] * 4 + ["v4h"] * 3
    if heads and len(cols) > 1:
        fs += ["v2h"] * 6 + ["uniqkv"] * 5 + ["h4v"] * 4
    f = rnd.choice(fs)
    xa, out, o2 = [], None, ordered
    if f == "h2v":
        x = rnd.choice(cols)
        xa = ["k", x] + (["v"] if rnd.random() < .7 else [])
        out = [x, "k"] + xa[2:]
    elif f == "v4h":
        xa = ["k", "v"] + ([rnd.choice(cols)] if rnd.random() < .6 else [])
        out = xa
    elif f == "v2h":
        h = rnd.choice(heads)
        v = rnd.choice([c for c in cols if c != h])
        o = [c for c in nums + [x for x in heads if x != h] if c != v]
        xa = [h, v] + ([rnd.choice(o)] if o and rnd.random() < .7 else [])
    elif f == "h4v":
        h = rnd.choice(heads)
        v = rnd.choice([c for c in cols if c != h])
        o = [c for c in cols if c not in (h, v)]
        xa = [h, v] + ([rnd.choice(o)] if o and rnd.random() < .6 else [])
        o2 = False
    elif f == "uniqkv":
        h = rnd.choice(heads)
        u = rnd.choice([c for c in cols if c != h] + ["a"] * ("a" in cols))
        o = [c for c in nums if c not in (u, h)]
        xa = [u, h] + ([rnd.choice(o)] if o and q["k"] == "sel" and q["where"] is TRUE and q["from"][0]["kind"] == "base" and full and rnd.random() < .8 else [])   # sums over no rows raise
        o2 = False
    elif f == "u_take":
        xa = [rnd.choice([0, 1, 2, 3])]
        out = cols
    elif f == "u_number":
        out = cols and [c for c in cols if c != "n__"] + ["n__"]
        if not known:
            o2 = False
    else:
        out = cols
    vals = [enc(x) for x in xa]
    text = []
    for i, x in enumerate(xa):
        r = rnd.random()
        if r < .8 or env is None:
            text.append("'%s'" % x if isinstance(x, str) else str(x))
        elif r < .9:
            text.append("@x%d" % len(env))
            env["x%d" % len(env)] = x
        else:
            text.append("CONCAT('%s','%s')" % (x[:1], x[1:]) if isinstance(x, str) else "%d+%d" % (x - 1, 1))
    return {"k": "xform", "f": f, "xa": vals, "argtext": text, "q": q, "cn": [code(c) for c in q.get("names") or []], "names": None,
            "having": TRUE, "order": [], "off": 0, "lim": -1, "distinct": 0}, out, o2


def xsub(q, cols, alias):
    return {"kind": "xform", "t": "", "alias": alias, "cols": list(cols), "cn": [code(c) for c in cols], "w": len(cols), "join": "left", "on": TRUE, "q": q}


def outer_xform(rnd, env):
    """a query over the columns of a transform"""
    for _ in range(20):
        q, cols = xform(rnd, rnd.choice([1, 1, 2]), env)
        if cols:
            break
    else:
        return None
    f = xsub(q, cols, "y1")
    r = rnd.random()
    if r < .5:
        cs = rnd.sample(range(1, len(cols) + 1), rnd.randint(1, len(cols)))
        w = TRUE
        if "k" in cols and rnd.random() < .6:
            w = {"k": "cmp", "o": rnd.choice(["=", "!="]), "a": col(cols.index("k") + 1), "b": L(rnd.choice(["a", "n", "s", "id"]))}
            w = pushdown(w, len(cols))
        names = [cols[i - 1] for i in cs]
        return select([col(i) for i in cs], names, [f], w, distinct=1 if rnd.random() < .15 else 0)
    if r < .75:
        g = rnd.randrange(len(cols)) + 1
        return select([col(g), {"k": "agg", "f": "count*"}], [cols[g - 1], "cc"], [f], group=[col(g)])
    u = table("u", [c for c, _ in UCOLS], "z1", "left", {"k": "cmp", "o": "=", "a": col(1), "b": col(len(cols) + 1)})
    if cols[0] != "id":
        return select([{"k": "agg", "f": "count*"}], ["cc"], [f])
    sel = list(range(1, len(cols) + 1)) + [len(cols) + 3]
    return select([col(i) for i in sel], ["o%d" % i for i in sel], [f, u])


def define(rnd):
    """a view: its query and parameters"""
    from q import query_sql
    tn = [c for c, _ in COLS]
    cs = [1] + sorted(rnd.sample([2, 3, 4, 5], rnd.choice([2, 3, 4])))
    names = [tn[i - 1] for i in cs]
    args, w, used = [], TRUE, set()
    for _ in range(rnd.choice([0, 1, 1, 2, 3])):
        j = rnd.randrange(len(cs))
        c = names[j]
        op = rnd.choice(["eq", "eq", "gt", "gte", "lt", "lte"])
        if (c, op) in used:
            continue
        used.add((c, op))
        d = rnd.choice(["x", "y", "p"]) if TYPES[c] == "s" else rnd.choice([0, 1, 2, 3])
        nm = "p%d" % len(args)
        args.append({"i": j + 1, "o": OPS[op], "n": nm, "v": enc(d)})
        dt = rnd.choice([json.dumps(d), d if isinstance(d, str) else json.dumps(d)])
        mark = "#{%s%s:%s}" % (c, rnd.choice(["", "__eq"]) if op == "eq" else "__" + op, dt)
        # what the view does with the parameter need not be the condition
        o = OPS[op] if rnd.random() < .7 else rnd.choice(["!=", ">", "<="])
        x = {"k": "cmp", "o": o, "a": col(cs[j]), "b": {"k": "var", "n": nm, "as": mark}}
        w = x if w is TRUE else {"k": "and", "a": w, "b": x}
    if w is TRUE or rnd.random() < .3:
        e = pred(rnd, tn, 1)
        w = e if w is TRUE else {"k": "and", "a": w, "b": e}
    q = select([col(i) for i in cs], names, [table("t", tn, "t1")], w)
    return {"q": q, "args": args}


def view(rnd):
    """-> (source, SQL that defines it)"""
    from q import query_sql
    again = rnd.random() < .35 and sorted(DEFINED)
    name = rnd.choice(again or NAMES)
    known = DEFINED[name] if again else define(rnd)
    q, args = known["q"], known["args"]
    names = q["names"]
    conds, seen = [], set()
    for _ in range(rnd.choice([0, 1, 1, 2, 3])):
        if args and rnd.random() < .6:
            a = rnd.choice(args)
            i, o = a["i"], a["o"]
        else:
            i, o = rnd.randrange(len(names)) + 1, rnd.choice(["=", ">", "<", ">=", "<=", "!="])
        if (i, o) in seen:
            continue
        seen.add((i, o))
        v = rnd.choice(["x", "y", "p", "q"]) if TYPES[names[i - 1]] == "s" else rnd.choice([0, 1, 2, 3])
        conds.append({"i": i, "o": o, "v": enc(v)})
    pre, how = "", rnd.random()
    text = query_sql(q)
    if again:
        sql = "d." + name
    elif how < .45:
        sql = rnd.choice(["/* raw(d.%s) */ (%s) /* endraw */", "/* raw(d.%s)\n%s\nendraw */"]) % (name, text)
    else:
        pre = "SET @%sd.%s='%s'; " % (rnd.choice(["databases.", "virtual_views."]), name, text.replace("'", "''"))
        pre = pre.replace("databases.d.", "databases.d.virtual_views.")
        sql = "d." + name
    DEFINED[name] = known
    return {"kind": "view", "t": "", "alias": "y1", "cols": names, "w": len(names), "join": "left", "on": TRUE, "q": q, "args": args, "conds": conds, "sql": sql}, pre


def over_view(rnd):
    f, pre = view(rnd)
    return around(rnd, f), pre


def around(rnd, f):
    """a query over a source of the database"""
    names = f["cols"]
    n = len(names)
    r = rnd.random()
    conds = f.get("conds", [])
    w = TRUE if f["kind"] == "view" else pred(rnd, names)
    if f["kind"] == "view" and rnd.random() < .2:          # a condition no source takes
        w = {"k": "or", "a": {"k": "cmp", "o": "=", "a": col(1), "b": L(1)}, "b": {"k": "cmp", "o": ">", "a": {"k": "ar", "o": "+", "a": col(1), "b": L(1)}, "b": L(2)}}
    if r < .5:
        cs = rnd.sample(range(1, n + 1), rnd.randint(1, n))
        order = [{"i": 1, "d": rnd.choice([0, 1])}] if cs[0] == 1 and names[0] == "id" and rnd.random() < .4 else []
        return select([col(i) for i in cs], [names[i - 1] for i in cs], [f], w, order=order, lim=rnd.choice([-1, 1, 2]) if order else -1)
    if r < .7:
        g = rnd.randrange(n) + 1
        return select([col(g), {"k": "agg", "f": "count*"}], [names[g - 1], "cc"], [f], w, [col(g)])
    if r < .85 and names[0] == "id":
        u = table("u", [c for c, _ in UCOLS], "z1", rnd.choice(["left", "inner"]), {"k": "cmp", "o": "=", "a": col(1), "b": col(n + 1)})
        cs = list(range(1, n + 1)) + [n + 1, n + 3]
        return select([col(i) for i in cs], ["o%d" % i for i in cs], [f, u], w)
    inner = select([col(1)], [names[0]], [f], w)
    u = table("u", [c for c, _ in UCOLS], "u1")
    if names[0] != "id":
        return select([col(1)], [names[0]], [f], w)
    e = {"k": "insub", "a": col(1), "q": inner}
    return select([col(1), col(3)], ["id", "s"], [u], pushdown(e, 3, subs=True))


def cases(rnd, n, eng):
    DEFINED.clear()
    for i in range(n):
        if i % 15 == 0:
            ts = [Both("t", COLS, rows(rnd, COLS, rnd.choice([0, 1, 2, 3, 4, 5, 6, 8]))), Both("u", UCOLS, rows(rnd, UCOLS, rnd.choice([0, 2, 3, 4])))]
            yield "tabs", ts
        env, r = {}, rnd.random()

        def pre():
            return USE + "".join("SET @%s=%s; " % (k, "'%s'" % v if isinstance(v, str) else v) for k, v in env.items())
        if r < .4:
            q, cols = xform(rnd, env=env if rnd.random() < .5 else None, full=bool(ts[0].rows))
            yield "q", q, {"pre": pre(), "docs": 1}
        elif r < .55:
            q = outer_xform(rnd, env if rnd.random() < .5 else None)
            if q:
                yield "q", q, {"pre": pre()}
        elif r < .7:
            yield "q", around(rnd, rawsub(rnd, plain(rnd, False), "y1")), {}
        elif r < .74:
            a, b = (select([col(1)], ["id"], [rawsub(rnd, plain2(rnd), "y1", x)]) for x in rnd.sample(NAMES, 2))
            u = table("u", [c for c, _ in UCOLS], "u1")
            yield "q", select([col(1), col(3)], ["id", "s"], [u], {"k": "or", "a": {"k": "insub", "a": col(1), "q": a}, "b": {"k": "insub", "a": col(2), "q": b}})
        elif r < .77:                                # a function without columns is no transform
            f = rnd.choice(["PI()", "YEARWEEK('2020-01-05')"])
            src = subq(plain(rnd, True), "y1")
            yield "q", select([{"k": "lit", "v": enc(3.141592653589793) if f == "PI()" else num(202001)}], ["`%s`" % f], [src]), {"sql": "SELECT %s FROM %s" % (f, from_text(src)), "names": [f]}
        else:
            q, p = over_view(rnd)
            yield "q", q, {"pre": p}


def from_text(f):
    from q import from_sql
    return from_sql([f])


def tasks(prop, tier, seed):
    k, n = (32, 150) if tier == "quick" else (160, 400)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
