"""Subqueries: scalar, IN, EXISTS, derived tables; correlated or not."""
from gen import ExprGen, tables, cols_of
from q import L, col, cols_used, correlated, pushdown, select, subq, table, TRUE
from props import p04, p05, p06, p07

LEVEL = "model_checking"
RULE = ("random tables; scalar subqueries (aggregates, single row by key, LIMIT 1) in the select list and in comparisons, [NOT] IN subqueries, [NOT] EXISTS, correlated with the outer row by "
        "equality or inequality or not at all, nested up to 2 deep, over plain, joined, grouped outer queries, derived tables with aggregates; non-trivial: result not empty or two rows in t")


def num(cols):
    return [c for c in cols if c[2] != "s"]


def theta(rnd, icols, outer):
    """a condition between the two rows that is no equality of two columns"""
    i, o = rnd.choice(icols), rnd.choice(outer)
    if (i[2] == "s") != (o[2] == "s"):
        i, o = rnd.choice(num(icols)), rnd.choice(num(outer))
    a, b = col(i[1]), col(o[1], 1)
    if i[2] != "s":
        if rnd.random() < .2:
            a = {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": a, "b": rnd.choice([L(1), L(2), col(o[1], 1), col(i[1])])}
        if rnd.random() < .2:
            b = {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": b, "b": L(rnd.choice([1, 2]))}
    r = rnd.random()
    if r < .15:
        a = L(rnd.choice(["a", "b"]) if i[2] == "s" else rnd.choice([1, 2, 3]))
    elif r < .5:
        a, b = b, a
    e = {"k": "cmp", "o": rnd.choice(["!=", "<", "<=", ">", ">="]), "a": a, "b": b}
    if rnd.random() < .25:
        e = {"k": rnd.choice(["or", "and", "or"]), "a": e, "b": rnd.choice([lambda: theta(rnd, icols, outer), lambda: ExprGen(rnd, icols).pred(0)])()}
    return {"k": "not", "a": e} if rnd.random() < .1 else e


def inner_where(rnd, icols, outer, corr, th=False):
    conds = []
    if corr and th and rnd.random() < .35:
        conds.append(theta(rnd, icols, outer))
    if corr and (not conds or rnd.random() < .7):
        for _ in range(1 if rnd.random() < .8 else 2):
            i = rnd.choice(icols)
            o = [c for c in outer if (c[2] == "s") == (i[2] == "s")]
            if not o:
                continue
            c = rnd.choice(o)
            a, b = col(i[1]), col(c[1], 1)
            conds.append({"k": "kcmp", "a": a, "b": b} if rnd.random() < .6 else {"k": "kcmp", "a": b, "b": a})
    if rnd.random() < (.3 if corr else .5):
        conds.append(ExprGen(rnd, icols).pred(rnd.choice([0, 0, 1])))
    if not conds:
        return TRUE
    w = conds[0]
    for x in conds[1:]:
        w = {"k": "and", "a": w, "b": x}
    return w


SRC = None


def source(rnd, ts):
    s = rnd.choice(ts[1:] + [ts[1]])
    return s, [table(s.name, s.names, "y")], [(0, i + 1, t) for i, (_, t) in enumerate(s.cols)]


def column_query(rnd, ts, t, outer, corr):
    s, frm, ic = source(rnd, ts)
    cs = [c for c in ic if (c[2] == "s") == (t == "s")]
    if not cs:
        return column_query(rnd, ts, t, outer, corr)
    e = col(rnd.choice(cs)[1])
    if t != "s" and rnd.random() < .15:
        e = {"k": "ar", "o": "+", "a": e, "b": L(1)}
    r = rnd.random()
    q = select([e], ["v"], frm, where=push(inner_where(rnd, ic, outer, corr, r >= .22), len(s.cols)), flat=True)
    if r < .12:
        q["distinct"] = 1
    elif r < .22:
        k = rnd.choice(ic)
        q = dict(q, group=[col(k[1])], agg=1, sel=[{"k": "agg", "f": rnd.choice(["max", "min"]), "a": e}])
    return having(rnd, q, t)


def having(rnd, q, t):
    """HAVING over the subquery's only output column"""
    if rnd.random() < .2 and not q["distinct"]:
        h = {"k": "cmp", "o": rnd.choice(["=", "!=", "<", "<=", ">", ">="]), "a": col(1), "b": L(rnd.choice([0, 1, 2]) if t != "s" else rnd.choice(["a", "ab", "b"]))}
        return dict(q, having=h)
    return q


def push(w, n):
    return pushdown(w, n) if w["k"] != "true" else w


def scalar(rnd, ts, t, outer, corr):
    s, frm, ic = source(rnd, ts)
    cs = [c for c in ic if (c[2] == "s") == (t == "s")]
    if not cs:
        return scalar(rnd, ts, t, outer, corr)
    e = col(rnd.choice(cs)[1])
    w = push(inner_where(rnd, ic, outer, corr), len(s.cols))
    r = rnd.random()
    if r < .6:
        f = rnd.choice(["count", "max", "min", "sum", "count*", "avg", "countd"]) if t != "s" else rnd.choice(["max", "min"])
        a = {"k": "agg", "f": f, "a": e if f != "count*" else L(None)}
        if t != "s" and f != "countd" and rnd.random() < .3:
            b = L(rnd.choice([1, 2])) if rnd.random() < .6 else {"k": "agg", "f": rnd.choice(["count", "max", "min"]), "a": col(1)}
            a = {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": a, "b": b}
        return having(rnd, select([a], ["v"], frm, where=w, flat=True), "i" if f.startswith("count") else t)
    if r < .8 and not corr:
        return select([e], ["v"], frm, where=w, flat=True, order=[{"i": 0, "e": col(1), "d": rnd.randint(0, 1), "sql": "y.id"}], lim=1)
    if corr:
        o = rnd.choice(num(outer))
        w = {"k": "kcmp", "a": col(1), "b": col(o[1], 1)}
        if rnd.random() < .4:
            w = {"k": "and", "a": w, "b": theta(rnd, ic, outer)}
        return having(rnd, select([e], ["v"], frm, where=w, flat=True), t)
    return select([e], ["v"], frm, where={"k": "lcmp", "o": "=", "a": col(1), "b": L(rnd.choice([1, 2, 3]))}, flat=True)


def nonempty(rnd, ts, t):
    """an uncorrelated scalar inside an expression: no row would be [] there (known finding SCALAR-EMPTY)"""
    c = 4 if t == "s" else rnd.choice([1, 2, 3])
    if not ts[0].rows:
        return select([L("a" if t == "s" else 1)], ["v"], [])
    return select([{"k": "agg", "f": rnd.choice(["max", "min"]), "a": col(c)}], ["v"], [table("t", ts[0].names, "y")])


def cond(rnd, ts, cols, depth=1, pushable=(0, 4)):
    """a WHERE condition of the outer query"""
    r = rnd.random()
    if depth and r < .2:
        k = rnd.choice(["and", "or", "and"])
        return {"k": k, "a": cond(rnd, ts, cols, 0, pushable if k == "and" else None), "b": cond(rnd, ts, cols, 0, pushable if k == "and" else None) if rnd.random() < .5 else ExprGen(rnd, cols).pred(0)}
    if depth and r < .3:
        return {"k": "not", "a": cond(rnd, ts, cols, 0, None)}
    corr = rnd.random() < .55 and len(cols) == 4
    r = rnd.random()
    c = rnd.choice(cols)
    t = "s" if c[2] == "s" else "i"
    if r < .35:
        q = column_query(rnd, ts, t, cols, corr)
        e = {"k": "insub", "a": col(c[1]), "q": q}
        return e if rnd.random() < .7 else {"k": "not", "a": e}
    if r < .65:
        q = scalar(rnd, ts, t, cols, corr)
        if not corr and not (pushable and pushable[0] < c[1] <= pushable[1]):
            q = nonempty(rnd, ts, t)
        return {"k": "cmp", "o": rnd.choice(["=", "!=", "<", "<=", ">", ">="]), "a": col(c[1]), "b": {"k": "scalar", "q": q}}
    s, frm, ic = source(rnd, ts)
    c = rnd.choice(ic)
    q = having(rnd, select([col(c[1])], ["v"], frm, where=push(inner_where(rnd, ic, cols, corr, True), len(s.cols)), flat=True), c[2])
    e = {"k": "exists", "q": q}
    return e if rnd.random() < .7 else {"k": "not", "a": e}


def make(rnd, ts):
    frm, cols = [table("t", ts[0].names, "x")], cols_of(ts[0])
    if rnd.random() < .15:
        frm, cols, _ = p04.random_join([rnd][0], ts, joins=1)
        frm[1]["alias"] = "j"
    first = 4 if frm[-1]["join"] == "right" else 0
    g = ExprGen(rnd, cols)
    sel = [col(1), col(2)]
    r = rnd.random()
    where = TRUE
    if r < .4:
        corr = rnd.random() < .6 and len(cols) == 4
        t = rnd.choice("iis")
        s = {"k": "scalar", "q": scalar(rnd, ts, t, cols, corr)}
        if rnd.random() < .3:
            s = {"k": "coalesce", "l": [s, L(9) if t == "i" else L("zz")], "ifnull": True}
        elif rnd.random() < .3 and t == "i":
            if not corr:
                s["q"] = nonempty(rnd, ts, t)
            s = {"k": "ar", "o": "+", "a": g.value("i", 0), "b": s}
        sel.append(s)
    if r > .3:
        where = cond(rnd, ts, cols, 1, (first, first + 4))
    if rnd.random() < .1 and where["k"] != "true":
        where = {"k": "and", "a": where, "b": g.pred(0)}
    if len(frm) > 1:
        sel.append(col(5))
    if where["k"] != "true":
        where = pushdown(where, 4, first, True)
    return select(sel, ["o%d" % (i + 1) for i in range(len(sel))], frm, where=where, flat=True)


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd, 6)
            yield "tabs", ts
        yield "q", make(rnd, ts)


def tasks(prop, tier, seed):
    k, n = (32, 120) if tier == "quick" else (160, 300)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
