"""DISTINCT, COUNT(DISTINCT) and HAVING."""
from gen import ExprGen, tables, cols_of
from q import L, col, cols_used, pushdown, select, table, subq, TRUE
from props import p04

LEVEL = "model_checking"
RULE = ("random table(s); SELECT DISTINCT of 1-3 columns/expressions; grouped selects mixing COUNT(DISTINCT ..) with other aggregates; HAVING over the select's own columns "
        "(comparisons, AND/OR/NOT, IN, LIKE, BETWEEN, IS NULL, arithmetic); optional WHERE, joins; non-trivial: result not empty or two rows in t")


def distinct(rnd, ts):
    frm, cols = [table("t", ts[0].names)], cols_of(ts[0])
    if rnd.random() < .2:
        frm, cols, _ = p04.random_join(rnd, ts, joins=1)
    g = ExprGen(rnd, cols)
    sel = []
    for _ in range(rnd.choice([1, 1, 2, 2, 3])):
        c = rnd.choice([c for c in cols if c[2] != "id"])
        sel.append(col(c[1]) if rnd.random() < .75 else g.value(rnd.choice("is"), 1))
    if len(frm) > 1:
        used = cols_used(sel)
        if not any(i <= 4 for i in used):
            sel.append(col(2))
        if not any(i > 4 for i in used):
            sel.append(col(6))
    where = pushdown(ExprGen(rnd, cols).pred(rnd.choice([0, 1])), 4, 4 if frm[-1]["join"] == "right" else 0) if rnd.random() < .3 else TRUE
    return select(sel, ["o%d" % (i + 1) for i in range(len(sel))], frm, where=where, distinct=1)


def countd(rnd, ts):
    q = p04.grouped(rnd, ts)
    # only aggregates that do not depend on a NULL-free or ordered input beside it
    g = ExprGen(rnd, cols_of(ts[0]))
    d = {"k": "agg", "f": "countd", "a": col(rnd.choice([2, 3, 4])) if rnd.random() < .8 else g.value("i", 1)}
    if rnd.random() < .2:
        d = {"k": "ar", "o": rnd.choice(["+", "*"]), "a": d, "b": L(2)}
    sel = list(q["sel"])
    sel.insert(rnd.randint(0, len(sel)), d)
    return dict(q, sel=sel, names=["o%d" % (i + 1) for i in range(len(sel))], agg=1)


class HavingGen(ExprGen):
    pass


def having(rnd, ts, q):
    """over the output columns"""
    types = []
    for e in q["sel"]:
        types.append(kind(e, q))
    cols = [(0, i + 1, t) for i, t in enumerate(types) if t]
    if not cols:
        return TRUE
    return HavingGen(rnd, cols).pred(rnd.choice([0, 0, 1, 1, 2]))


def kind(e, q):
    k = e["k"]
    if k == "col":
        frm = q["from"]
        i = e["i"]
        return "s" if TYPES.get((len(frm), i)) == "s" or (i == 4 or i == 8) else "i"
    if k == "agg":
        if e["f"] in ("count*", "count", "sum", "avg", "countd", "bitand", "bitor", "bitxor"):
            return "i"
        if e["f"] == "gconcat":
            return "s"
        if e["f"] in ("min", "max"):
            return kind(e["a"], q)
        return None
    if k in ("ar", "cmp", "isnull", "notnull"):
        return "i"
    if k == "lit":
        return "s" if e["v"][0] == 2 else "i" if e["v"][0] == 1 else None
    if k == "if":
        return kind(e["a"], q)
    if k == "coalesce":
        return kind(e["l"][0], q) if kind(e["l"][0], q) == "i" else None
    return None


TYPES = {}


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd, 9)
            yield "tabs", ts
        r = rnd.random()
        if r < .3:
            q = distinct(rnd, ts)
        elif r < .6:
            q = countd(rnd, ts)
        elif r < .7:
            q = select([col(j + 1) for j in range(4)], ["o1", "o2", "o3", "o4"], [table("t", ts[0].names)])
        else:
            q = p04.grouped(rnd, ts)
        if r >= .6 or (r > .2 and rnd.random() < .4):
            h = having(rnd, ts, q)
            q = dict(q, having=h)
        yield "q", q, {"post": p04.fix(q["sel"])}


def tasks(prop, tier, seed):
    k, n = (32, 200) if tier == "quick" else (160, 400)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
