"""Window functions: every row sees exactly its partition, in the window's order."""
from gen import ExprGen, tables, cols_of
from q import L, col, cols_used, pushdown, select, table, subq, union, TRUE
from props import p04

LEVEL = "model_checking"
RULE = ("random table; 1-3 window expressions (ROW_NUMBER, RANK, DENSE_RANK, FIRST_VALUE, LAST_VALUE, NTH_VALUE, NTILE, LAG, LEAD, COUNT, SUM, AVG, MIN, MAX, COUNT DISTINCT) with 0-2 partition keys and a "
        "total window order of 1-3 keys ASC/DESC (or none for the aggregates), alone or inside arithmetic, beside plain columns, with WHERE, joins, derived tables; non-trivial: result not empty or two rows in t")

RANKS = ["row_number", "rank", "dense_rank", "rank", "dense_rank", "percent_rank", "cume_dist"]
NAV = ["first_value", "last_value", "nth_value", "ntile", "lag", "lead"]
AGG = ["count*", "count", "sum", "avg", "min", "max", "countd"]


def window(rnd, cols, ids):
    num = [c for c in cols if c[2] != "s"]
    g = ExprGen(rnd, cols)
    f = rnd.choice(RANKS + NAV + NAV + AGG + AGG)
    part = []
    for _ in range(rnd.choice([0, 1, 1, 1, 2])):
        c = rnd.choice(cols)
        e = col(c[1])
        if c[2] != "s" and rnd.random() < .15:
            e = {"k": "ar", "o": rnd.choice(["+", "*"]), "a": e, "b": L(rnd.choice([1, 2]))}
        if e not in part:
            part.append(e)
    order = []
    if f not in AGG or rnd.random() < .6:
        for _ in range(rnd.choice([0, 1, 1, 2])):
            c = rnd.choice(cols)
            e = col(c[1])
            if not any(o["e"] == e for o in order):
                order.append({"e": e, "d": int(rnd.random() < .45)})
        for i in ids:
            if f in ("rank", "dense_rank", "percent_rank") and order and rnd.random() < .7:
                break
            if not any(o["e"] == col(i) for o in order):
                order.append({"e": col(i), "d": int(rnd.random() < .45)})
    arg = lambda: g.value(rnd.choice("iis"), 1) if rnd.random() < .25 else col(rnd.choice(cols)[1])
    narg = lambda: g.value("i", 1) if rnd.random() < .25 else col(rnd.choice(num)[1])
    if f in RANKS or f == "count*":
        args = []
    elif f in ("first_value", "last_value"):
        args = [arg()]
    elif f == "nth_value":
        args = [arg(), L(rnd.choice([1, 2, 3]))]
    elif f == "ntile":
        args = [L(rnd.choice([1, 2, 3, 4]))]
    elif f in ("lag", "lead"):
        args = [arg()]
        if rnd.random() < .6:
            args.append(L(rnd.choice([0, 1, 2, 3])))
            if rnd.random() < .6:
                args.append(L(rnd.choice([0, 9])) if rnd.random() < .8 else L(None))
    elif f in ("sum", "avg"):
        args = [narg()]
    else:
        args = [arg()]
    return {"k": "win", "f": f, "args": args, "part": part, "ord": order}


def numeric(w):
    return w["f"] in ["row_number", "rank", "dense_rank"] + ["count*", "count", "sum", "avg", "countd", "ntile"]


def inner(rnd, ts):
    """a derived table with the columns id, a, b, s: grouped or a union"""
    t = table("t", ts[0].names)
    names = ts[0].names
    if rnd.random() < .5:
        q = select([{"k": "agg", "f": "min", "a": col(1)}, {"k": "agg", "f": rnd.choice(["count", "sum"]), "a": col(2)}, col(3), {"k": "agg", "f": "max", "a": col(4)}], names, [t], group=[col(3)])
    else:
        us = [select([{"k": "ar", "o": "+", "a": col(1), "b": L(100 * k)}] + [col(i + 2) for i in range(3)], names, [t],
                     where={"k": "lcmp", "o": rnd.choice([">=", "<="]), "a": col(1), "b": L(rnd.choice([2, 3]))}) for k in range(2)]
        q = union(us)
    return subq(q, "x")


def make(rnd, ts):
    r = rnd.random()
    if r < .2:
        frm, cols, w = p04.random_join(rnd, ts, joins=1)
        if frm[-1]["join"] == "right":
            return None
        ids = [1, 5]
    else:
        frm, cols, ids = [table("t", ts[0].names, "x" if rnd.random() < .3 else "")], cols_of(ts[0]), [1]
        if r < .3:
            frm = [inner(rnd, ts)] if rnd.random() < .6 else [subq(select([col(i + 1) for i in range(4)], ts[0].names, [table("t", ts[0].names)], where={"k": "lcmp", "o": ">=", "a": col(1), "b": L(2)}), "x")]
    sel = [col(i) for i in ids] + [col(rnd.choice(cols)[1]) for _ in range(rnd.choice([0, 1]))]
    for _ in range(rnd.choice([1, 1, 2, 3])):
        e = window(rnd, cols, ids)
        x = window(rnd, cols, ids) if rnd.random() < .3 else None
        if x is not None and numeric(e) and numeric(x):
            e = {"k": "ar", "o": rnd.choice(["+", "-"]), "a": e, "b": x}
        elif x is not None and numeric(e):
            e = {"k": "if", "c": {"k": "cmp", "o": rnd.choice(["=", ">", "<="]), "a": e, "b": L(rnd.choice([1, 2]))}, "a": L(1), "b": x}
        elif numeric(e) and rnd.random() < .2:
            e = {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": e, "b": L(rnd.choice([2, 3]))}
        elif rnd.random() < .05:
            e = {"k": "coalesce", "l": [e, L(7)], "ifnull": True}
        sel.append(e)
    where = TRUE
    if rnd.random() < .35:
        where = pushdown(ExprGen(rnd, cols).pred(rnd.choice([0, 1, 2])), 4)
    q = select(sel, ["o%d" % (i + 1) for i in range(len(sel))], frm, where=where, flat=rnd.random() < .5, agg=0)
    if rnd.random() < .35:
        q["winname"] = True
    if rnd.random() < .2:
        n = len(ids)
        q["having"] = {"k": "cmp", "o": rnd.choice(["=", "<=", ">"]), "a": col(1), "b": L(rnd.choice([1, 2, 3]))}
        if sel[-1]["k"] == "win" and numeric(sel[-1]):
            q["having"] = {"k": rnd.choice(["and", "or"]), "a": {"k": "cmp", "o": rnd.choice(["=", "<=", ">"]), "a": col(len(sel)), "b": L(rnd.choice([1, 2]))}, "b": q["having"]}
    if rnd.random() < .25:
        q["order"] = [{"i": i + 1, "d": rnd.randint(0, 1), "e": L(None)} for i in range(len(ids))]
        if rnd.random() < .5:
            q["lim"] = rnd.choice([1, 2, 3])
            q["off"] = rnd.choice([0, 0, 1])
    return q


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd, 9)
            yield "tabs", ts
        q = make(rnd, ts)
        if q:
            yield "q", q


def tasks(prop, tier, seed):
    k, n = (32, 180) if tier == "quick" else (160, 400)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
