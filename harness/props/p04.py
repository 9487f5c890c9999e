"""GROUP BY splits the rows by key and every aggregate is computed over exactly its group."""
import json

from gen import ExprGen, tables, cols_of
from q import L, cols_used, col, has_agg, pushdown, select, table, subq, TRUE
from props.p03 import random_join
from vals import enc, dec, lst, txt

LEVEL = "model_checking"
RULE = ("random table(s), WHERE, 0-2 GROUP BY keys (columns, expressions, aliases, columns of a joined table) and 1-4 select expressions over COUNT, SUM, AVG, MIN, MAX, "
        "GROUP_CONCAT, GROUP_ARRAY, GROUP_UNIQ_ARRAY, GROUP_BIT_*, JSON_ARRAYAGG, JSON_OBJECTAGG, alone or inside arithmetic/IF; non-trivial: result not empty or two rows in t")

NUMAGG = ["count*", "count", "sum", "avg", "min", "max", "bitand", "bitor", "bitxor"]
TXTAGG = ["count", "min", "max", "gconcat"]
ENDAGG = ["garray", "guniq", "jarr", "gconcat", "jobj"]


def agg(rnd, g, fs):
    f = rnd.choice(fs)
    if f == "count*":
        return {"k": "agg", "f": f, "a": L(None)}
    if f == "jobj":
        return {"k": "jobj", "a": col(1), "b": g.value(rnd.choice("is"), 0)}
    t = "s" if f in ("gconcat",) and rnd.random() < .5 else "i"
    if f in ("count", "min", "max", "garray", "guniq", "jarr", "gconcat"):
        t = rnd.choice(["i", "i", "s"])
    return {"k": "agg", "f": f, "a": g.value(t, 1 if rnd.random() < .3 and not f.startswith("bit") else 0)}


def expr(rnd, g):
    r = rnd.random()
    if r < .6:
        return agg(rnd, g, NUMAGG + TXTAGG)
    if r < .75:
        return agg(rnd, g, ENDAGG)
    a = agg(rnd, g, ["count*", "count", "sum", "avg"])
    if r < .85:
        return {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": a, "b": L(rnd.choice([1, 2])) if rnd.random() < .5 else agg(rnd, g, ["count*", "count", "sum"])}
    if r < .93:
        return {"k": "if", "c": {"k": "cmp", "o": rnd.choice([">", "<=", "="]), "a": a, "b": L(rnd.choice([0, 1, 2, 3]))}, "a": L(1), "b": agg(rnd, g, ["count*", "sum"])}
    return {"k": "coalesce", "l": [agg(rnd, g, ["min", "max"]), L(7)], "ifnull": True}


def fix(sel):
    """per output column: how the observed value is brought into the specification's shape"""
    kinds = ["guniq" if e.get("k") == "agg" and e["f"] == "guniq" else "json" if e.get("k") == "agg" and e["f"] == "jarr" else
             "jobj" if e.get("k") == "jobj" else None for e in sel]

    def one(k, v):
        if v[0] == 0 or k is None:
            return v
        if k == "guniq":
            return lst(sorted(v[3])) if v[0] == 3 else v
        try:
            x = json.loads(dec(v))
        except Exception:
            return v
        if k == "json":
            return enc(x)
        return lst([lst([txt(a), enc(b)]) for a, b in sorted(x.items())])
    return lambda rows: [[one(k, v) for k, v in zip(kinds, r)] for r in rows] if any(kinds) else rows


def keys(rnd, g, cols, named):
    """group keys and the select items that show them"""
    r = rnd.random()
    n = 0 if r < .15 else 1 if r < .7 else 2
    out = []
    for _ in range(n):
        c = rnd.choice(cols)
        e = col(c[1])
        if c[2] != "s" and rnd.random() < .2:
            e = {"k": "ar", "o": rnd.choice(["+", "*"]), "a": e, "b": L(rnd.choice([1, 2]))}
        if e not in out:
            out.append(e)
    return out


def grouped(rnd, ts, having=False):
    j = rnd.random()
    if j < .2:
        frm, cols, w = random_join(rnd, ts, joins=1)
    else:
        frm, cols, w = [table(ts[0].name, ts[0].names, "x" if rnd.random() < .35 else "")], cols_of(ts[0]), 4
        if j < .3:
            frm = [subq(select([col(i + 1) for i in range(4)], ts[0].names, [table("t", ts[0].names)],
                               where={"k": "lcmp", "o": ">=", "a": col(1), "b": L(2)}), "x")]
    g = ExprGen(rnd, cols)
    ks = keys(rnd, g, cols, True)
    sel = []
    for e in ks:
        if rnd.random() < .75:
            sel.append(e)
    shown = len(sel)
    for _ in range(rnd.choice([1, 1, 2, 3])):
        sel.append(expr(rnd, g))
    if len(frm) > 1:     # a joined table none of whose columns is selected is not joined at all: JOIN-UNUSED (P03)
        sel = [e for e in sel if e["k"] != "jobj"]
        used = cols_used(sel)
        if not any(i <= 4 for i in used):
            sel.append({"k": "agg", "f": rnd.choice(["sum", "count", "max"]), "a": col(rnd.randint(1, 3))})
        if not any(i > 4 for i in used):
            sel.append({"k": "agg", "f": rnd.choice(["sum", "count", "max"]), "a": col(rnd.randint(5, 7))})
    where = TRUE
    if rnd.random() < .35:
        where = pushdown(ExprGen(rnd, cols).pred(rnd.choice([0, 1, 2])), len(ts[0].cols), w - 4 if frm[-1]["join"] == "right" else 0)
    if rnd.random() < .3:
        o = list(range(len(sel)))
        rnd.shuffle(o)
        sel = [sel[i] for i in o]
    names = ["o%d" % (i + 1) for i in range(len(sel))]
    return select(sel, names, frm, where=where, group=ks, flat=rnd.random() < .5)


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd, 9)
            yield "tabs", ts
        q = grouped(rnd, ts)
        if q["from"][0]["alias"] and rnd.random() < .35:     # output names that are also column names
            for j, c in zip(rnd.sample(range(len(q["sel"])), rnd.choice([1, min(2, len(q["sel"]))])), rnd.sample(["a", "b", "s", "id"], 2)):
                q["names"][j] = c
        elif q["where"]["k"] == "true" and rnd.random() < .3:     # an aggregate named like a column
            for j, c in zip([j for j, e in enumerate(q["sel"]) if has_agg(e)], rnd.sample(["a", "b", "s", "id"], 4)):
                if rnd.random() < .6:
                    q["names"][j] = c
        elif all(e in q["sel"] for e in q["group"]) and q["group"] and rnd.random() < .5:     # GROUP BY the alias of a select item
            q["grouptext"] = [q["names"][q["sel"].index(e)] for e in q["group"]]
        yield "q", q, {"post": fix(q["sel"])}


def tasks(prop, tier, seed):
    k, n = (32, 200) if tier == "quick" else (160, 400)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
