"""ORDER BY, LIMIT and OFFSET."""
from gen import ExprGen, tables, cols_of
from q import L, Render, from_names, col, cols_used, pushdown, select, table, subq, TRUE
from props import p04, p05

LEVEL = "model_checking"
RULE = ("random table(s); ORDER BY 1-3 keys (output columns, expressions, unselected columns of the table, aliases that hide a column), ASC/DESC, NULL and duplicate keys; "
        "LIMIT/OFFSET in 0..n+2; over plain, filtered, joined, grouped, DISTINCT, HAVING and derived-table selects; non-trivial: result not empty or two rows in t")


def outs(rnd, q, sortable):
    ks = list(sortable)
    rnd.shuffle(ks)
    return [{"i": i, "d": int(rnd.random() < .45), "e": {"k": "lit", "v": [0, 0, 1, []]}} for i in ks[:rnd.choice([1, 1, 2, 2, 3])]]


def limits(rnd, q, rows):
    r = rnd.random()
    if r < .35:
        return q
    lim = rnd.choice([0, 1, 1, 2, 3, rows, rows + 2])
    off = rnd.choice([0, 0, 0, 1, 2, rows]) if lim else 0
    if r > .93 and (q["order"] or not q["group"]):    # GROUP BY x OFFSET n without LIMIT is no MySQL syntax and read as a second key
        return dict(q, off=rnd.randint(1, rows + 1))
    return dict(q, lim=lim, off=off, limstyle="," if rnd.random() < .4 else "")


def plain(rnd, ts):
    t = ts[0]
    alias = "x" if rnd.random() < .25 else ""
    g = ExprGen(rnd, cols_of(t))
    n = rnd.choice([1, 2, 3])
    sel, names = [], []
    for j in range(n):
        c = rnd.randint(1, 4)
        if rnd.random() < .7:
            sel.append(col(c))
        elif rnd.random() < .5:
            sel.append({"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": g.column("i"), "b": rnd.choice([L(1), L(2), g.column("i")])})
        else:
            sel.append(g.value("i", 1))
        names.append("o%d" % (j + 1))
    if rnd.random() < .2 and not alias:     # an alias that is also a column of the table
        j = rnd.randrange(n)
        names[j] = rnd.choice(["a", "b"])
    q = select(sel, names, [table("t", t.names, alias)])
    if rnd.random() < .3:
        q["where"] = pushdown(g.pred(rnd.choice([0, 1, 2])), 4)
    raw = [i for i in range(1, 5) if t.names[i - 1] not in names]
    if rnd.random() < .4 and raw:
        rnd.shuffle(raw)
        q["order"] = [{"i": 0, "e": col(i), "d": int(rnd.random() < .45)} for i in raw[:rnd.choice([1, 1, 2])]]
    else:
        q["order"] = outs(rnd, q, [i + 1 for i, e in enumerate(sel)])
        for o in q["order"]:        # ORDER BY the text of a selected expression
            e = sel[o["i"] - 1]
            if e["k"] in ("ar", "fn", "if", "coalesce") and rnd.random() < .6:
                o["sql"] = Render([from_names(q["from"])]).e(e)
    return q


def joined(rnd, ts):
    frm, cols, w = p04.random_join(rnd, ts, joins=1)
    sel = [col(i) for i in rnd.sample(range(1, 5), rnd.choice([1, 2]))] + [col(i) for i in rnd.sample(range(5, w + 1), rnd.choice([1, 2]))]
    rnd.shuffle(sel)
    q = select(sel, ["o%d" % (i + 1) for i in range(len(sel))], frm)
    if rnd.random() < .2 and frm[-1]["join"] != "right":
        q["order"] = [{"i": 0, "e": col(i), "d": int(rnd.random() < .45)} for i in rnd.sample([1, 2, 3, 4], rnd.choice([1, 2]))]
    else:
        q["order"] = outs(rnd, q, range(1, len(sel) + 1))
    return q


def sortable(e, q):
    return p05.kind(e, q) in ("i", "s")


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd, 9)
            yield "tabs", ts
        r = rnd.random()
        rows = len(ts[0].rows)
        if r < .4:
            q = plain(rnd, ts)
        elif r < .55:
            q = joined(rnd, ts)
        elif r < .65:
            inner = plain(rnd, ts)
            if len(set(inner["names"])) != len(inner["names"]):
                continue
            # a derived table's own ORDER BY/LIMIT: made total by the id
            inner = dict(inner, sel=inner["sel"] + [col(1)], names=inner["names"] + ["k"])
            if any(o["i"] == 0 for o in inner["order"]):
                inner["order"] = inner["order"] + ([{"i": 0, "e": col(1), "d": 0}] if "id" not in inner["names"] else [])
                if not any(o["e"] == col(1) for o in inner["order"]):
                    continue
            else:
                inner["order"] = inner["order"] + [{"i": len(inner["sel"]), "d": rnd.randint(0, 1), "e": L(None)}]
            inner = limits(rnd, inner, rows)
            q = select([col(j + 1) for j in range(len(inner["sel"]))], ["p%d" % j for j in range(len(inner["sel"]))], [subq(inner, "x")])
            if rnd.random() < .7:
                q["order"] = outs(rnd, q, range(1, len(inner["sel"]) + 1))
        elif r < .8:
            q = p05.distinct(rnd, ts)
            q["order"] = outs(rnd, q, range(1, len(q["sel"]) + 1)) if rnd.random() < .8 else []
        else:
            q = p04.grouped(rnd, ts) if r < .92 else p05.countd(rnd, ts)
            q["order"] = outs(rnd, q, [j + 1 for j, e in enumerate(q["sel"]) if sortable(e, q)]) if rnd.random() < .85 else []
            if rnd.random() < .3:
                q["having"] = p05.having(rnd, ts, q)
        if len(set(q["names"])) != len(q["names"]):
            continue
        q = limits(rnd, q, rows)
        yield "q", q, {"post": p04.fix(q["sel"])}


def tasks(prop, tier, seed):
    k, n = (32, 220) if tier == "quick" else (160, 400)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
