"""UNION and UNION ALL."""
from gen import ExprGen, tables, cols_of
from q import L, col, pushdown, select, subq, table, union, TRUE
from props import p04, p05, p06

LEVEL = "model_checking"
RULE = ("2-4 selects (plain, filtered, constant, joined, grouped, DISTINCT, derived) of equal width with equal or different column names, joined by UNION or UNION ALL, with a trailing "
        "ORDER BY/LIMIT/OFFSET, possibly as a derived table, an IN subquery or a CTE-like nested source; non-trivial: result not empty or two rows in t")


def part(rnd, ts, types, names):
    """a select with one column of every type"""
    r = rnd.random()
    if r < .12:
        sel = [L(rnd.choice([0, 1, 2, None]) if t == "i" else rnd.choice(["a", "b", ""])) for t in types]
        return select(sel, names, [])
    if r < .24:
        frm, cols, w = p04.random_join(rnd, ts, joins=1)
    else:
        s = rnd.choice(ts[:2])
        frm, cols = [table(s.name, s.names, "x" if rnd.random() < .2 else "")], cols_of(s)
    g = ExprGen(rnd, cols)
    if r > .85:
        sel = []
        for t in types:
            sel.append({"k": "agg", "f": rnd.choice(["count", "sum", "max", "min"]) if t == "i" else rnd.choice(["max", "min"]), "a": g.column(t)})
        ks = [col(rnd.choice(cols)[1])]
        if len(types) > 1 and rnd.random() < .7:
            c = rnd.choice([c for c in cols if (c[2] == "s") == (types[0] == "s")])
            ks, sel[0] = [col(c[1])], col(c[1])
        q = select(sel, names, frm, group=ks)
    else:
        q = select([g.value(t, 1 if rnd.random() < .2 else 0) for t in types], names, frm)
        if rnd.random() < .15:
            q["distinct"] = 1
    if len(frm) > 1:
        from q import cols_used
        u = cols_used(q["sel"]) | cols_used(q["group"])
        us = cols_used(q["sel"])
        if not any(i <= 4 for i in us) or not any(i > 4 for i in us):
            return part(rnd, ts, types, names)
    if rnd.random() < .4:
        q["where"] = pushdown(g.pred(rnd.choice([0, 1])), 4, 4 if frm[-1]["join"] == "right" else 0)
    if not q["agg"] and not q["distinct"] and len(frm) == 1 and rnd.random() < .12:
        # a derived table with its own total order and limit
        s = ts[0] if frm[0]["t"] == "t" else ts[1]
        inner = dict(q, sel=q["sel"] + [col(1)], names=["i%d" % i for i in range(len(types))] + ["k"],
                     order=[{"i": len(types) + 1, "d": rnd.randint(0, 1), "e": L(None)}], lim=rnd.choice([1, 2, 3]), where=TRUE)
        return select([col(i + 1) for i in range(len(types))], names, [subq(inner, "y")])
    return q


def make(rnd, ts, types=None):
    types = types or [rnd.choice("iis") for _ in range(rnd.choice([1, 1, 2, 2, 3]))]
    names = ["o%d" % (i + 1) for i in range(len(types))]
    mode = rnd.random()

    def nm(i):
        if i == 0 or mode < .4:
            return names
        if mode < .7 and len(names) > 1:
            l = names[:]
            rnd.shuffle(l)
            return l
        return ["p%d" % (j + 1) for j in range(len(types))]
    qs = [part(rnd, ts, types, nm(i)) for i in range(rnd.choice([2, 2, 2, 3, 4]))]
    return union(qs, int(rnd.random() < .5))


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd, 6)
            yield "tabs", ts
        u = make(rnd, ts)
        w = len(u["names"])
        if rnd.random() < .5:
            u["order"] = p06.outs(rnd, u, range(1, w + 1))
        r = rnd.random()
        if r < .4:
            u = dict(u, lim=rnd.choice([0, 1, 2, 3, 5, 9]), off=rnd.choice([0, 0, 1, 2, 4]))
            if not u["lim"]:
                u["off"] = 0
        elif r < .45 and (u["order"] or not u["qs"][-1]["group"]):    # GROUP BY x OFFSET n: see p06
            u["off"] = rnd.choice([1, 2, 3])
        r = rnd.random()
        if r < .25:      # as a derived table
            if u["lim"] >= 0 or u["off"]:      # which rows a LIMIT keeps must be decided
                u = dict(u, order=[{"i": j + 1, "d": rnd.randint(0, 1), "e": L(None)} for j in range(w)])
            types = [p05.kind(e, u["qs"][0]) for e in u["qs"][0]["sel"]]
            q = select([col(j + 1) for j in range(w)], ["q%d" % j for j in range(w)], [subq(u, "x")])
            if rnd.random() < .3:
                q["distinct"] = 1
            elif rnd.random() < .4:
                q = select([col(1), {"k": "agg", "f": "count*", "a": L(None)}], ["q0", "q1"], [subq(u, "x")], group=[col(1)])
            if rnd.random() < .3:
                q["order"] = p06.outs(rnd, q, range(1, len(q["names"]) + 1))
            yield "q", q
        else:
            yield "q", u


def tasks(prop, tier, seed):
    k, n = (32, 160) if tier == "quick" else (160, 300)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
