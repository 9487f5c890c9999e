"""Type annotations and conversions."""
from props import p28
from gen import Schema, ExprGen, cols_of
from q import L, TRUE, col, pushdown, select, table

LEVEL = "model_checking"
RULE = ("random tables of number texts, other texts, fractions, NULLs; conversions written as CAST, CONVERT_T and annotation in select items, nested in expressions, "
        "WHERE, GROUP BY, ORDER BY, DISTINCT, aggregates and join keys; non-trivial: result not empty or two rows in t")
TEXTS = [None, "", "0", "5", "05", " 5 ", "9", "10", "-3", "+3", "2.5", "-0.25", ".5", "7.", "abc", "5a", "1 2", "-", ".", "--1"]
NUMS = [None, 0, 1, 2, 5, 9, 10, -3, 2.5, -0.5, -2.75, 0.125]
NAMES = {"to_int": (["INT", "BIGINT", "SMALLINT", "TINYINT"], ["int", "bigint", "tinyint", "smallint", "mediumint"]),
         "to_float": (["FLOAT", "DOUBLE", "REAL", "DECIMAL", "DECIMAL(10,4)"], ["float", "double", "decimal"]),
         "to_text": (["CHAR", "VARCHAR", "TEXT", "VARCHAR(20)", "NCHAR"], ["str", "text", "char", "varchar", "string"]),
         "to_bool": (["BOOLEAN"], ["bool", "boolean"])}


def conv(rnd, e, f=None, styles=("cast", "conv", "ann")):
    f = f or rnd.choice(["to_int", "to_int", "to_float", "to_text", "to_bool"])
    style = rnd.choice([s for s in styles if s != "ann" or e["k"] == "col" or e.get("ann")])
    cast, ann = NAMES[f]
    x = {"k": "fn", "f": f, "l": [e]}
    if style == "ann":
        return dict(x, ann=rnd.choice(ann), **{"as": ""})
    if style == "cast":
        return dict(x, **{"as": "CAST(%%s AS %s)" % rnd.choice(cast)})
    n = rnd.choice(ann)
    n = rnd.choice([n, n.upper()]) if rnd.random() < .3 else n
    return dict(x, **{"as": rnd.choice(["CONVERT_%s(%%s)", "convert_%s(%%s)"]) % n})


class Gen(ExprGen):
    """values are conversions of columns; t is the type of the result"""
    styles = ("cast", "conv", "ann")

    def column(self, t):
        rnd = self.rnd
        d, i, _ = rnd.choice([c for c in self.cols])
        f = "to_text" if t == "s" else rnd.choice(["to_int", "to_int", "to_float"])
        e = col(i, d)
        last = None
        for g in [rnd.choice(["to_int", "to_int", "to_float", "to_text", "to_bool"]) for _ in range(rnd.choice([0, 0, 0, 1, 2, 3]))] + [f]:    # converted more than once
            if g == "to_text" and last in ("to_float", "to_bool"):
                e = conv(rnd, e, "to_int", self.styles)     # 'true' and '5.000000' need types the specification's numbers do not have
            e = conv(rnd, e, g, self.styles)
            last = g
        return e

    def value(self, t, depth=1):
        rnd = self.rnd
        if depth <= 0 or rnd.random() < .5:
            return self.column(t) if rnd.random() < .8 else L(rnd.choice([0, 1, 2, 5, 9]) if t == "i" else rnd.choice(["5", "", "10"]))
        k = rnd.choice(["ar", "conv", "if", "case", "ar"] if t == "i" else ["conv", "if", "fn"])
        if k == "ar":
            return {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": self.value(t, depth - 1), "b": self.value(t, depth - 1)}
        if k == "if":
            return {"k": "if", "c": self.pred(depth - 1), "a": self.value(t, depth - 1), "b": self.value(t, depth - 1)}
        if k == "case":
            return {"k": "case", "w": [{"c": self.pred(depth - 1), "v": self.value(t, depth - 1)}], "e": self.value(t, depth - 1)}
        if k == "fn":
            f = rnd.choice(["concat", "reverse", "left"])
            l = [self.value("s", depth - 1)]
            return {"k": "fn", "f": f, "l": l + [self.value("s", 0)] if f == "concat" else l + [L(1)] if f == "left" else l}
        # a conversion of a computed value
        if t == "i":
            return conv(rnd, self.value(rnd.choice(["i", "s"]), depth - 1), rnd.choice(["to_int", "to_float"]), ("cast", "conv"))
        e = self.value("s", depth - 1)
        if rnd.random() < .5:    # a number that is certainly an integer
            e = conv(rnd, self.value("s", depth - 1), "to_int", ("cast", "conv"))
        return conv(rnd, e, "to_text", ("cast", "conv"))

    def simple(self):
        rnd = self.rnd
        t = rnd.choice(["i", "i", "s"])
        c = self.column(t)
        k = lambda: L(rnd.choice([0, 1, 2, 5, 9, 10]) if t == "i" else rnd.choice(["5", "", "10", "2.500000"]))
        r = rnd.random()
        if r < .5:
            a, b = (c, k()) if rnd.random() < .8 else (k(), c)
            return {"k": "cmp", "o": rnd.choice(["=", "!=", "<", "<=", ">", ">="]), "a": a, "b": b}
        if r < .7:
            return {"k": rnd.choice(["in", "in", "notin"]), "a": c, "l": [k() for _ in range(rnd.choice([1, 2, 3]))]}
        if r < .85:
            return {"k": "btw", "a": c, "lo": k(), "hi": k()}
        return {"k": rnd.choice(["isnull", "notnull"]), "a": c}

    def pred(self, depth=1):
        rnd = self.rnd
        r = rnd.random()
        if depth <= 0 or r < .5:
            return self.simple()
        if r < .75:
            return {"k": rnd.choice(["and", "or"]), "a": self.pred(depth - 1), "b": self.pred(depth - 1)}
        if r < .85:
            return {"k": "not", "a": self.pred(depth - 1)}
        t = rnd.choice(["i", "s"])
        return {"k": "cmp", "o": rnd.choice(["=", "!=", "<", ">="]), "a": self.value(t, 0), "b": self.value(t, 0)}


class WhereGen(Gen):
    styles = ("cast", "conv")


DATES = {"date": (["DATE"], ["date"]), "datetime": (["DATETIME", "TIMESTAMP"], ["datetime", "timestamp"]), "to_text": (["CHAR", "TEXT"], ["str", "text"])}


def dconv(rnd, e, f, styles=("cast", "conv", "ann")):
    style = rnd.choice([s for s in styles if s != "ann" or e["k"] == "col" or e.get("ann")])
    cast, ann = DATES[f]
    x = {"k": "fn", "f": f, "l": [e]}
    if style == "ann":
        return dict(x, ann=rnd.choice(ann), **{"as": ""})
    return dict(x, **{"as": "CAST(%%s AS %s)" % rnd.choice(cast) if style == "cast" else "CONVERT_%s(%%s)" % rnd.choice(ann)})


def dates(rnd, t, frm):
    """queries over conversions to dates, datetimes and back"""
    def val(styles=("cast", "conv", "ann"), f=None):
        e = col(rnd.choice([2, 3, 4, 5]))
        fs = [rnd.choice(["date", "datetime", "to_text"]) for _ in range(rnd.choice([0, 0, 1, 2]))] + [f or rnd.choice(["date", "datetime", "to_text"])]
        for x in fs:
            e = dconv(rnd, e, x, styles)
        return e

    where = TRUE
    if rnd.random() < .4:
        f = rnd.choice(["date", "datetime"])
        where = {"k": "cmp", "o": rnd.choice(["=", "!=", "<", ">=", "<=", ">"]), "a": val(("cast", "conv"), f), "b": val(("cast", "conv"), f)}
    r = rnd.random()
    m = rnd.choice([1, 2, 3])
    if r < .5:
        q = select([val() for _ in range(m)] + [col(1)], ["o%d" % j for j in range(m)] + ["z9"], frm, where=where)
        if rnd.random() < .6:
            q["order"] = outs(rnd, m)
    elif r < .75:
        key = val()
        q = select([key] + [{"k": "agg", "f": rnd.choice(["min", "max", "count", "countd"]), "a": val(f=rnd.choice(["date", "datetime"]))} for _ in range(m)],
                   ["g"] + ["o%d" % j for j in range(m)], frm, where=where, group=[key])
    else:
        q = select([val() for _ in range(m)], ["o%d" % j for j in range(m)], frm, where=where, distinct=1)
    return q


def one(rnd, pool, n):
    return [rnd.choice(pool) for _ in range(n)]


def tabs(rnd):
    tp = rnd.sample(TEXTS, rnd.randint(3, 8))
    n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 8])
    t = Schema("t", [("id", "id"), ("n", "m"), ("f", "m"), ("s", "m")],
               [[i + 1, rnd.choice(tp) if rnd.random() < .85 else rnd.choice([None, 0, 5, 7]), rnd.choice(NUMS), rnd.choice(tp)] for i in range(n)])
    u = Schema("u", [("id", "id"), ("k", "i"), ("z", "s")],
               [[i + 1, rnd.choice([0, 5, 9, 10, -3, None]), rnd.choice(["5", "05", "", "9", "10", "0", None])] for i in range(rnd.choice([0, 1, 2, 3, 4, 5]))])
    return [t, u]


def outs(rnd, n):
    ks = list(range(1, n + 1))
    rnd.shuffle(ks)
    return [{"i": i, "d": int(rnd.random() < .45), "e": L(None)} for i in ks[:rnd.choice([1, 2])]]


def cases(rnd, n, eng):
    from q import Render, from_names
    ts = None
    for i in range(n):
        if i % 20 == 0:
            dated = rnd.random() < .2
            ts = p28.tabs(rnd) if dated else tabs(rnd)
            yield "tabs", ts
        t, u = ts
        if dated:
            yield "q", dates(rnd, t, [table("t", t.names, "x" if rnd.random() < .3 else "")])
            continue
        cols = [(0, j, "m") for j in (1, 2, 3, 4)]
        g, wg = Gen(rnd, cols), WhereGen(rnd, cols)
        r = rnd.random()
        alias = "x" if rnd.random() < .3 else ""
        frm = [table("t", t.names, alias)]
        where = wg.pred(rnd.choice([0, 0, 1, 2])) if rnd.random() < .4 else TRUE
        if where is not TRUE and rnd.random() < .4:
            where = {"k": "and", "a": where, "b": {"k": "cmp", "o": rnd.choice(["<=", ">"]), "a": col(1), "b": L(rnd.choice([1, 3, 5]))}}
        where = pushdown(where, 4)
        if r < .4:          # plain
            m = rnd.choice([1, 2, 3])
            sel = [g.value(rnd.choice(["i", "s"]), rnd.choice([0, 0, 1, 2])) if rnd.random() < .85 else conv(rnd, col(rnd.randint(1, 4)), "to_bool") for _ in range(m)]
            q = select(sel + [col(1)], ["o%d" % j for j in range(m)] + ["z9"], frm, where=where, distinct=int(rnd.random() < .3))
            if rnd.random() < .6:
                q["order"] = outs(rnd, m)
                for o in q["order"]:
                    if rnd.random() < .5 and "as" in sel[o["i"] - 1] and sel[o["i"] - 1]["l"][0]["k"] == "col":
                        o["sql"] = Render([from_names(frm)]).e(sel[o["i"] - 1])
                if rnd.random() < .4:
                    q["lim"] = rnd.choice([1, 2, 3])
        elif r < .6:        # grouped
            kf = rnd.choice(["to_int", "to_float", "to_text", "to_bool"])
            key = conv(rnd, col(rnd.randint(2, 4)), kf)
            aggs = []
            for j in range(rnd.choice([1, 2, 3])):
                f = rnd.choice(["count*", "sum", "avg", "min", "max", "count", "countd"])
                a = g.column("i" if f in ("sum", "avg") or rnd.random() < .6 else "s")
                aggs.append({"k": "agg", "f": f, "a": a} if f != "count*" else {"k": "agg", "f": f})
            q = select([key] + aggs, ["g"] + ["o%d" % j for j in range(len(aggs))], frm, where=where, group=[key])
            if rnd.random() < .3:
                q["grouptext"] = ["g"]
            if rnd.random() < .3:
                q["order"] = outs(rnd, 1)
        elif r < .7:        # aggregates only
            if not t.rows:
                continue
            aggs = []
            for j in range(rnd.choice([1, 2, 3])):
                f = rnd.choice(["sum", "avg", "min", "max", "count", "countd"])
                aggs.append({"k": "agg", "f": f, "a": g.column("i" if f in ("sum", "avg") or rnd.random() < .6 else "s")})
            q = select(aggs, ["o%d" % j for j in range(len(aggs))], frm)
        elif r < .8:        # distinct
            m = rnd.choice([1, 2])
            q = select([g.column(rnd.choice(["i", "s"])) for _ in range(m)], ["o%d" % j for j in range(m)], frm, where=where, distinct=1)
        else:               # the converted key of a join
            key, kc = (conv(rnd, col(rnd.randint(2, 4)), "to_int"), 6) if rnd.random() < .6 else (conv(rnd, col(rnd.randint(2, 4)), "to_text"), 7)
            a, b = (key, col(kc)) if rnd.random() < .6 else (col(kc), key)
            kind = rnd.choice(["left", "inner"])
            frm = [table("t", t.names, "x"), table("u", u.names, "y", kind, {"k": "icmp" if kind == "inner" else "kcmp", "a": a, "b": b})]
            q = select([col(1), col(5), rnd.choice([col(6), col(7), conv(rnd, col(6), "to_text", ("cast", "conv", "ann"))]), g.column("i")], ["o1", "o2", "o3", "o4"], frm, where=where)
        yield "q", q


def tasks(prop, tier, seed):
    k, n = (32, 220) if tier == "quick" else (160, 400)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
