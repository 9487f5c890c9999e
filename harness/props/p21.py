"""Row-wise functions and the user's own: assignments, ROW_INDEX, ROW_LAST, generators, imported Python functions,
registered calculaters, aggregates and transforms."""
from gen import ExprGen, tables, cols_of
from q import L, col, pushdown, rowwise, select, subq, table, TRUE
from vals import enc
from props import p09

LEVEL = "model_checking"
RULE = ("random table; either a SELECT carrying state from row to row (@v := expression of columns, variables, itself; ROW_INDEX(); ROW_LAST(x); IF around them; 1-2 generators over arrays and ranges) over a "
        "table or an ordered/limited derived table, with HAVING, LIMIT, and a second query reading the variables left behind; or a SELECT (plain, filtered, grouped, windowed, joined to a constant) calling imported "
        "Python functions, constants, methods, registered calculaters and aggregates; or a transform; non-trivial: result not empty or two rows in t")

USE = "USE `userfuncs as uf`; "


def ufn(f, l, text, **kw):
    return dict({"k": "fn", "f": f, "l": l, "as": text}, **kw)


class UserGen(ExprGen):
    """calls of a user's functions where ExprGen calls library functions"""

    def fn(self, t, depth=0):
        rnd = self.rnd
        a = lambda tt=t: self.atom(tt, depth)
        r = rnd.choice(["add", "add", "mul", "sub", "even", "first", "first3", "null", "answer", "const", "twice"] if t == "i" else ["add", "first", "label", "null", "twice"])
        if r == "add":
            return ufn("u_add", [a(), a()], rnd.choice(["uf$add(%s,%s)", "uf$add(%s,%s)", "uf$ADD(%s,%s)", "add_fn(%s,%s)", "um$add(%s,%s)"]))
        if r == "mul":
            return ufn("u_mul", [a(), a()], rnd.choice(["uf$MulNumber(%s,%s)", "uf$mulnumber(%s,%s)", "uf$mul_number(%s,%s)"]))
        if r == "sub":
            return ufn("u_sub", [a(), a()], "u_sub(%s,%s)")
        if r == "even":
            return ufn("u_even", [a()], "uf$boom_odd(%s)")
        if r == "first":
            return ufn("u_first", [a(), a(rnd.choice("is"))], "uf$first_of(%s,%s)")
        if r == "first3":
            return ufn("u_first", [a(), a("s"), a()], "uf$first_of(%s,%s,%s)")
        if r == "null":
            return ufn("u_null", [a()], "uf$boom(%s)")
        if r == "twice":
            x = a()
            return dict(ufn("u_add", [x, x], "uf$Tool$twice(%s)"), shown=[0])
        return dict(ufn("u_first", [L({"answer": 42, "const": 7, "label": "b"}[r])], {"answer": "uf$the_answer()", "const": "uf$const7()", "label": "uf$LABEL()"}[r]), shown=[])

    def value(self, t, depth=1):
        if depth > 0 and self.rnd.random() < .4:
            return self.fn(t, depth - 1)
        return super().value(t, depth)


class RowGen:
    """items that carry state from row to row"""

    def __init__(self, rnd, cols, vs):
        self.rnd, self.cols, self.vs, self.id = rnd, cols, vs, 0
        self.g = ExprGen(rnd, cols)
        self.written = set()

    def num(self, d):
        """a number: columns, variables, assignments, row functions"""
        rnd = self.rnd
        r = rnd.random()
        if d <= 0 or r < .3:
            return rnd.choice([lambda: self.g.column("i"), lambda: self.g.column("i"), lambda: L(rnd.choice([0, 1, 2, 3])), lambda: {"k": "var", "n": rnd.choice(self.vs)}])()
        if r < .5:
            return {"k": "ar", "o": rnd.choice(["+", "+", "-"]), "a": self.num(d - 1), "b": self.num(d - 1)}
        if r < .7:
            n = rnd.choice(self.vs)
            x = self.num(d - 1)
            self.written.add(n)
            return {"k": "set", "n": n, "a": x}
        if r < .84 and self.id < 9:
            self.id += 1
            if rnd.random() < .5:
                return {"k": "rowindex", "id": self.id}
            return {"k": "rowlast", "id": self.id, "a": self.num(0)}
        if r < .94:
            return {"k": "if", "c": self.cond(), "a": self.num(d - 1), "b": self.num(d - 1)}
        return {"k": "coalesce", "l": [self.num(0), L(rnd.choice([0, 5]))], "ifnull": True}

    def cond(self):
        rnd = self.rnd
        o = rnd.choice(["=", "!=", "<", "<=", ">", ">="])
        r = rnd.random()
        if r < .4:
            return {"k": "cmp", "o": o, "a": {"k": "var", "n": rnd.choice(self.vs)}, "b": self.g.column("i")}
        if r < .6 and self.id < 9:
            self.id += 1
            return {"k": "cmp", "o": rnd.choice(["=", "!="]), "a": self.g.column("i"), "b": {"k": "rowlast", "id": self.id, "a": self.g.column("i")}}
        return self.g.simple()

    def gen(self):
        """a generator over a list or a range"""
        rnd = self.rnd
        r = rnd.random()
        if r < .35:
            return {"k": "yield", "f": "array", "a": ufn("u_list", [self.num(1), self.g.column(rnd.choice("is"))], "uf$pair(%s,%s)"), "as": "yield_array(%s)"}
        if r < .5:
            l = [L(rnd.choice([1, 2, 3])) for _ in range(rnd.choice([2, 3]))]
            return {"k": "yield", "f": "array", "a": {"k": "list", "l": l}, "as": "yield_array(%s)"}
        if r < .6:
            return {"k": "yield", "f": "array", "a": self.g.column(rnd.choice("is")), "as": "yield_array(%s)"}
        return {"k": "yield", "f": "range", "a": self.g.column("i") if rnd.random() < .7 else self.num(1), "as": rnd.choice(["u_upto(%s)", "u_upto(%s)", "uf$upto(%s)", "uf$Tool$count(%s)", "upto_fn(%s)", "yield_array(uf$listing(%s))"])}


def source(rnd, t, u):
    """(query, inline?) with the columns of t in a known order"""
    f = table("t", t.names)
    q = select([col(i + 1) for i in range(4)], t.names, [f])
    if rnd.random() < .15:
        # at most one partner: rows of many partners are computed once for all of them (ROWWISE-FANOUT)
        f = [table("t", t.names, "x"), table("u", u.names, "y", join="left", on={"k": "kcmp", "a": col(5), "b": col(1)})]
        return select([col(i) for i in (1, 2, 5, 4)], ["id", "a", "b", "s"], f), 1
    if rnd.random() < .6:
        q["where"] = pushdown(ExprGen(rnd, cols_of(t)).pred(rnd.choice([0, 1])), 4) if rnd.random() < .4 else TRUE
        if rnd.random() < .6:
            return q, 1
        return q, 0
    c = rnd.choice([2, 3, 4])
    q["order"] = ([{"i": c, "d": rnd.randint(0, 1), "e": L(None)}] if rnd.random() < .7 else []) + [{"i": 1, "d": rnd.randint(0, 1), "e": L(None)}]
    if rnd.random() < .3:
        q["lim"], q["off"] = rnd.choice([1, 2, 3]), rnd.choice([0, 0, 1])
    if rnd.random() < .4:
        q["off"] = 0
        return q, 1
    return q, 0


def outer(rnd, q):
    """a query over the rows such a SELECT makes"""
    n = len(q["names"])
    k = rnd.randint(1, n)
    if rnd.random() < .5:
        return select([{"k": "agg", "f": "count*"}, {"k": "agg", "f": "garray", "a": col(k)}], ["o1", "o2"], [subq(q, "z")], agg=1)
    return select([col(i + 1) for i in range(n)], q["names"], [subq(q, "z")], where={"k": "isnull" if rnd.random() < .5 else "notnull", "a": col(k)})


def mixed(e):
    """a generator whose values may be numbers and texts"""
    return e["k"] == "yield" and (e["a"]["k"] == "fn" or e["a"]["k"] == "col")


def stateful(rnd, ts):
    src, inline = source(rnd, ts[0], ts[1])
    vs = ["v%d" % rnd.randint(1, 3), "w"]
    start = [rnd.choice([0, 1, 5]), rnd.choice([0, 2, None])]
    cols = cols_of(ts[0])
    if inline and len(src["from"]) > 1:
        cols, src = cols + cols_of(ts[1], 4), dict(src, sel=[col(i + 1) for i in range(8)], names=["o%d" % i for i in range(8)])
    cut = inline and (src["order"] or src["lim"] >= 0)
    g = RowGen(rnd, cols, vs)
    sel = [col(1)] if len(cols) < 8 else [col(1), col(5)]
    for _ in range(rnd.choice([1, 1, 2, 3])):
        sel.append(g.num(2))
    for _ in range(0 if cut else rnd.choice([0, 0, 1, 1, 2])):
        sel.insert(rnd.randint(0, len(sel)), g.gen())
    if rnd.random() < .2:
        sel = sel[1:]
    q = rowwise(src, sel, ["o%d" % (i + 1) for i in range(len(sel))], {n: enc(x) for n, x in zip(vs, start)}, inline=inline, flat=rnd.random() < .5)
    plain = [i for i, e in enumerate(sel) if e["k"] in ("ar", "col", "set", "rowindex")]
    if plain and src["lim"] < 0 and rnd.random() < .15 and not any(e["k"] == "yield" for e in sel):
        q["having"] = {"k": "cmp", "o": rnd.choice(["=", "<=", ">", "!="]), "a": col(rnd.choice(plain) + 1), "b": L(rnd.choice([1, 2, 3]))}
    gens = any(e["k"] == "yield" for e in sel)
    if gens and rnd.random() < .3:
        k = rnd.choice([i for i, e in enumerate(sel) if e["k"] == "yield"])
        q["having"] = {"k": "notnull", "a": col(k + 1)} if mixed(sel[k]) else rnd.choice([{"k": "cmp", "o": rnd.choice(["=", "<=", ">", "!="]), "a": col(k + 1), "b": L(rnd.choice([0, 1, 2]))}, {"k": "notnull", "a": col(k + 1)}])
    if gens and not g.id and not g.written and rnd.random() < .5:
        q["order"] = [{"i": i + 1, "d": rnd.randint(0, 1), "e": L(None)} for i in rnd.sample([i for i, e in enumerate(sel) if not mixed(e)] or [0], 1)]
    if not cut and rnd.random() < .2:
        q["lim"], q["off"] = rnd.choice([1, 2, 3]), rnd.choice([0, 0, 1])
    pre = USE + "".join("SET @%s = %s; " % (n, "null" if x is None else x) for n, x in zip(vs, start))
    if q["lim"] < 0 and not q["order"] and rnd.random() < .2:
        yield outer(rnd, q), pre
    else:
        yield q, pre
    if q["lim"] < 0 and g.written:
        w = sorted(g.written)
        end = {"k": "rwend", "q": q, "vs": w, "names": ["o%d" % (i + 1) for i in range(len(w))], "having": TRUE, "order": [], "off": 0, "lim": -1, "distinct": 0}
        yield end, pre, "SELECT %s" % ",".join("@%s AS o%d" % (n, i + 1) for i, n in enumerate(w))


def transform(rnd, ts):
    src, _ = source(rnd, ts[0], ts[1])
    return rowwise(src, [col(i + 1) for i in range(4)] + [{"k": "rowindex", "id": 1}], ts[0].names + ["n__"], {"v": enc(0)}, transform="u_number()")


def block(rnd, ts):
    """user functions in an ordinary SELECT"""
    cols = cols_of(ts[0])
    g = UserGen(rnd, cols)
    frm = [table("t", ts[0].names, "x" if rnd.random() < .3 else "")]
    where = pushdown(g.pred(rnd.choice([1, 2])), 4) if rnd.random() < .6 else TRUE
    r = rnd.random()
    if r < .45:
        sel = [col(1)] + [g.value(rnd.choice("iis"), 2) for _ in range(rnd.choice([1, 2]))] + [g.fn(rnd.choice("is"), 1)]
        q = select(sel, ["o%d" % (i + 1) for i in range(len(sel))], frm, where=where, flat=rnd.random() < .5)
        if rnd.random() < .3:
            q["order"] = [{"i": rnd.randint(1, len(sel)), "d": rnd.randint(0, 1), "e": L(None)}, {"i": 1, "d": 0, "e": L(None)}]
        return q
    agg = lambda: {"k": "agg", "f": rnd.choice(["ujoin", "upeak", "ujoin", "upeak", "count", "sum"]), "a": g.fn("i", 0) if rnd.random() < .4 else col(rnd.choice([1, 2, 3]))}
    if r < .75:
        keys = rnd.choice([[], [col(2)], [col(4)], [col(2), col(4)]])
        sel = list(keys)
        for _ in range(rnd.choice([1, 2])):
            e = agg()
            x = rnd.random()
            if e["f"] != "ujoin" and x < .25:
                e = {"k": "ar", "o": "+", "a": e, "b": {"k": "agg", "f": "count*"}}
            elif e["f"] != "ujoin" and x < .4:
                e = ufn("u_add", [e, L(1)], "uf$add(%s,%s)")
            elif e["f"] == "ujoin" and x < .3:
                e = {"k": "fn", "f": "concat", "l": [e, {"k": "agg", "f": "count*"}]}
            sel.append(e)
        q = select(sel, ["o%d" % (i + 1) for i in range(len(sel))], frm, where=where, group=keys, agg=1, flat=rnd.random() < .5)
        if not keys:
            q["agg"] = 1
        return q
    w = p09.window(rnd, cols, [1])
    while w["f"] not in p09.AGG:
        w = p09.window(rnd, cols, [1])
    w["f"] = rnd.choice(["ujoin", "upeak"])
    w["args"] = [col(rnd.choice([1, 2, 3]))]
    sel = [col(1), w]
    return select(sel, ["o1", "o2"], frm, where=where, agg=0)


def setup(eng):
    """names a host program gives its own objects"""
    import userfuncs
    eng.e.use("add_fn", userfuncs.add)
    eng.e.use("upto_fn", userfuncs.upto)
    eng.e.use("um", userfuncs)


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd, 8)
            yield "tabs", ts
        r = rnd.random()
        if r < .55:
            out = list(stateful(rnd, ts))
            yield "q", out[0][0], {"pre": out[0][1]}
            if len(out) > 1:
                yield "q", out[1][0], {"sql": out[1][2]}
        elif r < .6:
            yield "q", transform(rnd, ts), {"pre": USE}
        else:
            yield "q", block(rnd, ts), {"pre": USE}


def tasks(prop, tier, seed):
    k, n = (32, 180) if tier == "quick" else (160, 400)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
