"""JOINs pair exactly the rows whose ON condition is true; LEFT/RIGHT keep unmatched rows once."""
from gen import ExprGen, tables, cols_of
from q import L, col, pushdown, select, table, subq, TRUE

LEVEL = "model_checking"
RULE = ("random tables t,u,w (0-7 rows, NULL and duplicate keys), 1-2 joins (LEFT, JOIN, INNER, RIGHT) on one or two key columns of earlier tables, extra ON "
        "conditions on the joined or an earlier table, WHERE over all tables, joined derived tables; non-trivial: result not empty or two rows in t")


def conj(l):
    if not l:
        return TRUE
    w = l[0]
    for x in l[1:]:
        w = {"k": "and", "a": w, "b": x}
    return w


def cross(rnd, prev, mine):
    """a condition over both sides of the join"""
    num = lambda l: col(rnd.choice([x for x in l if x[1] != "s"])[0])
    a, b = num(mine), num(prev)
    if rnd.random() < .5:
        a = {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": a, "b": L(rnd.choice([1, 2])) if rnd.random() < .6 else num(prev)}
    if rnd.random() < .3:
        b = {"k": "ar", "o": rnd.choice(["+", "-"]), "a": b, "b": L(rnd.choice([1, 2]))}
    o = rnd.choice(["<", "<=", ">", ">=", "!="])
    x = {"k": "cmp", "o": o, "a": a, "b": b} if rnd.random() < .6 else {"k": "cmp", "o": o, "a": b, "b": a}
    if rnd.random() < .2:
        x = {"k": "or", "a": x, "b": {"k": "cmp", "o": rnd.choice(["=", "<", ">"]), "a": num(mine), "b": L(rnd.choice([1, 2]))}}
    return x


def join_on(rnd, prev, last, base, sch, kind):
    """prev: [(index, type)] of the columns on the left; base: index of the joined table's first column - 1"""
    kk = "icmp" if kind == "inner" else "kcmp"     # an unmatched or NULL key drops the row of an INNER JOIN
    mine = [(base + i + 1, t) for i, (_, t) in enumerate(sch.cols)]
    keys = []
    n = 1 if rnd.random() < .75 else 2
    used, lused = set(), set()
    for q in range(n):
        m = rnd.choice([x for x in mine if x[0] not in used])
        # two joins that do not depend on each other and both fan out are zipped (known finding JOIN-ZIP): depend on the last table
        cand = [x for x in (prev if q else last) if (x[1] == "s") == (m[1] == "s") and x[0] not in lused]
        if not cand:
            continue
        p = rnd.choice(cand)
        used.add(m[0])
        lused.add(p[0])
        a, b = col(p[0]), col(m[0])
        if kind != "right" and p[1] != "s" and rnd.random() < .15:
            a = {"k": "ar", "o": rnd.choice(["+", "-"]), "a": a, "b": L(rnd.choice([0, 1]))}
        keys.append({"k": kk, "a": a, "b": b} if rnd.random() < .6 else {"k": kk, "a": b, "b": a})
    if not keys:
        i = next(x for x in mine if x[1] != "s")
        j = next(x for x in last if x[1] != "s")
        keys = [{"k": kk, "a": col(j[0]), "b": col(i[0])}]
    if kind == "right":
        return conj(keys)
    extra = []
    seen = set()
    r = rnd.random()
    for _ in range(0 if r < .5 else 1 if r < .75 else rnd.choice([2, 2, 3, 4])):
        if rnd.random() < .45:
            extra.append(cross(rnd, prev, mine))
            continue
        own = rnd.random() < .6
        i, t = rnd.choice(mine if own else prev)
        o = rnd.choice(["=", "!=", "<", "<=", ">", ">="])
        v = L(rnd.choice([0, 1, 2, 3])) if t != "s" else L(rnd.choice(["a", "b", "ab"]))
        if rnd.random() < .2:
            x = {"k": "in", "a": col(i), "l": [v] + ([L(1)] if t != "s" else [L("a")]) * rnd.randint(0, 1)}
            key = (i, "==")
            if own and key not in seen:
                x["k"] = "lin"
                seen.add(key)
        elif rnd.random() < .15 and t != "s":
            x = {"k": rnd.choice(["isnull", "notnull"]), "a": col(i)}
        else:
            x = {"k": "cmp", "o": o, "a": col(i), "b": v}
            key = (i, "==" if o == "=" else o)
            if own and (key not in seen or o == "!="):
                x["k"] = "lcmp"
                seen.add(key)
        extra.append(x)
    l = keys + extra
    if rnd.random() < .3:
        rnd.shuffle(l)
    return conj(l)


def random_join(rnd, ts, joins=None, allow_sub=True):
    order = [ts[0], ts[1], ts[2]]
    alias = ["x", "y", "z"]
    n = joins or rnd.choice([1, 1, 1, 2])
    frm = [table(order[0].name, order[0].names, "x")]
    prev = [(i + 1, t) for i, (_, t) in enumerate(order[0].cols)]
    cols = cols_of(order[0])
    base = len(order[0].cols)
    for j in range(1, n + 1):
        sch = order[j]
        kind = rnd.choice(["left", "left", "inner", "inner", "right"]) if n == 1 else rnd.choice(["left", "inner"])
        on = join_on(rnd, prev, prev[-len(order[j - 1].cols):], base, sch, kind)
        kw = {}
        if kind == "left" and rnd.random() < .3:
            kw["joinkw"] = " JOIN "
        if allow_sub and rnd.random() < .15 and kind != "right":
            inner = select([col(i + 1) for i in range(len(sch.cols))], sch.names, [table(sch.name, sch.names)],
                           where={"k": "lcmp", "o": ">", "a": col(1), "b": L(rnd.choice([0, 1]))})
            frm.append(subq(inner, alias[j], kind, on, **kw))
        else:
            frm.append(table(sch.name, sch.names, alias[j], kind, on, **kw))
        prev += [(base + i + 1, t) for i, (_, t) in enumerate(sch.cols)]
        cols += cols_of(sch, base)
        base += len(sch.cols)
    return frm, cols, base


def plain(ts):
    """x, y, z side by side: entries, columns, width"""
    frm, cols, base, prev = [], [], 0, []
    for sch, a in zip(ts, "xyz"):
        frm.append(table(sch.name, sch.names, a))
        cols.append(cols_of(sch, base))
        base += len(sch.cols)
    return frm, cols, base


def theta(rnd, ts):
    frm, cols, _ = plain(ts[:2])
    g = ExprGen(rnd, cols[0] + cols[1])
    l, r = rnd.choice([c for c in cols[0] if c[2] != "s"]), rnd.choice([c for c in cols[1] if c[2] != "s"])
    on = {"k": "cmp", "o": rnd.choice(["<", "<=", ">", ">=", "!="]), "a": col(l[1]), "b": col(r[1])}
    if rnd.random() < .5:
        p, m = [(c[1], c[2]) for c in cols[0]], [(c[1], c[2]) for c in cols[1]]
        on = conj([on] + [cross(rnd, p, m) for _ in range(rnd.choice([1, 2, 3]))])
    elif rnd.random() < .4:
        on = {"k": "or", "a": on, "b": {"k": "cmp", "o": "=", "a": col(cols[0][0][1]), "b": col(cols[1][0][1])}}
    frm[1]["join"] = "theta"
    frm[1]["on"] = on
    if rnd.random() < .2:
        frm[1].update(join="cross", on=TRUE)
    return frm, cols[0] + cols[1], len(cols[0]) + len(cols[1])


def comma(rnd, ts):
    n = rnd.choice([2, 2, 3])
    frm, cols, w = plain(ts[:n])
    conds = []
    for j in range(1, n):
        frm[j].update(join="cross", joinkw=", ")
        r = rnd.choice([c for c in cols[j] if c[2] != "s"])
        l = rnd.choice([c for c in cols[j - 1] if c[2] != "s"])
        a, b = col(l[1]), col(r[1])
        conds.append({"k": "cmp", "o": "=", "a": a, "b": b} if rnd.random() < .6 else {"k": "cmp", "o": "=", "a": b, "b": a})
    allc = [c for cs in cols for c in cs]
    if rnd.random() < .5:
        conds.append(ExprGen(rnd, allc).simple())
    return frm, allc, w, pushdown(conj(conds), len(ts[0].cols))


def right_chain(rnd, ts):
    """x RIGHT JOIN y, then z joined to y: LEFT, INNER or RIGHT"""
    frm, cols, w = plain(ts)

    def key(i, j, kind):
        l = cols[0][0] if i == 0 else rnd.choice([c for c in cols[i] if c[2] != "s"])
        r = rnd.choice([c for c in cols[j] if c[2] != "s"])
        return {"k": kind, "a": col(l[1]), "b": col(r[1])}
    kind = rnd.choice(["left", "inner", "right"])
    frm[1].update(join="right", on=key(0, 1, "kcmp"))
    frm[2].update(join=kind, on=key(1, 2, "icmp" if kind == "inner" else "kcmp"))
    return frm, [c for cs in cols for c in cs], w


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd)
            yield "tabs", ts
        shape = rnd.random()
        where = TRUE
        if shape < .1:
            frm, cols, w = theta(rnd, ts)
        elif shape < .16:
            frm, cols, w, where = comma(rnd, ts)
        elif shape < .24:
            frm, cols, w = right_chain(rnd, ts)
        else:
            frm, cols, w = random_join(rnd, ts)
        if shape > .24 and rnd.random() < .4:
            where = ExprGen(rnd, cols).pred(rnd.choice([0, 0, 1, 2]))
            where = pushdown(where, len(ts[0].cols), w - len(ts[1].cols) if frm[-1]["join"] == "right" else 0)
        yield "q", select([col(j + 1) for j in range(w)], ["o%d" % (j + 1) for j in range(w)], frm, where=where,
                          flat=shape < .16 or rnd.random() < .5)


def tasks(prop, tier, seed):
    k, n = (32, 200) if tier == "quick" else (160, 400)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
