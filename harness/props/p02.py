"""Scalar expressions compute what SQL says they compute, row by row."""
from gen import RichGen, tables, cols_of
from q import col, select, table, subq

LEVEL = "model_checking"
RULE = ("random table and 1-3 random select expressions (arithmetic, unary minus, bit operators, comparisons, IN/NOT IN, BETWEEN, LIKE, IS NULL, NOT, AND, OR, IF, "
        "CASE, simple CASE, IFNULL/COALESCE) nested up to 3 deep, in a plain SELECT or over a derived table; non-trivial: the query returned rows or the "
        "table has two rows")


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd)
            yield "tabs", ts
        t = ts[0]
        k = rnd.choice([1, 1, 2, 3])
        g = RichGen(rnd, cols_of(t))
        sel = [col(1)] + [g.value(rnd.choice(["i", "i", "s"]), rnd.choice([1, 2, 2, 3])) for _ in range(k)]
        names = ["id"] + ["o%d" % (j + 1) for j in range(k)]
        frm = table("t", t.names)
        if rnd.random() < .2:
            frm = subq(select([col(j + 1) for j in range(4)], t.names, [frm]), "x")
        yield "q", select(sel, names, [frm])


def tasks(prop, tier, seed):
    k, n = (32, 250) if tier == "quick" else (160, 500)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
