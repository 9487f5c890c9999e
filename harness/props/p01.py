"""WHERE keeps exactly the rows whose predicate is true."""
from gen import ExprGen, tables, cols_of
from q import col, pushdown, select, table

LEVEL = "model_checking"
RULE = ("random table (0-7 rows, NULLs, duplicate values, empty strings) and random WHERE predicate over =,!=,<,<=,>,>=,IN,BETWEEN,LIKE,"
        "IS [NOT] NULL,AND,OR,NOT,arithmetic,IF,CASE,IFNULL; non-trivial: the table has at least two rows or the query returned rows; "
        "distinct by SQL text and table")


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tables(rnd)
            yield "tabs", ts
        t = ts[0]
        g = ExprGen(rnd, cols_of(t))
        w = pushdown(g.pred(rnd.choice([0, 1, 1, 2, 3])), 4)
        yield "q", select([col(i + 1) for i in range(4)], ["o1", "o2", "o3", "o4"], [table("t", t.names)], where=w, flat=rnd.random() < .5)


def tasks(prop, tier, seed):
    k, n = (32, 300) if tier == "quick" else (160, 500)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
