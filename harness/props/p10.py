"""Batching settings and where the tables live never change what a query returns."""
import copy
import importlib
import json
import os

from gen import Schema
from props import p08

LEVEL = "model_checking"
RULE = ("queries of all kinds (filter, join, group, distinct, having, union, subquery) over tables of which most are JSON files, under random @batch, @join_batch, @insert_batch; "
        "non-trivial: result not empty or two rows in t")
KINDS = ["p01", "p03", "p04", "p05", "p06", "p07", "p08", "p09"]
SEEN = [0]


class Stored(Schema):
    """a table kept in a JSON file"""

    def __init__(self, s, path):
        super().__init__(s.name, s.cols, s.rows)
        self.path = path

    def install(self, eng):
        eng.pop(self.name)
        if self.path:
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
            with open(self.path, "w") as f:
                json.dump(self.dicts(), f)
        else:
            super().install(eng)


def located(q, where):
    if isinstance(q, dict):
        out = {k: located(v, where) for k, v in q.items()}
        if q.get("kind") == "base" and q.get("t") in where and "sql" not in q:
            out["sql"] = "`%s`" % where[q["t"]]
        return out
    if isinstance(q, (list, tuple)):
        return [located(v, where) for v in q]
    return q


def settings(rnd):
    return {"@batch": rnd.choice([0, 1, 1, 2, 2, 3, 5]), "@join_batch": rnd.choice([1, 2, 3, 10000]), "@insert_batch": rnd.choice([0, 0, 1, 2])}


def keys(c):
    """key equalities of an ON condition"""
    if isinstance(c, dict):
        return (c.get("k") in ("icmp", "kcmp")) + sum(keys(v) for v in c.values())
    if isinstance(c, list):
        return sum(keys(v) for v in c)
    return 0


def inner(e):
    """some subquery of an expression refers to the outer row"""
    if isinstance(e, dict):
        return any((k == "q" and p08.correlated(v)) or inner(v) for k, v in e.items())
    return isinstance(e, (list, tuple)) and any(inner(v) for v in e)


def allowed(q, st, opts):
    # the syncany package cannot load joined keys in pieces for two-column keys, nor for the loaders of correlated subqueries
    if keys(q) > 1 or inner(q):
        st["@join_batch"] = 10000
    return "sql" not in opts


def cases(rnd, n, eng, kinds=KINDS):
    done = 0
    while done < n:
        m = importlib.import_module("props." + rnd.choice(kinds))
        where = {}
        for ev in m.cases(rnd, 8, eng):
            if ev[0] == "tabs":
                SEEN[0] += 1
                where = {s.name: "w/%s%d.json" % (s.name, SEEN[0] % 7) for s in ev[1] if rnd.random() < .75}
                yield "tabs", [Stored(s, where.get(s.name)) for s in ev[1]]
                continue
            opts = dict(ev[2]) if len(ev) > 2 else {}
            st = settings(rnd)
            done += 1
            if not allowed(ev[1], st, opts):
                continue
            opts["pre"] = "".join("SET %s=%d; " % x for x in st.items()) + opts.get("pre", "")
            yield "q", located(copy.deepcopy(ev[1]), where), opts


def tasks(prop, tier, seed):
    k, n = (32, 110) if tier == "quick" else (160, 200)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
