"""EXPLAIN, SHOW and @verbose."""
import importlib

LEVEL = "model_checking"
RULE = ("random scripts over four tables and variables whose statements are written after EXPLAIN (EXPLAIN EXPLAIN) or between SHOW statements, and the queries of other properties after EXPLAIN "
        "or under @verbose; non-trivial: a table has rows")
MIXES = [{"ops": {"ins": 4, "insv": 2, "del": 3, "into": 2, "setexpr": 2, "setlit": 1, "exec": 1, "cerr": 1, "rerr": 1, "acc": 1}, "modes": ["I", "UI", "U", "UDI", "DI"], "vars": 1, "with": .1,
          "explain": .6, "show": .3, "len": [1, 2, 3]}]
LEVELS = ["m", "c1"]
SOURCES = ["p01", "p04", "p06", "p08", "p03", "p09", "p07", "p05"]


def cases(rnd, n, eng):
    src = importlib.import_module("props." + rnd.choice(SOURCES))
    for ev in src.cases(rnd, n, eng):
        opts = dict(ev[2]) if len(ev) > 2 else {}
        if ev[0] == "q" and not opts.get("pre"):
            opts["pre"] = rnd.choice(["EXPLAIN ", "EXPLAIN ", "explain\n", "SHOW DATABASES; EXPLAIN ", "SET @verbose=true; ", "SET @verbose=false; EXPLAIN ", "SHOW IMPORTS; "])
            yield "q", ev[1], opts
        else:
            yield ev


def tasks(prop, tier, seed):
    k = 1 if tier == "quick" else 5
    return ([("qcheck", "chunk", (prop, __name__, tier, seed, c, 120)) for c in range(16 * k)] +
            [("session", "chunk", (prop, __name__, tier, seed, c, 80)) for c in range(16 * k)])
