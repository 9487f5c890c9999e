"""Statements take effect in order; a failing script does exactly what its statements before the failure do."""
LEVEL = "model_checking"
RULE = "Multi-statement and failing scripts over four tables of random content with variables, recorded from the real engine; non-trivial: at least one table has rows"
MIXES = [{"ops": {"ins": 4, "insv": 2, "del": 2, "sel": 1, "rerr": 2}, "modes": ["I", "UI", "DI"], "len": [2, 3, 4, 5]},
         {"ops": {"ins": 4, "insv": 2, "del": 2, "sel": 1, "cerr": 1}, "modes": ["I", "UI", "DI"], "len": [2, 3, 4, 5]},
         {"ops": {"ins": 4, "insv": 2, "del": 2, "sel": 1, "acc": 1, "into": 1, "setexpr": 1}, "modes": ["I", "UI", "DI"], "vars": 1, "len": [3, 4, 5, 6]}]


def tasks(prop, tier, seed):
    k, n = (32, 100) if tier == "quick" else (160, 120)
    return [("session", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
