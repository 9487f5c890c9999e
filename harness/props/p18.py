"""Contexts have their own variables over shared tables."""
LEVEL = "model_checking"
RULE = "Multi-context scripts over four tables of random content with variables, recorded from the real engine; non-trivial: at least one table has rows"
MIXES = [{"ops": {"ins": 4, "del": 1, "setlit": 3, "setexpr": 2, "into": 2, "acc": 1, "rerr": 1, "cerr": 1}, "vars": 1, "glob": .2, "len": [1, 2, 3]}]
LEVELS = ['m', 'c1', 'c2']


def tasks(prop, tier, seed):
    k, n = (32, 100) if tier == "quick" else (160, 120)
    return [("session", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
