"""A variable has the value the last assignment before its use gave it."""
LEVEL = "model_checking"
RULE = "Variable scripts over four tables of random content with variables, recorded from the real engine; non-trivial: at least one table has rows"
MIXES = [{"ops": {"ins": 4, "del": 2, "setlit": 3, "setexpr": 3, "into": 3, "acc": 2}, "vars": 1, "with": .15, "recursive": .3, "collist": .2, "len": [2, 3, 4, 5]}]


def tasks(prop, tier, seed):
    k, n = (32, 100) if tier == "quick" else (160, 120)
    return [("session", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
