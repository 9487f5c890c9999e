"""CTEs, unions and subqueries leave nothing behind and change no table; a CTE means its own definition."""
LEVEL = "model_checking"
RULE = "CTE (also recursive, with column lists), union, subquery and INSERT scripts over four tables of random content with variables, recorded from the real engine; non-trivial: at least one table has rows"
MIXES = [{"ops": {"ins": 6, "sel": 2, "del": 1}, "modes": ["I", "I", "UI", "DI"], "with": .8, "recursive": .3, "collist": .25, "len": [1, 2, 3]}]


def tasks(prop, tier, seed):
    k, n = (32, 100) if tier == "quick" else (160, 120)
    return [("session", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
