"""JSON and CSV files are tables like any other; a CSV file keeps texts."""
LEVEL = "model_checking"
RULE = "scripts over four tables of which most are JSON or CSV files of similar names in several directories, the others in memory; non-trivial: at least one table has rows"
MIXES = [{"ops": {"ins": 6, "insv": 2, "del": 2, "sel": 1, "into": 1, "rerr": 1}, "modes": ["I", "I", "U", "UI", "UDI", "DI"], "usetype": .1, "with": .1, "files": 1, "len": [1, 1, 2, 3, 4]}]


def tasks(prop, tier, seed):
    k, n = (32, 100) if tier == "quick" else (160, 120)
    return [("session", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
