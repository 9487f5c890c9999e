"""INSERT: what it leaves in the target for every mode, and nothing else."""
LEVEL = "model_checking"
RULE = "INSERT scripts over four tables of random content with variables, recorded from the real engine; non-trivial: at least one table has rows"
MIXES = [{"ops": {"ins": 5, "insv": 2, "sel": 1}, "modes": ["I", "U", "UI", "UDI", "DI"], "usetype": .1, "star": .1, "partial": .3, "len": [1, 1, 2, 3]}]


def tasks(prop, tier, seed):
    k, n = (32, 100) if tier == "quick" else (160, 120)
    return [("session", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
