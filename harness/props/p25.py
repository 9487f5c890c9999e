"""EXECUTE of a file does what its statements do, in a scope of their own."""
LEVEL = "model_checking"
RULE = "Scripts that execute files (nested, repeated, failing, with comments) over four tables of random content with variables, recorded from the real engine; non-trivial: at least one table has rows"
MIXES = [{"ops": {"exec": 6, "ins": 3, "del": 1, "setlit": 2, "setexpr": 2, "into": 2, "acc": 1}, "vars": 1, "glob": .1, "len": [1, 2, 3, 4]},
         {"ops": {"exec": 6, "ins": 3, "insv": 1, "del": 1, "setlit": 2, "into": 1, "rerr": 1, "cerr": 1}, "vars": 1, "glob": .2, "with": .3, "modes": ["I", "UI", "DI"], "usetype": .3, "len": [1, 2, 3]},
         {"ops": {"exec": 6, "ins": 3, "del": 1, "setexpr": 1, "into": 1}, "vars": 1, "noise": 1, "len": [1, 2, 3]}]
LEVELS = ["m", "c1"]


def tasks(prop, tier, seed):
    k, n = (32, 80) if tier == "quick" else (160, 100)
    return [("session", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
