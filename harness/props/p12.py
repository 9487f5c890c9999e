"""DELETE removes exactly the rows its condition selects, from its table only."""
LEVEL = "model_checking"
RULE = "DELETE scripts over four tables of random content with variables, recorded from the real engine; non-trivial: at least one table has rows"
MIXES = [{"ops": {"del": 5, "insv": 1, "ins": 1, "setlit": 2, "into": 1}, "vars": 1, "len": [1, 2, 3, 4]},
         {"ops": {"del": 5, "ins": 1}, "len": [1, 1, 2]},
         {"ops": {"delany": 3, "del": 1, "ins": 1}, "len": [1, 1, 2]}]


def tasks(prop, tier, seed):
    k, n = (32, 100) if tier == "quick" else (160, 120)
    return [("session", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
