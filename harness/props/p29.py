"""The command line."""
LEVEL = "model_checking"
RULE = ("random scripts over tables in files, given to the command as a file with options, through a pipe or typed at the prompt, after initial scripts of the configuration; every command runs in a process of "
        "its own; non-trivial: a table has rows")
MIXES = [{"ops": {"ins": 4, "insv": 2, "del": 2, "into": 2, "setexpr": 1, "setlit": 1, "exec": 1, "cerr": 1, "rerr": 1}, "modes": ["I", "UI", "U", "UDI"], "vars": 1, "files": 1, "with": .1, "show": .1, "explain": .1}]


def tasks(prop, tier, seed):
    k = 1 if tier == "quick" else 6
    return [("cli", "chunk", (prop, __name__, tier, seed, c, 60)) for c in range(16 * k)]
