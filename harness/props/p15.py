"""A script is cut at the semicolons outside quotes and comments, and nowhere else."""
import itertools

import tlc
from campaign import Result, h, rng

LEVEL = "model_checking"
RULE = ("every text up to the length bound over the twelve characters the splitter distinguishes, and longer random texts and scripts of statement-like pieces with quotes, escapes and comments, "
        "plus session scripts interspersed with comments; non-trivial: the text has a quote, a comment mark or a semicolon")
ALPHA = ["a", ";", "'", '"', "`", "-", "#", "/", "*", "\n", "\\", " "]
MIXES = [{"ops": {"ins": 3, "insv": 2, "del": 2, "into": 1, "setexpr": 1}, "modes": ["I", "UI"], "vars": 1, "with": .1, "noise": 1, "len": [2, 3, 4]}]
PIECES = ["select", "a1", " ", "\n", ";", ";;", "'x'", "'it''s'", "'a;b'", '"q\'r"', "`t;u`", "'\\'", "'\\\\'", "\\", "-- c'd\n", "--\n", "# \"x;\n", "/* a;'b */", "/**/", "/*/", "*/", "-", "/", "*", "é", "1", "(", ")", "@v", "'", '"', "`", "/*", "--", "#", "\r\n", "\t", "=", "''' x; '''", "$", "_"]


def observe(s):
    from campaign import limit
    from syncanysql.parser import SqlParser
    try:
        with limit(5):
            out = [[[ord(c) for c in str(x)], x.lineno] for x in SqlParser(s).split()]
        return {"s": [ord(c) for c in s], "err": 0, "out": out}
    except EOFError:
        return {"s": [ord(c) for c in s], "err": 1, "out": []}


def judge(texts):
    import impl  # noqa: F401 (puts /repo on the path)
    res = Result()
    trace = []
    for s in texts:
        o = observe(s)
        trace.append(o)
        res.evaluations += 1
        if any(c in s for c in ";'\"`#/-"):
            res.distinct.add(h(s))
    bad, states = tlc.validate("SplitTrace", trace)
    res.states, res.transitions, res.traces = states, len(trace), 1
    for l, v in bad:
        o = trace[l - 1]
        s = "".join(chr(c) for c in o["s"])
        got = "an error" if o["err"] else [("".join(chr(c) for c in t), n) for t, n in o["out"]]
        res.violations.append({"what": "%s: %r is split into %s" % (v, s, got), "case": {"text": s, "observed": got, "verdict": v}})
    res.samples.append({"text": texts[-1]})
    return res


def exhaustive(first, n):
    return judge([first + "".join(x) for k in range(0, n) for x in itertools.product(ALPHA, repeat=k)] + ([""] if first == "a" else []))


def random_texts(prop, seed, c, n):
    rnd = rng(prop, seed, "split%d" % c)
    out = []
    for _ in range(n):
        if rnd.random() < .4:
            out.append("".join(rnd.choice(ALPHA) for _ in range(rnd.randint(5, 25))))
        else:
            out.append("".join(rnd.choice(PIECES[:32] if rnd.random() < .85 else PIECES) for _ in range(rnd.randint(2, 14))))
    return judge(out)


def tasks(prop, tier, seed):
    q = tier == "quick"
    return ([("props.p15", "exhaustive", (a, 4 if q else 5)) for a in ALPHA] +
            [("props.p15", "random_texts", (prop, seed, c, 400 if q else 1000)) for c in range(12 if q else 80)] +
            [("session", "chunk", (prop, __name__, tier, seed, c, 60 if q else 120)) for c in range(12 if q else 80)])
