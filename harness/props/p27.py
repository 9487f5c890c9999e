"""References ${name} and ${name:default} in the text of a statement."""
import datetime
import os
import random

import tlc
from campaign import Result, h, rng
from q import query_sql
from vals import enc, num, txt

LEVEL = "model_checking"
RULE = ("(a) random texts of characters, references to variables of two levels and to environment variables, defaults that are calls or texts, near references, put where a literal is in SELECT, "
        "INSERT VALUES or an executed file; (b) the queries and scripts of other properties with random parts of their text moved into variables and defaults; "
        "non-trivial: the text has at least one reference")
# environment variables the process is started with (impl.py sets them before the engine reads them)
ENVIRON = {"SUBST_ONE": "one", "Subst_Two": "t  w,o", "SUBST_EMPTY": "", "subst_4": "${@a}"}
MIXES = [{"ops": {"ins": 4, "insv": 3, "del": 2, "into": 2, "setexpr": 2, "setlit": 1, "exec": 1}, "modes": ["I", "UI", "U"], "vars": 1, "subst": .6, "len": [1, 2, 3]}]
CALLS = {"concat": 3, "upper": 1, "lower": 1, "length": 1, "reverse": 1, "left": 2, "abs": 1, "sign": 1, "substring_index": 3, "repeat": 2, "bit_length": 1, "field": 3, "startswith": 2}
CALLTAB = [[[ord(c) for c in "mysql__" + f], f] for f in CALLS]
NAMES = ["a", "b", "Name", "n1", "x_y"]
CH = ["a", "B", "1", " ", ",", "$", "{", "}", ":", "@", "-", "é", "(", ")", "日", "  ", "0", "x"]
VALUES = [True, False, None, 0, 3, -12, 2.5, -0.25, 0.125, "", "text", " sp ", "a}b", "${@b}", "${a:1}", "$", "{", "é", "[1]", [1, 2], (1, "a"), [], [None, True, 2.5], [[1, 2], 3],
          datetime.date(2023, 1, 2), datetime.datetime(2024, 2, 29, 3, 4, 5), datetime.time(23, 0, 9), "1", "null", "/* c */", "-- c", "x;y", "\\x"[1:]]


def value(v):
    if v is True or v is False or v is None:
        return {"k": {True: "true", False: "false", None: "null"}[v]}
    if isinstance(v, (list, tuple)):
        return {"k": "list", "l": [value(x) for x in v]}
    return {"k": "v", "v": enc(v)}


def codes(s):
    return [ord(c) for c in s]


def name(rnd):
    r = rnd.random()
    if r < .55:
        n = rnd.choice(NAMES)
        return "@" + (n if rnd.random() < .8 else rnd.choice([n.upper(), n.lower()]))
    if r < .8:
        n = rnd.choice(list(ENVIRON) + ["subst_1"])
        return rnd.choice(["", "", "@"]) + rnd.choice([n, n, n.upper(), n.lower()])
    return rnd.choice(["nosuch", "@nosuch", "é1", "1", "@", "@@a"] + NAMES)


def argument(rnd):
    return rnd.choice(["a", "abc", " b ", "1", "-3", "2", "", "true", "FALSE", "null", '"q"', "x y", "é", "0", "12.5", "-2.25", "-", "1.", ".5", "a.b", "1.2.3"])


def default(rnd):
    r = rnd.random()
    if r < .45:
        return "".join(rnd.choice([c for c in CH if c != "}"]) for _ in range(rnd.choice([0, 1, 2, 3, 5])))
    f = rnd.choice(list(CALLS))
    if f in ("abs", "sign"):
        a = [rnd.choice(["3", "-12", "0", " -4 ", "null"])]
    elif f == "left":
        a = [rnd.choice(["abc", "a", " xyz "]), rnd.choice(["0", "1", "2", " 9 "])]
    elif f == "repeat":
        a = [rnd.choice(["abc", "a"]), rnd.choice(["0", "1", "2", " 3 "])]
    elif f == "substring_index":
        a = [rnd.choice(["a.b.c", "abc"]), rnd.choice([".", "b"]), rnd.choice(["1", "-1", "2"])]
    elif f == "field":
        a = [rnd.choice(["a", "b"]) for _ in range(3)]
    elif f == "startswith":
        a = [rnd.choice(["abc", "b"]), rnd.choice(["a", "b", "abc"])]
    else:
        a = [argument(rnd) for _ in range(rnd.choice([1, 2, 3]) if f == "concat" else 1)]
        a = ["y"] if a == [""] else a
        if f in ("length", "bit_length", "upper", "lower", "reverse", "concat"):
            a = [x for x in a if not ("." in x and x.strip().replace(".", "").replace("-", "").isdigit() and not x.startswith(".") and not x.endswith(".") and x.count(".") == 1)] or ["z"]
    s = "mysql__%s(%s)" % (f, ",".join(a))
    r = rnd.random()
    return s if r < .7 else " %s " % s if r < .8 else s[:-1] if r < .87 else s + "x" if r < .93 else s.replace("mysql__", "nolib__")


def piece(rnd):
    r = rnd.random()
    if r < .3:
        return "".join(rnd.choice(CH) for _ in range(rnd.choice([1, 2, 4])))
    if r < .6:
        return "${%s}" % name(rnd)
    if r < .92:
        return "${%s:%s}" % (name(rnd), default(rnd))
    return rnd.choice(["${", "${}", "${:1}", "${ a}", "${a-b}", "$a", "$${a:1}", "${a:b", "${a{b}}", "${@a}}", "{${@a}}", "${a b:c}"])


def texts(prop, seed, c, n):
    from impl import Engine
    rnd = rng(prop, seed, "subst%d" % c)
    res = Result()
    trace, meta = [], []
    env = genv = None
    glob = [[codes(k.lower()), {"k": "v", "v": txt(v)}] for k, v in ENVIRON.items()]
    for j in range(n):
        if j % 12 == 0:
            eng = Engine()
            ctx = eng.e.context()
            lv = [{}, {}]
            for i, e in enumerate([ctx, eng.e]):
                for v in NAMES:
                    if rnd.random() < .45:
                        lv[i][v] = rnd.choice(VALUES)
                        if isinstance(lv[i][v], int) and not isinstance(lv[i][v], bool) and rnd.random() < .5:
                            e.execute("set @%s=%d" % (v, lv[i][v]))
                        else:
                            e.set_variable(v, lv[i][v])
            env = [[[codes("@" + k), value(v)] for k, v in l.items()] for l in lv]
        at = rnd.choice([0, 1])
        t = "".join(piece(rnd) for _ in range(rnd.choice([1, 1, 2, 3, 4])))
        e = [ctx, eng.e][at]
        how = rnd.choice(["select", "select", "values", "file", "two"])
        if how == "values":
            sql = "INSERT INTO `r__` (x) VALUES ('%s')" % t
        elif how == "two":
            sql = "SELECT 1 AS a INTO @zz; INSERT INTO `r__` SELECT '%s' AS x; SELECT '${nosuch:2}' AS a INTO @zz" % t
        else:
            sql = "INSERT INTO `r__` SELECT '%s' AS x" % t
        run = sql
        if how == "file":
            with open("s27.sql", "w", encoding="utf-8") as f:
                f.write(sql)
            run = "EXECUTE `s27.sql`"
        eng.pop("r__")
        err = None
        try:
            from campaign import limit
            with eng._quiet(), limit(20):
                e.execute(run)
        except KeyboardInterrupt:
            raise
        except BaseException as x:
            err = "%s: %s" % (type(x).__name__, str(x)[:200])
        rows = eng.pop("r__")
        res.evaluations += 1
        case = {"sql": run, "text": t, "variables": {"context": {k: repr(v) for k, v in lv[0].items()}, "engine": {k: repr(v) for k, v in lv[1].items()}}, "at": ["context", "engine"][at], "environment": ENVIRON}
        if err or len(rows) != 1 or not isinstance(rows[0].get("x"), str):
            if not (err is None and len(rows) == 1 and rows[0].get("x") == ""):
                res.violations.append({"what": "%s: %r left %s" % (err or "no text", run, rows), "case": case})
                continue
        case["observed"] = rows[0]["x"]
        trace.append({"t": codes(t), "env": env[at:] + [glob], "calls": CALLTAB, "obs": codes(rows[0]["x"])})
        meta.append(case)
        if "${" in t:
            res.distinct.add(h([t, at, repr(lv)]))
        if len(res.samples) < 1:
            res.samples.append(case)
    bad, states = tlc.validate("SubstTrace", trace)
    res.states, res.transitions, res.traces = states, len(trace), 1
    for l, v in bad:
        case = meta[l - 1]
        res.violations.append({"what": "%s: %r became %r with %s from the %s" % (v, case["text"], case["observed"], case["variables"], case["at"]), "case": case})
    return res


def rewrite(rnd, sql, setvar=None, count=None):
    """the same text with parts of it behind references; setvar(name, text) provides variables"""
    spans, out, last = [], "", 0
    for _ in range(count or rnd.choice([1, 2, 3, 4])):
        a = rnd.randrange(1, len(sql))      # a statement begins with a letter (Splitter)
        b = min(len(sql), a + rnd.choice([0, 1, 1, 2, 3, 5, 8, 13, 30]))
        if all(b <= x or a >= y for x, y in spans):
            spans.append((a, b))
    for j, (a, b) in enumerate(sorted(spans)):
        part = sql[a:b]
        odd = any(c in part for c in "\"`\\;#/*{}$") or "--" in sql[max(0, a - 1):b + 1]
        if odd:
            continue
        ref = None
        if setvar and part.count("'") % 2 == 0 and rnd.random() < .6:
            v = "s%d" % j
            setvar(v, int(part) if part.isdigit() and str(int(part)) == part and rnd.random() < .5 else part)
            ref = rnd.choice(["${@%s}", "${@%s}", "${@%s:zzz}"]) % v
        elif "(" not in part or not part.rstrip().endswith(")"):
            ref = "${%s:%s}" % (rnd.choice(["nosuch", "@nosuch", "no_such_%d" % j]), part)
        if ref:
            out += sql[last:a] + ref
            last = b
    return out + sql[last:]


SOURCES = ["p01", "p04", "p06", "p08", "p03", "p09", "p07"]


def cases(rnd, n, eng):
    import importlib
    src = importlib.import_module("props." + rnd.choice(SOURCES))
    trace = []
    for ev in src.cases(rnd, n, eng):
        if ev[0] != "q" or (len(ev) > 2 and ev[2].get("pre")):
            yield ev
            continue
        opts = dict(ev[2]) if len(ev) > 2 else {}
        sql = opts.get("sql") or query_sql(ev[1])
        vs = {}
        tpl = rewrite(rnd, sql, vs.__setitem__)
        for v, x in vs.items():
            eng.e.set_variable(v, x)
        trace.append({"t": codes(tpl), "env": [[[codes("@" + v), value(x)] for v, x in vs.items()]], "calls": CALLTAB, "obs": codes(sql)})
        yield "q", ev[1], dict(opts, sql=tpl)
    bad, _ = tlc.validate("SubstTrace", trace)
    assert not bad, [("".join(map(chr, trace[l - 1]["t"])), "".join(map(chr, trace[l - 1]["obs"]))) for l, _ in bad]


def tasks(prop, tier, seed):
    k = 1 if tier == "quick" else 5
    return ([("props.p27", "texts", (prop, seed, c, 240)) for c in range(16 * k)] +
            [("qcheck", "chunk", (prop, __name__, tier, seed, c, 120)) for c in range(24 * k)] +
            [("session", "chunk", (prop, __name__, tier, seed, c, 60)) for c in range(8 * k)])
