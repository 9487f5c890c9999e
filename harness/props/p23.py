"""The JSON functions and GET_VALUE read and change documents as documents."""
import json
from gen import Schema
from q import L, col, select, table, TRUE

LEVEL = "model_checking"
RULE = ("table with a column of JSON texts (valid in any layout, with escapes, repeated keys, scalars, and texts that are no JSON), a column of documents (objects and arrays in memory) and NULLs, "
        "and 1-3 of JSON_EXTRACT, ->, ->>, JSON_CONTAINS, JSON_CONTAINS_PATH, JSON_SET, JSON_REMOVE, JSON_DEPTH, JSON_KEYS, JSON_LENGTH, JSON_VALID, JSON_ENCODE, JSON_DECODE, JSON_ARRAY, GET_VALUE "
        "and nested columns `doc.key` in the select list (the documents themselves are read after them) or the numeric ones in WHERE, GROUP BY and SUM; non-trivial: the query returned rows")

KEYS = ["a", "b", "l", "c d", "k-1", "\u00e9"]


def doc(rnd, d=3, top=False):
    r = rnd.random()
    if d == 0 or (not top and r < .35):
        return rnd.choice([None, 0, 1, 2, -3, 12, 1.5, "", "x", "xyz", "1", "a b", "\u00e9", True, False])
    if r < .75:
        o = {}
        for k in rnd.sample(KEYS, rnd.choice([0, 1, 2, 3])):
            o[k] = doc(rnd, d - 1)
        if rnd.random() < .4:
            o["l"] = [doc(rnd, d - 2 if d > 1 else 0) for _ in range(rnd.choice([0, 1, 2, 3]))]
        return o
    return [doc(rnd, d - 1) for _ in range(rnd.choice([0, 1, 2, 3]))]


def nobool(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, dict):
        return {k: nobool(x) for k, x in v.items()}
    return [nobool(x) for x in v] if isinstance(v, list) else v


def text(rnd):
    r = rnd.random()
    if r < .12:
        return None
    if r < .30:
        return rnd.choice(["", "x", "ab", "{", "[1,", "{\"a\":}", "nul", "[1 2]", "{\"a\" 1}", "{a:1}", "01", "1.", "\"a", "[1]]", "{\"a\":1,}", "-", "[,]", "\"\\q\"", "\"\\u12g4\"", "tru", "'a'"])
    if r < .38:
        return rnd.choice([" 12 ", "-1.5", "\"ab\"", "null", "true", "false", "[]", "{}", " [ ] ", "{ }", "1e2", "15e-1", "2.50", "\"\"", "0", "-0", "1E+1"])
    if r < .46:
        return rnd.choice(["{\"a\":1,\"b\":2,\"a\":3}", "{\"a\":\"x\\ny\"}", "[\"\\u00e9\",\"\\\"q\\\"\"]", "{\"a\\tb\":1,\"c d\":{\"a\":\"\\/\"}}", "\n{\t\"a\" :\r[1 , 2] }\n", "{\"\":1}", "[[],[[]],{}]",
                           "{\"a\":{\"a\":{\"a\":{\"a\":1}}}}", "[null,null]", "{\"l\":[{\"a\":1},{\"a\":null},{\"b\":2},3]}"])
    v = doc(rnd, 3, True)
    return json.dumps(v, ensure_ascii=rnd.random() < .5, indent=rnd.choice([None, None, None, 1]), separators=rnd.choice([None, None, (",", ":"), (" , ", " : ")]))


def steps(rnd, star, n=None):
    """a path, as text after $"""
    s = ""
    for _ in range(n or rnd.choice([1, 1, 2, 2, 3])):
        r = rnd.random()
        if r < .55:
            k = rnd.choice(KEYS + ["a", "a", "l", "zz"])
            if k in ("c d", "k-1") and rnd.random() < .7 or rnd.random() < .1:
                s += rnd.choice(['."%s"', '["%s"]']) % k
            else:
                s += "." + k
        elif r < .85 or not star:
            s += "[%d]" % rnd.choice([0, 0, 1, 1, 2, 3])
        else:
            s += rnd.choice(["[*]", ".*"])
    return s


class G:
    def __init__(self, rnd):
        self.rnd = rnd

    def path(self, star=True):
        return L("$" + steps(self.rnd, star))

    def d(self):
        """a document: JSON text, object, array, or what is in one"""
        r = self.rnd.random()
        if r < .8:
            return col(self.rnd.choice([2, 2, 3, 4]))
        if r < .9:
            return fn("json_extract", [col(self.rnd.choice([2, 3])), self.path(False)])
        return L(self.rnd.choice(['{"a":1,"l":[1,{"b":2}]}', "[1,[2,3]]", "{}", '"x"', "3", None, "zz", '[{"a":1},{"a":2}]']))

    def plain(self):
        return self.rnd.choice([L(1), L(0), L("x"), L("1"), L(None), col(1), col(5), L(-3), L("a b")])

    def num(self):
        """a function with a numeric result"""
        rnd = self.rnd
        f = rnd.choice(["json_valid", "json_depth", "json_length", "json_length2", "json_contains", "json_contains", "json_contains_path", "json_contains_path"])
        if f in ("json_valid", "json_depth", "json_length"):
            return fn(f, [self.d()])
        if f == "json_length2":
            return fn("json_length", [self.d(), self.path()])
        if f == "json_contains":
            return fn(f, [self.d(), rnd.choice([L("1"), L('"x"'), L("[]"), L("{}"), L('{"a":1}'), L("[1]"), L("x"), L(1), L(2), L("null"), L("1.5"), L('{ "b": 2 }'), col(1), col(4)]), self.path()])
        return fn(f, [self.d(), L(rnd.choice(["one", "all", "ONE", "All"]))] + [self.path() for _ in range(rnd.choice([1, 1, 2, 3]))])

    def any(self):
        rnd = self.rnd
        r = rnd.random()
        if r < .3:
            return self.num()
        if r < .5:
            d = self.d()
            if d["k"] == "col" and rnd.random() < .5:
                return dict(fn("json_extract", [d, self.path()]), **{"as": rnd.choice(["%s->%s", "%s->>%s"])})
            return fn("json_extract", [d, self.path()])
        if r < .62:
            l = [self.d()]
            for _ in range(rnd.choice([1, 1, 2])):
                l += [self.path(False), self.plain()]
            return fn("json_set", l)
        if r < .74:
            return fn("json_remove", [self.d()] + [self.path(False) for _ in range(rnd.choice([1, 1, 2]))])
        if r < .8:
            return fn("json_keys", [self.d()] + ([self.path()] if rnd.random() < .5 else []))
        if r < .84:
            return fn("json_encode", [rnd.choice([col(6), col(5), col(1), L("x"), fn("json_array", [self.plain(), self.plain()])])])
        if r < .87:
            return fn("json_decode", [rnd.choice([col(7), L("[1, 2]"), fn("json_encode", [col(6)])])])
        if r < .9:
            return fn("json_array", [self.plain() for _ in range(rnd.choice([1, 2, 3]))])
        return self.getter()

    def getter(self):
        rnd = self.rnd
        c = rnd.choice([3, 6])
        ks, v, keys, named = [], col(c), [], []
        for _ in range(rnd.choice([1, 1, 2])):
            keys += rnd.choice([["a"], ["b"], ["l"], ["a", "b"], ["a", "a"], ["zz"], ["k-1"]])
        v = [keys]
        if keys[-1] == "l" and "a" not in keys and len(keys) == 1 and rnd.random() < .7:     # the list of an object: elements and slices of it
            ix = rnd.choice([0, 1, 2, -1, -2, (0, 2), (1, 3), (0, 9), (-2, 9), (0, 3, 2), (2, 0, -1), (-1, -3, -1), (1, 1)])
            ks = [ix]
        else:
            ks = []
        args = [L(".".join(keys))] + [L(i) if isinstance(i, int) else {"k": "list", "l": [L(x) for x in i]} for i in ks]
        if rnd.random() < .4:
            name = ".".join([NAMES[c]] + keys + [":" + ":".join(str(x) for x in ([i] if isinstance(i, int) else i)) for i in ks])
            return {"k": "fn", "f": "get_value", "l": [col(c)] + args, "as": "`%s`" % name.replace("%", "%%"), "shown": []}
        tmpl = ", ".join("'%s'" % ".".join(keys) if i == 0 else (str(ks[0]) if isinstance(ks[0], int) else "(%s)" % ", ".join(map(str, ks[0]))) for i in range(len(args)))
        return {"k": "fn", "f": "get_value", "l": [col(c)] + args, "as": "GET_VALUE(%%s, %s)" % tmpl, "shown": [0]}


NAMES = [None, "id", "s", "o", "d", "x", "e", "v", "g"]


def fn2(sql, c, *ks):
    return {"k": "fn", "f": "get_value", "l": [col(NAMES.index(c))] + [L(k) for k in ks], "as": sql if "(" in sql else "`%s`" % sql, "shown": []}


def fn(f, l):
    return {"k": "fn", "f": f, "l": l}


def listed(v):
    """objects whose key l, where they have it, is an array"""
    return isinstance(v, dict) and isinstance(v.get("l", []), list)


def obj(rnd):
    while True:
        v = doc(rnd, 3, True)
        if listed(v):
            return v


def cases(rnd, n, eng):
    for j in range(n):
        if j % 20 == 0:
            rows = []
            for i in range(rnd.choice([3, 5, 8])):
                e = obj(rnd)
                rows.append([i + 1, text(rnd), obj(rnd) if rnd.random() < .85 else None, doc(rnd, 3, True) if rnd.random() < .8 else rnd.choice([None, 5, "q", '{"a":2}']),
                             rnd.choice([None, 0, 1, 2, "x", "\u00e9 \"q\"", ""]), nobool(e), json.dumps(nobool(e)) if rnd.random() < .9 else None,
                             rnd.choice([None, {}, {"n": rnd.choice([None, 1, 2, 3])}, {"n": rnd.choice([1, 2]), "l": [rnd.choice([1, 2, 3]) for _ in range(rnd.choice([0, 1, 2]))], "k": {"n": rnd.choice([1, 2])}}])])
            sch = Schema("t", [("id", "id"), ("s", "s"), ("o", "s"), ("d", "s"), ("x", "i"), ("e", "s"), ("v", "s"), ("g", "s")], rows)
            yield "tabs", [sch]
        g = G(rnd)
        k = rnd.choice([1, 1, 2, 3])
        where = TRUE
        if rnd.random() < .25:
            where = {"k": "cmp", "o": rnd.choice(["=", "!=", "<", ">="]), "a": g.num(), "b": L(rnd.choice([0, 1, 2]))} if rnd.random() < .6 else {"k": rnd.choice(["isnull", "notnull"]), "a": fn("json_extract", [g.d(), g.path()])}
        if rnd.random() < .25:                 # a nested column among the others
            nested = lambda: fn2(*rnd.choice([("g.n", "g", "n"), ("g.l.:0", "g", "l", 0), ("g.l.:-1", "g", "l", -1), ("g.k.n", "g", "k.n"), ("GET_VALUE(g, 'n')", "g", "n"), ("GET_VALUE(g, 'l', 0)", "g", "l", 0),
                                              ("GET_VALUE(g, 'k.n')", "g", "k.n")]))
            a, b = nested(), nested()
            r = rnd.random()
            if r < .35:
                e, b = {"k": rnd.choice(["agg"]), "f": rnd.choice(["sum", "max", "min", "count", "avg"]), "a": nested()}, nested()
                w = TRUE if rnd.random() < .6 else {"k": "cmp", "o": rnd.choice(["=", ">"]), "a": {"k": "ar", "o": "+", "a": b, "b": L(0)}, "b": L(rnd.choice([1, 2]))}
                yield "q", select([a, e, {"k": "agg", "f": "count*"}], ["k0", "a0", "n0"], [table("t", sch.names)], where=w, group=[a])
            else:
                e = {"k": "ar", "o": rnd.choice(["+", "*", "-"]), "a": a, "b": b} if r < .7 else {"k": "coalesce", "l": [a, b, L(-1)]}
                w = rnd.choice([TRUE, {"k": rnd.choice(["isnull", "notnull"]), "a": nested()}, {"k": "cmp", "o": rnd.choice(["=", ">"]), "a": {"k": "ar", "o": "+", "a": b, "b": L(0)}, "b": L(rnd.choice([1, 2]))}])
                yield "q", select([col(1), e, nested()], ["id", "e0", "e1"], [table("t", sch.names)], where=w)
            continue
        if rnd.random() < .1:
            e = g.num()
            f = rnd.choice(["sum", "max", "min", "count"])
            yield "q", select([e, {"k": "agg", "f": f, "a": g.num()}, {"k": "agg", "f": "count*"}], ["g", "a", "n"], [table("t", sch.names)], where=where, group=[e])
            continue
        sel = [col(1)] + [g.any() for _ in range(k)]
        names = ["id"] + ["o%d" % i for i in range(k)]
        if rnd.random() < .5:                  # the documents, after the functions have had them
            sel, names = sel + [col(3), col(4)], names + ["o", "d"]
        yield "q", select(sel, names, [table("t", sch.names)], where=where)


def tasks(prop, tier, seed):
    k, n = (32, 250) if tier == "quick" else (160, 500)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
