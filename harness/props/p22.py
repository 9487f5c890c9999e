"""The scalar function library computes what MySQL's functions of those names compute."""
from gen import Schema, ExprGen
from q import L, col, select, table, TRUE

LEVEL = "model_checking"
RULE = ("random table of numbers (NULL, negative, zero, large) and texts (NULL, empty, spaces, separators, repeated parts, non-ASCII, multi-byte) and 1-3 function calls (string, regular expression, "
        "number, bit functions of Funcs.tla) whose arguments are columns, literals or nested calls, in the select list or in WHERE; non-trivial: the query returned rows")

TXT = [None, "", "a", "ab", "abc", "aXbX", "a,b,c", ",a,,b", "A b", " a ", "  ", "abcabc", "banana", "\u00e9a", "\u65e5\u672ca", "Zz", "b.c.d", "12", "a%_b"]
INT = [None, 0, 1, 2, 3, 4, 5, 7, 8, 15, 100, 255, -1, -2, -3, -7]


class G:
    def __init__(self, rnd):
        self.rnd = rnd

    def i(self, d=0, vals=(0, 1, 2, 3, 5, -1, -2, 7, 64, None)):
        r = self.rnd.random()
        if d > 0 and r < .3:
            return self.num(d - 1)
        return col(self.rnd.choice([1, 2, 3])) if r < .7 else L(self.rnd.choice(vals))

    def nz(self, *v):
        return L(self.rnd.choice(v))

    def small(self):
        """a small number, from a column or a literal"""
        return col(self.rnd.choice([1, 6])) if self.rnd.random() < .4 else L(self.rnd.choice([0, 1, 2, 3, 9, -1, -2, -9]))

    def s(self, d=0):
        """a text argument: a text, or a number standing for its own text"""
        if self.rnd.random() < .08:
            return {"k": "fn", "f": "txt", "l": [col(self.rnd.choice([1, 2, 3, 6])) if self.rnd.random() < .7 else L(self.rnd.choice([0, 1, 12, -2]))], "as": "%s"}
        return self.st(d)

    def st(self, d=0):
        """a text"""
        r = self.rnd.random()
        if d > 0 and r < .3:
            return self.text(d - 1)
        return col(self.rnd.choice([4, 5])) if r < .75 else L(self.rnd.choice(TXT))

    def ns(self):
        if self.rnd.random() < .06:
            return {"k": "fn", "f": "txt", "l": [L(self.rnd.choice([0, 1, 2, 5, 12]))], "as": "%s"}
        return L(self.rnd.choice(["a", "b", "X", ",", "ab", ".", "na", "an", "\u00e9", " "]))

    def num(self, d=1):
        rnd = self.rnd
        f = rnd.choice(["abs", "sign", "ceil", "ceiling", "floor", "round", "pow", "power", "greatest", "least", "length", "bit_length", "char_length", "character_length", "strcmp", "startswith",
                        "endswith", "contains", "field", "find_in_set", "ascii", "ord", "bit_and", "bit_or", "bit_xor", "shl", "shr", "inv", "regexp", "regexp_like", "regexp_instr", "sqrt2"])
        q = lambda: {"k": "ar", "o": "/", "a": self.i(), "b": self.nz(3, 7, -3)} if rnd.random() < .6 else self.i(d)
        pat = lambda: L(rnd.choice(["^a", "b$", "a.", "an*", "X", "a.*b", "^$", "b+", "c?b", "^.b", "na", "z"]))
        if f in ("abs", "sign", "ceil", "ceiling", "floor"):
            l = [q()]
        elif f == "round":       # not of a power: halves are binary fractions, which round to even
            d = 0
            l = [q()] + ([L(rnd.choice([0, 1, 2]))] if rnd.random() < .6 else [])
        elif f in ("pow", "power"):
            l = [col(6) if rnd.random() < .7 else self.nz(0, 2, -2, 3), self.nz(0, 1, 2, 3, -1, None)]
        elif f in ("greatest", "least"):
            l = [self.i(d) for _ in range(rnd.choice([2, 3, 4]))]
        elif f in ("length", "bit_length", "char_length", "character_length", "ascii", "ord"):
            l = [self.s(d)]
        elif f in ("strcmp", "startswith", "endswith", "contains"):
            l = [self.s(d), self.s() if rnd.random() < .5 else self.ns()]
            if rnd.random() < .12:       # a number beside its own text
                c = col(rnd.choice([1, 2, 6]))
                l = [{"k": "fn", "f": "txt", "l": [c], "as": "%s"}, {"k": "fn", "f": "concat", "l": [c]}]
                rnd.shuffle(l)
        elif f == "field":
            x = self.st if rnd.random() < .5 else self.i
            l = [x() for _ in range(rnd.choice([2, 3, 4]))]
        elif f == "find_in_set":
            l = [L(rnd.choice(["a", "b", "c", "ab", "zz", None])) if rnd.random() < .6 else self.s(), L(rnd.choice(["a,b,c", "c,b", ",a,,b", "ab", None])) if rnd.random() < .5 else self.s()]
        elif f in ("bit_and", "bit_or", "bit_xor"):
            l = [self.nn(), self.nn()]
        elif f in ("shl", "shr"):
            l = [self.nn(), self.nz(0, 1, 2, 5)]
        elif f == "inv":
            l = [self.i()]
        elif f == "sqrt2":
            l = [self.nn()]
        else:
            l = [self.s(), pat() if f != "regexp_instr" else L(rnd.choice(["^a", "b$", "an*", "X", "na", "z", "a.*b"]))] + ([L("c")] if f == "regexp_like" and rnd.random() < .4 else [])
        return {"k": "fn", "f": f, "l": l}

    def nn(self):
        return col(6) if self.rnd.random() < .6 else L(self.rnd.choice([0, 1, 2, 5, 12, 255]))

    def text(self, d=1):
        rnd = self.rnd
        f = rnd.choice(["concat", "concat_ws", "lower", "lcase", "upper", "ucase", "left", "right", "substring", "substr", "substring_index", "replace", "repeat", "reverse", "trim", "elt", "oct",
                        "char", "regexp_substr", "regexp_replace", "greatest", "least"])
        any_ = lambda: self.st(d) if rnd.random() < .7 else self.i()
        if f == "concat":
            l = [any_() for _ in range(rnd.choice([1, 2, 2, 3, 4]))]
        elif f == "concat_ws":
            l = [L(rnd.choice(["-", ", ", "", None]))] + [any_() for _ in range(rnd.choice([1, 2, 3, 4]))]
        elif f in ("left", "right"):
            l = [self.s(d), self.small()]
        elif f in ("substring", "substr"):
            l = [self.s(d), self.small()] + ([L(rnd.choice([0, 1, 2, 9, -1]))] if rnd.random() < .6 else [])
        elif f == "substring_index":
            l = [self.s(d), self.ns(), self.small()]
        elif f == "replace":
            l = [self.s(d), self.ns(), L(rnd.choice(["", "x", "aa", "Z-", None]))]
        elif f == "repeat":
            l = [self.s(), L(rnd.choice([0, 1, 2, 3, -1]))]
        elif f == "elt":
            l = [self.small()] + [self.st() for _ in range(rnd.choice([1, 2, 3]))]
        elif f == "oct":
            l = [self.nn()]
        elif f == "char":
            l = [L(rnd.choice([65, 97, 48])) for _ in range(rnd.choice([1, 2, 3]))]
        elif f in ("greatest", "least"):
            l = [self.st() for _ in range(rnd.choice([2, 3]))]
        elif f == "regexp_substr":
            l = [self.s(), L(rnd.choice(["a.", "an*", "X", "a.*b", "b+", "^.b", "na", "z"]))]
        elif f == "regexp_replace":
            l = [self.s(), L(rnd.choice(["a.", "an*", "X", "a.*b", "b+", "na", "z", "^a"])), L(rnd.choice(["", "-", "xy"]))]
        else:
            l = [self.s(d)]
        return {"k": "fn", "f": f, "l": l}


def cases(rnd, n, eng):
    sch = None
    for j in range(n):
        if j % 25 == 0:
            rows = [[i + 1, rnd.choice(INT), rnd.choice(INT), rnd.choice(TXT), rnd.choice(TXT), rnd.choice([None, 0, 1, 2, 3, 5, 6, 12])] for i in range(rnd.choice([3, 5, 8]))]
            sch = Schema("t", [("id", "id"), ("a", "i"), ("b", "i"), ("s", "s"), ("r", "s"), ("n", "i")], rows)
            yield "tabs", [sch]
        g = G(rnd)
        k = rnd.choice([1, 1, 2, 3])
        sel = [col(1)] + [g.num(rnd.choice([0, 1])) if rnd.random() < .5 else g.text(rnd.choice([0, 1])) for _ in range(k)]
        where = TRUE
        if rnd.random() < .25:
            e = g.num(0) if rnd.random() < .5 else g.text(0)
            txt = e["f"] in TEXTF or e["f"] in ("greatest", "least") and any(x["k"] == "col" and x["i"] in (4, 5) or x["k"] == "lit" and x["v"][0] == 2 for x in e["l"])
            where = {"k": "cmp", "o": rnd.choice(["=", "!=", "<", ">="]), "a": e, "b": (L(rnd.choice(["a", "b", "ab", ""])) if txt else L(rnd.choice([0, 1, 2])))} if rnd.random() < .8 else {"k": rnd.choice(["isnull", "notnull"]), "a": e}
        yield "q", select(sel, ["id"] + ["o%d" % i for i in range(k)], [table("t", sch.names)], where=where)


TEXTF = ("concat", "concat_ws", "lower", "lcase", "upper", "ucase", "left", "right", "substring", "substr", "substring_index", "replace", "repeat", "reverse", "trim", "elt", "oct", "char", "regexp_substr", "regexp_replace")


def tasks(prop, tier, seed):
    k, n = (32, 350) if tier == "quick" else (160, 600)
    return [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]
