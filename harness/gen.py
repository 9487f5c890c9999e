"""Random tables, expressions and queries (seeded)."""
from vals import num, txt, NULL, dec
from q import L, col, table, select, subq, TRUE

INTS = [None, 0, 1, 2, 3]
STRS = [None, "", "a", "ab", "b", "B"]


class Schema:
    """A table: name, columns [(name, type)], rows as spec-independent python lists."""

    def __init__(self, name, cols, rows):
        self.name, self.cols, self.rows = name, cols, rows

    @property
    def names(self):
        return [c for c, _ in self.cols]

    def dicts(self):
        return [dict(zip(self.names, r)) for r in self.rows]

    def install(self, eng):
        eng.put(self.name, self.dicts())

    def spec(self):
        from vals import enc
        return [[enc(v) for v in r] for r in self.rows]


def rows(rnd, cols, n, ids=None):
    out = []
    for i in range(n):
        r = []
        for c, t in cols:
            if t == "id":
                r.append(i + 1)
            elif t == "i":
                r.append(rnd.choice(INTS))
            elif t == "ni":
                r.append(rnd.choice([0, 1, 2, 3]))
            elif t == "s":
                r.append(rnd.choice(STRS))
        out.append(r)
    if rnd.random() < .5:
        rnd.shuffle(out)
    return out


def tables(rnd, maxn=7):
    a = [("id", "id"), ("a", "i"), ("b", "i"), ("s", "s")]
    u = [("id", "id"), ("a", "i"), ("c", "i"), ("s", "s")]
    w = [("id", "id"), ("c", "i"), ("d", "i")]
    return [Schema("t", a, rows(rnd, a, rnd.choice([0, 1, 2, 3, 4, 5, 6, maxn]))),
            Schema("u", u, rows(rnd, u, rnd.choice([0, 1, 2, 3, 4, 5]))),
            Schema("w", w, rows(rnd, w, rnd.choice([0, 1, 2, 3, 4])))]


class ExprGen:
    """cols: list of (depth, index, type); types i (number) / s (text)."""

    def __init__(self, rnd, cols):
        self.rnd, self.cols = rnd, cols

    def column(self, t):
        c = [x for x in self.cols if (x[2] in ("i", "id", "ni")) == (t == "i")]
        if not c:
            return L(self.rnd.choice([0, 1, 2, 3]) if t == "i" else self.rnd.choice(["a", "b"]))
        d, i, _ = self.rnd.choice(c)
        return col(i, d)

    def fn(self, t, depth=0):
        """a library function (Funcs.tla) over columns and literals"""
        rnd = self.rnd
        i, s = (lambda: self.atom("i", depth)), (lambda: self.atom("s", depth))
        n = lambda *v: L(rnd.choice(v))
        if t == "i":
            f = rnd.choice(["greatest", "least", "greatest", "least", "abs", "sign", "char_length", "length", "strcmp", "startswith", "endswith",
                            "contains", "field", "find_in_set", "ascii", "regexp", "round", "floor", "ceil"])
            if f in ("greatest", "least"):
                l = [i() for _ in range(rnd.choice([2, 3, 3, 4]))]
            elif f in ("abs", "sign", "round", "floor", "ceil"):
                l = [{"k": "ar", "o": "-", "a": i(), "b": i()}]
            elif f == "mod":
                l = [i(), n(2, 3)]
            elif f in ("char_length", "length", "ascii"):
                l = [s()]
            elif f == "field":
                l = [s()] + [s() for _ in range(rnd.choice([2, 3]))] if rnd.random() < .5 else [i()] + [i() for _ in range(rnd.choice([2, 3]))]
            elif f == "find_in_set":
                l = [n("a", "b", "ab"), s()] if rnd.random() < .2 else [s(), n("a,b", "b,ab,a", "B")]
            elif f == "regexp":
                l = [s(), n("^a", "b$", "a.", "a*b", "B")]
            else:
                l = [s(), s() if rnd.random() < .6 else n("a", "b")]
        else:
            f = rnd.choice(["concat", "concat", "concat_ws", "lower", "upper", "left", "right", "substring", "substring_index", "replace", "repeat", "reverse", "elt"])
            txt = lambda: s() if rnd.random() < .7 else self.atom("i", 0)
            if f == "concat":
                l = [txt() for _ in range(rnd.choice([2, 2, 3]))]
            elif f == "concat_ws":
                l = [n("-", ",")] + [txt() for _ in range(rnd.choice([1, 2, 3]))]
            elif f in ("left", "right"):
                l = [s(), self.atom("i", 0)]
            elif f == "substring":
                l = [s(), n(1, 2, -1, -2)] + ([n(0, 1, 2)] if rnd.random() < .5 else [])
            elif f == "substring_index":
                l = [s(), n("a", "b"), n(1, 2, -1)]
            elif f == "replace":
                l = [s(), n("a", "b"), n("x", "", "ab")]
            elif f == "repeat":
                l = [s(), n(0, 1, 2)]
            elif f == "elt":
                l = [self.atom("i", 0)] + [s() for _ in range(rnd.choice([1, 2, 3]))]
            else:
                l = [s()]
        return {"k": "fn", "f": f, "l": l}

    def atom(self, t, depth=0):
        if depth > 0 and self.rnd.random() < .4:
            return self.value(t, depth - 1)
        if self.rnd.random() < .75:
            return self.column(t)
        return L(self.rnd.choice([0, 1, 2, 3, 5]) if t == "i" else self.rnd.choice(["a", "ab", "b", "", "B"]))

    def inlist(self, t, consts=False):
        """IN list: literals, NULL, and columns unless consts"""
        rnd = self.rnd
        l = [L(rnd.choice([0, 1, 2, 3]) if t == "i" else rnd.choice(["a", "b", "ab"])) for _ in range(rnd.randint(1, 3))]
        if not consts:
            if rnd.random() < .3:
                l[rnd.randrange(len(l))] = self.column(t)
            if rnd.random() < .35:
                l.insert(rnd.randint(0, len(l)), L(None))
        return l

    def value(self, t, depth=1):
        r = self.rnd.random()
        if depth > 0 and self.rnd.random() < .18:
            return self.fn(t, depth - 1)
        if r < .6 or depth <= 0:
            return self.column(t) if r < .42 or depth > 0 else L(self.rnd.choice([0, 1, 2, 3]) if t == "i" else self.rnd.choice(["a", "ab", "b", ""]))
        if t == "i" and r < .8:
            o = self.rnd.choice(["+", "-", "*", "+", "-"])
            return {"k": "ar", "o": o, "a": self.value(t, depth - 1), "b": self.value(t, depth - 1)}
        if r < .87:
            return {"k": "coalesce", "l": [self.value(t, depth - 1), self.value(t, depth - 1)], "ifnull": self.rnd.random() < .6}
        if r < .93:
            return {"k": "if", "c": self.pred(depth - 1), "a": self.value(t, depth - 1), "b": self.value(t, depth - 1)}
        return {"k": "case", "w": [{"c": self.pred(depth - 1), "v": self.value(t, depth - 1)}], "e": self.value(t, depth - 1)}

    def simple(self):
        """a comparison of a column with a constant: what is pushed down to the loader"""
        t = self.rnd.choice(["i", "i", "s"])
        c = self.column(t)
        v = L(self.rnd.choice([0, 1, 2, 3, 5]) if t == "i" else self.rnd.choice(["a", "ab", "b", "", "zz"]))
        r = self.rnd.random()
        if r < .6:
            o = self.rnd.choice(["=", "!=", "<", "<=", ">", ">="])
            return {"k": "cmp", "o": o, "a": v, "b": c} if self.rnd.random() < .12 else {"k": "cmp", "o": o, "a": c, "b": v}
        if r < .8:
            return {"k": "in", "a": c, "l": [L(self.rnd.choice([0, 1, 2, 3]) if t == "i" else self.rnd.choice(["a", "b"])) for _ in range(self.rnd.randint(1, 3))]}
        return {"k": self.rnd.choice(["isnull", "notnull"]), "a": c}

    def pred(self, depth=2):
        r = self.rnd.random()
        if depth <= 0 or r < .3:
            return self.simple()
        if r < .6:
            k = "and" if r < .45 else "or"
            e = {"k": k, "a": self.pred(depth - 1), "b": self.pred(depth - 1)}
            while self.rnd.random() < .35:      # a OR b OR c ...
                e = {"k": k, "a": e, "b": self.pred(0 if self.rnd.random() < .7 else depth - 1)}
            return e
        if r < .68:
            return {"k": "not", "a": self.pred(depth - 1)}
        t = self.rnd.choice(["i", "i", "s"])
        if r < .84:
            return {"k": "cmp", "o": self.rnd.choice(["=", "!=", "<", "<=", ">", ">="]), "a": self.value(t), "b": self.value(t)}
        if r < .88:
            return {"k": "btw", "a": self.value(t), "lo": L(self.rnd.choice([0, 1]) if t == "i" else "a"), "hi": L(self.rnd.choice([1, 2]) if t == "i" else "b")}
        if r < .92:
            if self.rnd.random() < .15:     # a number stands for its text
                return {"k": "like", "a": {"k": "fn", "f": "txt", "l": [self.column("i")], "as": "%s"}, "b": L(self.rnd.choice(["1%", "%2", "_", "%", "1", "__", "%0%"]))}
            return {"k": "like", "a": self.column("s"), "b": L(self.rnd.choice(["a%", "%b", "_", "a_", "%", "%a%"]))}
        if r < .96:
            return {"k": self.rnd.choice(["in", "in", "notin"]), "a": self.value(t), "l": self.inlist(t)}
        return {"k": self.rnd.choice(["isnull", "notnull"]), "a": self.value(t)}


class RichGen(ExprGen):
    """every scalar construct, nested"""

    def value(self, t, depth=1):
        rnd = self.rnd
        if depth <= 0:
            return self.column(t) if rnd.random() < .65 else L(rnd.choice([0, 1, 2, 3, 7] + [None] * (rnd.random() < .3)) if t == "i" else rnd.choice(["a", "ab", "b", ""]))
        k = rnd.choice(["leaf", "ar", "ar", "coalesce", "if", "case", "scase", "neg", "bit", "pred", "pred", "fn", "fn"] if t == "i" else
                       ["leaf", "coalesce", "if", "case", "scase", "fn", "fn"])
        sub = lambda tt=t: self.value(tt, depth - 1)
        if k == "leaf":
            return self.value(t, 0)
        if k == "ar":
            return {"k": "ar", "o": rnd.choice(["/", "%"]), "a": self.value("i", 0), "b": self.value("i", 0)} if rnd.random() < .3 else \
                {"k": "ar", "o": rnd.choice(["+", "-", "*"]), "a": sub(), "b": sub()}
        if k == "fn":
            return self.fn(t, depth - 1)
        if k == "neg":
            return {"k": "neg", "a": sub()}
        if k == "bit":
            return {"k": "bit", "o": rnd.choice(["and", "or", "xor"]), "a": self.value("i", 0), "b": self.value("i", 0)}
        if k == "coalesce":
            n = rnd.choice([1, 2, 2, 3, 4])
            return {"k": "coalesce", "l": [sub() for _ in range(n)], "ifnull": rnd.random() < .6}
        if k == "if":
            return {"k": "if", "c": self.pred(depth - 1), "a": sub(), "b": sub()}
        if k == "case":
            ne = rnd.random() < .3
            return {"k": "case", "w": [{"c": self.pred(depth - 1), "v": sub()} for _ in range(rnd.choice([1, 2, 3]))],
                    "e": L(None) if ne else sub(), "noelse": ne}
        if k == "scase":
            tt = rnd.choice(["i", "s"])
            mk = (lambda: L(rnd.choice([0, 1, 2, 3]) if tt == "i" else rnd.choice(["a", "b", "ab", ""]))) if rnd.random() < .6 else (lambda: self.value(tt, 0))
            return {"k": "scase", "a": self.value(tt, depth - 1), "w": [{"c": mk(), "v": sub()} for _ in range(rnd.choice([1, 2, 3]))], "e": sub()}
        p = self.pred(depth - 1)
        return p if p["k"] in ("isnull", "notnull") or depth < 2 else {"k": "not", "a": p} if rnd.random() < .3 else p


def cols_of(sch, base=0, d=0):
    return [(d, base + i + 1, t) for i, (_, t) in enumerate(sch.cols)]
