"""Dates and times."""
import datetime
from gen import Schema, ExprGen
from q import L, TRUE, col, cols_used, pushdown, select, table
from vals import NULL

LEVEL = "model_checking"
RULE = ("random tables of date and datetime texts (month ends, leap days, year ends, unreadable texts, NULL), stored dates and datetimes and numbers; every date function, interval and conversion, nested, "
        "in select items, WHERE, GROUP BY, ORDER BY, aggregates and join keys; non-trivial: result not empty or two rows in t")
UNITS = ["YEAR", "QUARTER", "MONTH", "WEEK", "DAY", "HOUR", "MINUTE", "SECOND"]
FIELDS = ["year", "month", "dayofmonth", "dayofyear", "weekday", "dayofweek", "week", "yearweek", "unix_timestamp"]
FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y%m", "%d/%m/%y", "%j", "%H%M", "%a %d %b %Y", "%A, %B %d", "week %U of %Y", "%w%%", "plain"]


def day(rnd):
    r = rnd.random()
    if r < .5:
        y, m, d = rnd.choice([(2024, 2, 29), (2023, 12, 31), (2024, 1, 1), (2024, 1, 31), (2024, 12, 31), (2000, 2, 29), (2023, 2, 28), (2024, 3, 1), (2023, 11, 30), (2024, 3, 31), (1999, 12, 1), (2025, 1, 5), (2024, 6, 30)])
        return datetime.date(y, m, d)
    return datetime.date(rnd.choice([1999, 2000, 2001, 2023, 2024, 2024, 2025]), rnd.randint(1, 12), rnd.randint(1, 28))


def tod(rnd):
    return rnd.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1), (rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59))])


def tabs(rnd):
    n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 8])
    rows = []
    days = [day(rnd) for _ in range(rnd.choice([2, 3, 5, 9]))]
    for i in range(n):
        r = [i + 1]
        r.append(rnd.choice([None, "", "abc", "2023-02-29", "2024-13-01"]) if rnd.random() < .2 else rnd.choice(days).isoformat())
        h = "%s%s%02d:%02d:%02d" % ((rnd.choice(days).isoformat(), rnd.choice("  T")) + tod(rnd))
        r.append(rnd.choice([None, "", "2024-04-31 10:00:00", "2024-01-01 25:00:00"]) if rnd.random() < .12 else h)
        r.append(None if rnd.random() < .15 else rnd.choice(days))
        r.append(None if rnd.random() < .15 else datetime.datetime(*(rnd.choice(days).timetuple()[:3] + tod(rnd)), tzinfo=datetime.timezone.utc))
        r.append(None if rnd.random() < .15 else rnd.choice([0, 1, -1, 2, 5, 11, 12, 13, 24, 30, -11, 100]))
        rows.append(r)
    t = Schema("t", [("id", "id"), ("d", "s"), ("h", "s"), ("e", "d"), ("g", "dt"), ("k", "i")], rows)
    u = Schema("u", [("id", "id"), ("d", "s"), ("e", "d"), ("m", "i")],
               [[i + 1, rnd.choice(days).isoformat(), rnd.choice(days + [None]), rnd.choice([0, 1, 2, 12])] for i in range(rnd.choice([0, 1, 2, 4]))])
    return [t, u]


def fn(f, l, sql, args=None):
    e = {"k": "fn", "f": f, "l": l, "as": sql}
    return e if args is None else dict(e, shown=args)


class Gen(ExprGen):
    """types: d date, dt datetime, ti time, i number, s text"""
    D = 2

    def any(self, depth):
        """something readable as a date: text, date or datetime"""
        return self.make(self.rnd.choice(["s", "s", "d", "dt"]), depth)

    def leaf(self):
        return col(self.rnd.choice([2, 3, 4, 5]))

    def make(self, t, depth):
        rnd = self.rnd
        c = lambda *n: col(rnd.choice(n))
        if t == "s":
            r = rnd.random()
            if r < .85:
                return c(2, 3)
            return L(rnd.choice(["2024-02-29", "2023-12-31 23:59:59", "2024-01-31T00:00:00", "nothing", "2024-00-10"]))
        if t == "k":
            r = rnd.random()
            if r < .5:
                return L(rnd.choice([0, 1, 2, 3, 11, 12, 13, 25, 31]))
            if r < .65:
                return {"k": "neg", "a": L(rnd.choice([1, 2, 12, 13]))}
            if r < .9:
                return col(6)
            return {"k": "ar", "o": rnd.choice(["+", "*"]), "a": col(6), "b": L(rnd.choice([1, 2]))}
        if t == "i":
            k = rnd.choice(["field", "field", "field", "datediff", "tsdiff", "tts", "col"]) if depth > 0 else rnd.choice(["field", "col"])
            if k == "field":
                f = rnd.choice(FIELDS)
                if f in ("week", "yearweek") and rnd.random() < .5:
                    return fn(f + "1", [self.any(depth - 1)], f.upper() + "(%s,1)")
                return fn(f, [self.any(depth - 1) if f != "unix_timestamp" else self.leaf()], f.upper() + "(%s)")
            if k == "datediff":
                return fn("datediff", [self.any(depth - 1), self.any(depth - 1)], "DATEDIFF(%s,%s)")
            if k == "tsdiff":
                u = rnd.randint(0, 7)
                a = (lambda: self.any(depth - 1)) if u < 7 else self.leaf       # the specification's numbers have 31 bits
                return fn("tsdiff", [L(u + 1), a(), a()], "TIMESTAMPDIFF(%s,%%s,%%s)" % (rnd.choice(["'%s'", "%s"]) % rnd.choice([UNITS[u], UNITS[u].lower()])), [1, 2])
            if k == "tts":
                a = L(rnd.choice(["10:11:00", "00:00:59", "23:59:59", "x"])) if rnd.random() < .2 else self.make(rnd.choice(["ti", "dt"]), depth - 1)
                return fn("time_to_sec", [a], "TIME_TO_SEC(%s)")
            return col(6)
        if t == "txt":
            k = rnd.choice(["fmt", "fmt", "name", "stt", "text"])
            if k == "fmt":
                f = rnd.choice(FORMATS)
                return fn("date_format", [self.any(depth - 1), L(f)], "DATE_FORMAT(%s,%s)")
            if k == "name":
                f = rnd.choice(["dayname", "monthname"])
                return fn(f, [self.any(depth - 1)], f.upper() + "(%s)")
            if k == "stt":
                return fn("sec_to_time", [{"k": "ar", "o": "*", "a": col(6), "b": L(rnd.choice([1, 59, 60, 3599, 4000]))}], "SEC_TO_TIME(%s)")
            a = self.make(rnd.choice(["d", "dt"]), depth - 1)
            return rnd.choice([lambda: fn("to_text", [a], rnd.choice(["CAST(%s AS CHAR)", "CONVERT_STRING(%s)"])),
                               lambda: fn("concat", [a, L("x")], "CONCAT(%s,%s)"), lambda: fn("left", [a, L(rnd.choice([4, 7, 10]))], "LEFT(%s,%s)")])()
        if t == "ti":
            return fn("time", [self.any(depth - 1)], "TIME(%s)")
        if depth <= 0:
            if rnd.random() < .5:
                return col(4 if t == "d" else 5)
            a = self.make("s", 0)
            return fn("date", [a], rnd.choice(["DATE(%s)", "CAST(%s AS DATE)", "CONVERT_DATE(%s)"])) if t == "d" else \
                fn("datetime", [a], rnd.choice(["DATETIME(%s)", "CAST(%s AS DATETIME)", "CAST(%s AS TIMESTAMP)", "CONVERT_DATETIME(%s)", "CONVERT_TIMESTAMP(%s)"]))
        k = rnd.choice(["conv", "add", "add", "add", "at", "fu", "if", "coalesce"])
        if k == "conv":
            a = self.any(depth - 1)
            return fn("date", [a], "DATE(%s)") if t == "d" else fn("datetime", [a], "DATETIME(%s)")
        if k == "add":
            sub = rnd.random() < .45
            u = rnd.randint(0, 4) if t == "d" else rnd.randint(0, 7)
            a = self.make("d", depth - 1) if t == "d" else self.make(rnd.choice(["s", "dt"]), depth - 1)
            n = self.make("k", 0)
            if n["k"] != "ar" and rnd.random() < .2 and u == 4:
                return fn("sub" if sub else "add", [a, n, L(5)], rnd.choice(["SUBDATE", "DATE_SUB"] if sub else ["ADDDATE", "DATE_ADD"]) + "(%s,%s)", [0, 1]) \
                    if n["k"] != "neg" else self.make(t, depth)
            iv = "INTERVAL %s " + rnd.choice([UNITS[u], UNITS[u], UNITS[u].lower()])
            sql = rnd.choice([lambda: "(%%s %s %s)" % ("-" if sub else "+", iv), lambda: "%s(%%s, %s)" % (rnd.choice(["DATE_SUB", "SUBDATE"] if sub else ["DATE_ADD", "ADDDATE"]), iv)])()
            if n["k"] == "lit" and rnd.random() < .3:
                sql = sql.replace("INTERVAL %s", "INTERVAL '%s'")
            return fn("sub" if sub else "add", [a, n, L(u + 1)], sql, [0, 1])
        if k == "at" and t == "dt":
            sub = rnd.random() < .4
            d, h, m, s = rnd.choice([0, 0, 1, 2]), rnd.choice([0, 1, 10, 23, 30]), rnd.choice([0, 1, 59]), rnd.choice([0, 1, 30])
            text = "%s%02d:%02d:%02d" % ("%d " % d if d else "", h, m, s)
            if d and not s and rnd.random() < .5:
                text = "%d %02d:%02d" % (d, h, m)
            return fn("subtime" if sub else "addtime", [self.make(rnd.choice(["s", "dt"]), depth - 1), L(d), L(h), L(m), L(s)],
                      "%s(%%s,'%s')" % ("SUBTIME" if sub else "ADDTIME", text), [0])
        if k == "fu" and t == "dt":
            return fn("from_unixtime", [{"k": "ar", "o": "*", "a": col(6), "b": L(rnd.choice([1, 3600, 86400, 999999]))}] if rnd.random() < .5 else
                      [fn("unix_timestamp", [self.leaf()], "UNIX_TIMESTAMP(%s)")], "FROM_UNIXTIME(%s)")
        if k == "if":
            return {"k": "if", "c": self.cond(depth - 1), "a": self.make(t, depth - 1), "b": self.make(t, depth - 1)}
        if k == "coalesce":
            return {"k": "coalesce", "l": [self.make(t, depth - 1), self.make(t, depth - 1)], "ifnull": True}
        return self.make(t, depth - 1)

    def value(self, t, depth=1):
        return self.make("txt" if t == "s" else t, depth)

    def cond(self, depth):
        rnd = self.rnd
        r = rnd.random()
        if r < .15 and depth > 0:
            return {"k": rnd.choice(["and", "or"]), "a": self.cond(depth - 1), "b": self.cond(depth - 1)}
        if r < .25:
            return {"k": rnd.choice(["isnull", "notnull"]), "a": self.make(rnd.choice(["d", "dt"]), 1)}
        t = rnd.choice(["d", "dt", "d", "i", "ti"])
        a = self.make(t, max(depth, 0))
        if t == "i":
            return {"k": "cmp", "o": rnd.choice(["=", "!=", "<", ">="]), "a": a, "b": L(rnd.choice([1, 2, 5, 12, 31, 2024]))}
        if r < .4 and t != "ti":
            return {"k": rnd.choice(["in", "notin"]), "a": a, "l": [self.make(t, 0) for _ in range(rnd.choice([1, 2, 3]))]}
        if r < .5:
            return {"k": "btw", "a": a, "lo": self.make(t, 0), "hi": self.make(t, 0)}
        return {"k": "cmp", "o": rnd.choice(["=", "!=", "<", "<=", ">", ">="]), "a": a, "b": self.make(t, 0)}


def keyed(make):
    """a join key: it has to name a column of the first table"""
    while True:
        e = make()
        if cols_used(e):
            return e


def cases(rnd, n, eng):
    ts = None
    for i in range(n):
        if i % 20 == 0:
            ts = tabs(rnd)
            yield "tabs", ts
        t, u = ts
        g = Gen(rnd, [])
        T = lambda: rnd.choice(["d", "dt", "i", "s", "ti", "d", "dt"])
        where = pushdown(g.cond(rnd.choice([0, 1, 2])), 6) if rnd.random() < .4 else TRUE
        alias = "x" if rnd.random() < .25 else ""
        frm = [table("t", t.names, alias)]
        r = rnd.random()
        if r < .55:
            m = rnd.choice([1, 2, 3])
            ty = [T() for _ in range(m)]
            sel = [g.value(x, rnd.choice([0, 1, 2, 3])) for x in ty]
            q = select(sel + [col(1)], ["o%d" % j for j in range(m)] + ["z9"], frm, where=where)
            if rnd.random() < .5:
                ks = list(range(m))
                rnd.shuffle(ks)
                q["order"] = [{"i": j + 1, "d": int(rnd.random() < .45), "e": L(None)} for j in ks[:rnd.choice([1, 2])]]
                if rnd.random() < .4:
                    q["lim"] = rnd.choice([1, 2, 3])
            elif rnd.random() < .3:
                q["order"] = [{"i": 0, "e": col(rnd.choice([4, 5])), "d": int(rnd.random() < .5)}]
        elif r < .75:
            key = g.value(T(), rnd.choice([0, 1, 2]))
            aggs = []
            for j in range(rnd.choice([1, 2])):
                f = rnd.choice(["count*", "min", "max", "min", "max", "count", "countd"])
                ty = rnd.choice(["d", "dt", "i"])
                aggs.append({"k": "agg", "f": f, "a": g.value(ty, rnd.choice([0, 1]))} if f != "count*" else {"k": "agg", "f": f})
            q = select([key] + aggs, ["gk"] + ["o%d" % j for j in range(len(aggs))], frm, where=where, group=[key])
            if rnd.random() < .5:
                q["grouptext"] = ["gk"]
            if rnd.random() < .3:
                q["order"] = [{"i": 1, "d": int(rnd.random() < .5), "e": L(None)}]
        elif r < .85:
            q = select([g.value(T(), 1) for _ in range(rnd.choice([1, 2]))], ["o1", "o2"], frm, where=where, distinct=1)
            q["names"] = q["names"][:len(q["sel"])]
        else:
            key, kc = (keyed(lambda: g.make("d", 1)), 9) if rnd.random() < .5 else (keyed(lambda: g.value("i", 1)), 10)
            kind = rnd.choice(["left", "inner"])
            frm = [table("t", t.names, "x"), table("u", u.names, "y", kind, {"k": "icmp" if kind == "inner" else "kcmp", "a": col(kc), "b": key})]
            q = select([col(1), col(7), g.value(T(), 1), fn("add", [col(8), col(10), L(rnd.randint(1, 8))], "", [0, 1])], ["o1", "o2", "o3", "o4"], frm, where=where)
            q["sel"][3]["as"] = "(%%s + INTERVAL %%s %s)" % UNITS[q["sel"][3]["l"][2]["v"][1] - 1]
        yield "q", q


def tasks(prop, tier, seed):
    k, n = (32, 220) if tier == "quick" else (160, 400)
    return [(__name__, "laws", (prop,))] + [("qcheck", "chunk", (prop, __name__, tier, seed, c, n)) for c in range(k)]


def laws(prop):
    """the calendar's own laws, for every day of 68 years"""
    from campaign import Result
    import tlc
    res = Result()
    rc, out = tlc.run("CalendarMC", timeout=600)
    if rc != 0 or "No error has been found" not in out:
        raise tlc.TLCError("CalendarMC broke (rc %s)\n%s" % (rc, out[-1500:]))
    res.states, _ = tlc.stats(out)
    return res
