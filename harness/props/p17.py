"""Settings come from the nearest place that has them: files, custom configuration, engine, contexts, executed files."""
import ast
import contextlib
import io
import json
import os
import shutil
import sqlite3
import sys

import tlc
from campaign import Result, h, rng

LEVEL = "model_checking"
RULE = ("random configurations in up to four files, extended files, init scripts and a custom configuration; then histories of USE, SET, SET GLOBAL, raw views and executed files at the engine and two contexts; "
        "after each, every level is asked for its databases and imports and a sample of them is used; non-trivial: all")
ALIASES = ["m", "n"]
MODS = ["verif_m%d" % i for i in range(1, 5)]
DBS = {"d": "json", "e": "json", "q": "sqlite"}
PATHS = {"json": ["p1", "p2", "p3"], "sqlite": ["q1.db", "q2.db"]}
PAR = {"json": "path", "sqlite": "database"}
VIEWS = ["v", "w"]
ENC = {"latin-1": b"\xe9", "cp437": b"\x82", "utf-8": b"\xc3\xa9"}
FORMATS = {"datetime_format": ["A%Y-%m-%d %H:%M:%S", "B%Y-%m-%d %H:%M:%S"], "date_format": ["A%Y-%m-%d", "B%Y-%m-%d"], "time_format": ["A%H:%M:%S", "B%H:%M:%S"]}
WHEN = {"datetime_format": "2024-01-02 03:04:05", "date_format": "2024-01-02", "time_format": "03:04:05"}


class World:
    def __init__(self):
        import impl
        self.impl = impl
        self.root = os.path.join(impl.SCRATCH, "conf")
        shutil.rmtree(self.root, ignore_errors=True)
        for d in ("home", "cwd", "mods", "p1", "p2", "p3"):
            os.makedirs(os.path.join(self.root, d))
        for m in MODS:
            with open(os.path.join(self.root, "mods", m + ".py"), "w") as f:
                f.write("Tag = %r\n" % m)
        sys.path.append(os.path.join(self.root, "mods"))
        for p in PATHS["json"]:
            with open(os.path.join(self.root, p, "t.json"), "w") as f:
                json.dump([{"tag": p}], f)
        for p in PATHS["sqlite"]:
            db = sqlite3.connect(os.path.join(self.root, p))
            db.execute("create table t(tag)")
            db.execute("insert into t values(?)", (p,))
            db.commit()
            db.close()
        sys.modules["rich"] = None          # SHOW prints plain text
        self.n = 0

    def path(self, p):
        return os.path.join(self.root, p)

    def config(self, cfg):
        out = {}
        if cfg["imp"]:
            out["imports"] = dict(cfg["imp"])
        out.update(cfg["oth"])
        if cfg["dbs"]:
            out["databases"] = []
            for d, c in cfg["dbs"].items():
                x = dict({"name": d}, **{k: (self.path(v) if k != "driver" else v) for k, v in c["par"].items()})
                if c["views"]:
                    x["virtual_views"] = [{"name": v, "query": "select '%s' as tag" % t, "args": []} for v, t in c["views"].items()]
                out["databases"].append(x)
        return out

    def dump(self, name, data, yaml):
        with open(name, "w") as f:
            json.dump(data, f)      # JSON is YAML

    def start(self, files):
        for d in ("home", "cwd"):
            for f in os.listdir(self.path(d)):
                os.remove(os.path.join(self.path(d), f))
        custom = None
        for f in files:
            data = self.config(f["cfg"])
            if f["extends"]:
                data["extends"] = []
                for i, x in enumerate(f["extends"]):
                    name = os.path.join(self.path("cwd"), "ext_%s_%d.json" % (f["place"].replace("/", "_").replace(".", "_"), i))
                    self.dump(name, self.config(x["cfg"]), False)
                    data["extends"].append(name)
            if f["scripts"]:
                data["executes"] = []
                for i, sql in enumerate(f["scripts"]):
                    name = "init_%s_%d.sql" % (f["place"].replace("/", "_").replace(".", "_"), i)
                    with open(os.path.join(self.path("home" if f["inhome"] else "cwd"), name), "w") as o:
                        o.write(sql)
                    data["executes"].append(name)
            if f["place"] == "custom":
                custom = data
            else:
                self.dump(self.path(f["place"]), data, f["place"].endswith("yaml"))
        os.environ["SYNCANY_HOME"] = self.path("home")
        os.chdir(self.path("cwd"))
        from syncanysql import ScriptEngine
        with self.impl.Engine._quiet(self):
            self.e = ScriptEngine(custom)
            self.e.setup()
        self.ctx = {"m": self.e, "x": self.e.context(), "y": self.e.context()}

    @property
    def out(self):
        return io.StringIO()

    def run(self, lvl, sql):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), self.impl.limit(20):
                self.ctx[lvl].execute(sql)
        finally:
            self.impl.logging.disable(self.impl.logging.CRITICAL)
        return out.getvalue()

    def read(self, text):
        """the output of SHOW IMPORTS; SHOW DATABASES"""
        cfg = {"imp": {}, "oth": {}, "dbs": {}}
        part = None
        for line in text.splitlines():
            cells = line.split("\t")
            if cells == ["name", "alias"]:
                part = "imp"
            elif cells == ["name", "driver", "params", "virtual_views"]:
                part = "dbs"
            elif part == "imp" and len(cells) == 2:
                cfg["imp"][cells[1]] = next((m for m in MODS if m in cells[0]), cells[0])
            elif part == "dbs" and len(cells) == 4 and cells[0] not in ("-", "--"):
                par = {k: os.path.basename(v) for k, v in ast.literal_eval(cells[2]).items() if k in PAR.values()}
                par["driver"] = cells[1]
                views = {v["name"]: v["query"].split("'")[1] if "'" in v["query"] else v["query"] for v in ast.literal_eval(cells[3])} if cells[3] else {}
                cfg["dbs"][cells[0]] = {"par": par, "views": views}
        return cfg

    def one(self, lvl, sql, col):
        self.e.pop_memory_datas("pr")
        try:
            self.run(lvl, "INSERT INTO `pr` " + sql)
        except Exception as x:
            return "%s: %s" % (type(x).__name__, str(x)[:100])
        rows = self.e.pop_memory_datas("pr")
        return rows[0].get(col) if len(rows) == 1 else repr(rows)

    def observe(self, lvl, rnd):
        cfg = self.read(self.run(lvl, "SHOW IMPORTS; SHOW DATABASES"))
        for k in list(cfg["imp"]):
            if rnd.random() < .5:
                cfg["imp"][k] = self.one(lvl, "SELECT %s$tag() AS o" % k, "o")
        for d, c in cfg["dbs"].items():
            drv = c["par"]["driver"]
            # (the syncany package keeps one connection per database name: what an sqlite connection points to is not asked)
            if drv == "json" and c["par"].get("path") and rnd.random() < .4:
                c["par"]["path"] = self.one(lvl, "SELECT tag FROM %s.`t.json`" % d, "tag")
            for v in c["views"]:
                if rnd.random() < .4:
                    c["views"][v] = self.one(lvl, "SELECT tag FROM %s.%s" % (d, v), "tag")
        cfg["oth"] = self.formats(lvl)
        return cfg

    def formats(self, lvl):
        name = self.path("cwd/o.csv")
        if os.path.exists(name):
            os.remove(name)
        self.run(lvl, "INSERT INTO `o.csv` SELECT convert_datetime('2024-01-02 03:04:05') AS a, convert_date('2024-01-02') AS b, convert_time('03:04:05') AS c, 'é' AS d")
        with open(name, "rb") as f:
            data = f.read().split(b"\r\n")[1].split(b",")
        out = {}
        for k, x in zip(sorted(FORMATS, key=lambda k: ["datetime_format", "date_format", "time_format"].index(k)), data[:3]):
            t = x.decode("ascii", "replace").strip('"')
            if t not in (WHEN[k], "2024-01-02T03:04:05+00:00"):
                out[k] = t[0] + FORMATS[k][0][1:] if t[1:] == WHEN[k] else t
        enc = next((k for k, b in ENC.items() if b == data[3].strip(b'"')), repr(data[3]))
        if enc != "utf-8":
            out["encoding"] = enc
        return out


def gen_cfg(rnd, dbs, dense=.4):
    cfg = {"imp": {}, "oth": {}, "dbs": {}}
    for a in ALIASES:
        if rnd.random() < dense:
            cfg["imp"][a] = rnd.choice(MODS)
    for k in FORMATS:
        if rnd.random() < dense * .5:
            cfg["oth"][k] = rnd.choice(FORMATS[k])
    if rnd.random() < dense * .4:
        cfg["oth"]["encoding"] = rnd.choice(["latin-1", "cp437"])
    for d in dbs:
        if rnd.random() < dense:
            t = DBS[d]
            par = {"driver": t}
            if rnd.random() < .7:
                par[PAR[t]] = rnd.choice(PATHS[t])
            views = {v: rnd.choice("ABC") for v in VIEWS if t == "sqlite" and rnd.random() < .5}
            cfg["dbs"][d] = {"par": par, "views": views}
    return cfg


class Ops:
    def __init__(self, rnd, w, own, known):
        self.rnd, self.w, self.own, self.known = rnd, w, own, known

    def one(self, lvl, glob=True):
        """(operation, SQL)"""
        rnd = self.rnd
        g = 1 if glob and rnd.random() < .15 else 0
        t = "g" if g else lvl
        kind = rnd.choice(["imp"] * 4 + ["par"] * 3 + ["view"] * 3 + ["oth"] * 2 + ["db", "unimp", "unview", "unoth"])
        own = self.own.setdefault(t, set())
        if kind in ("par", "view"):
            c = sorted(d for d in self.known if kind == "par" or DBS[d] == "sqlite")
            if not c:
                kind = "db"
            else:
                d = rnd.choice(c)
        if kind.startswith("un"):
            c = sorted(x for x in own if x[0] == kind[2:])
            if not c:
                kind = "imp"
            else:
                x = rnd.choice(c)
                own.discard(x)
        G = "GLOBAL " if g else ""
        o = {"op": kind, "global": g}
        if kind == "imp":
            o.update(k=rnd.choice(ALIASES), v=rnd.choice(MODS))
            own.add(("imp", o["k"]))
            f = rnd.random()
            return o, ("USE `%s as %s`" % (o["v"], o["k"]) if f < .5 and not g else "SET %s@%simports.%s='%s'" % (G, "config." if f < .75 else "", o["k"], o["v"]))
        if kind == "unimp":
            o.update(k=x[1])
            return o, "SET %s@imports.%s=NULL" % (G, x[1])
        if kind == "oth":
            k = rnd.choice(list(FORMATS) + ["encoding"])
            o.update(k=k, v=rnd.choice(FORMATS[k]) if k in FORMATS else rnd.choice(["latin-1", "cp437"]))
            own.add(("oth", k))
            return o, "SET %s@config.%s='%s'" % (G, k, o["v"])
        if kind == "unoth":
            o.update(k=x[1])
            return o, "SET %s@config.%s=NULL" % (G, x[1])
        if kind == "db":
            if not self.known and (g or lvl != "m"):
                return self.one(lvl, glob)
            d = rnd.choice(sorted(self.known)) if g or lvl != "m" else rnd.choice(sorted(DBS))
            t2 = DBS[d]
            par = {"driver": t2, PAR[t2]: rnd.choice(PATHS[t2])}
            self.own[t] = {x for x in own if x[0] != "view" or x[1] != d}
            if lvl == "m":
                self.known.add(d)
            o.update(d=d, par=par)
            return o, "SET %s@%sdatabases.%s='%s'" % (G, rnd.choice(["", "config."]), d, json.dumps({k: self.w.path(v) if k != "driver" else v for k, v in par.items()}))
        if kind == "par":
            p = PAR[DBS[d]]
            o.update(d=d, k=p, v=rnd.choice(PATHS[DBS[d]]))
            v = self.w.path(o["v"])
            return o, "SET %s@%sdatabases.%s.%s='%s'" % (G, rnd.choice(["", "config."]), d, p, json.dumps(v) if rnd.random() < .5 else v)
        if kind == "view":
            v = rnd.choice(VIEWS)
            o.update(d=d, k=v, v=rnd.choice("ABCDE"))
            own.add(("view", d, v))
            q = "select '%s' as tag" % o["v"]
            f = rnd.random()
            if f < .3 and not g:
                return o, "INSERT INTO `junk` SELECT * FROM /* raw(%s.%s) */ ( %s ) /* endraw */ z" % (d, v, q)
            # quotes inside a quoted value
            return o, "SET %s@%s%s=\"%s\"" % (G, "config." if .3 <= f < .5 else "", "databases.%s.virtual_views.%s" % (d, v) if f < .7 else "virtual_views.%s.%s" % (d, v), q)
        o.update(d=x[1], k=x[2])
        return o, "SET %s@databases.%s.virtual_views.%s=NULL" % (G, x[1], x[2])


UP = {"m": "g", "x": "m", "y": "m"}


def chunk(prop, seed, c, n):
    rnd = rng(prop, seed, c)
    res = Result()
    w = World()
    trace, meta = [], []
    done = 0

    def note(ev, case):
        trace.append(ev)
        meta.append(case)
        res.evaluations += 1
        res.distinct.add(h(case))

    while done < n:
        used = [d for d in DBS if rnd.random() < .7]
        files = []
        own, known = {}, set()
        for place in ("home/config.json", "home/config.yaml", "cwd/config.json", "cwd/config.yaml", "custom"):
            if rnd.random() < .45:
                f = {"place": place, "cfg": gen_cfg(rnd, used), "extends": [], "scripts": [], "inits": [], "inhome": rnd.random() < .5}
                if place != "custom" and rnd.random() < .25:
                    f["extends"] = [{"cfg": gen_cfg(rnd, used), "extends": [], "inits": []} for _ in range(rnd.choice([1, 2]))]
                files.append(f)
                for x in [f] + f["extends"]:
                    known |= set(x["cfg"]["dbs"])
        for f in files:
            # an sqlite database is used by raw views: it needs its file
            for x in [f] + f["extends"]:
                for d, e in x["cfg"]["dbs"].items():
                    e["par"].setdefault(PAR[DBS[d]], rnd.choice(PATHS[DBS[d]]))
        gen = Ops(rnd, w, own, known)
        for f in files:
            if f["place"] != "custom" and rnd.random() < .25 or f["place"] == "custom" and rnd.random() < .15:
                for _ in range(rnd.choice([1, 2])):
                    ops = [gen.one("m") for _ in range(rnd.choice([1, 2]))]
                    f["scripts"].append(";\n".join(s for _, s in ops) + ";")
                    f["inits"] += [o for o, _ in ops]
        case = {"files": [{k: f[k] for k in ("place", "cfg", "extends", "scripts")} for f in files]}
        try:
            w.start(files)
        except Exception as x:
            res.violations.append({"what": "starting raised %s: %s | %s" % (type(x).__name__, x, case), "case": case})
            done += 1
            continue
        history = [case]
        try:
            note({"ev": "load", "files": [{k: f[k] for k in ("cfg", "extends", "inits")} for f in files], "up": UP, "obs": {l: w.observe(l, rnd) for l in UP}}, list(history))
            done += 1
            for _ in range(rnd.choice([1, 3, 5])):
                lvl = rnd.choice(["m", "x", "y", "x"])
                ops = []
                f = rnd.random()
                if f < .25:
                    own.pop("f", None)
                    for _ in range(rnd.choice([1, 2, 3])):
                        # the file's level is a child of lvl
                        o, s = gen.one("f")
                        ops.append((o, s))
                    w.n += 1
                    name = w.path("cwd/x%d.sql" % w.n)
                    with open(name, "w") as out:
                        out.write(";\n".join(s for _, s in ops) + ";\nSHOW IMPORTS; SHOW DATABASES;\nINSERT INTO `r` SELECT 1 AS one;")
                    history.append({"execute at": lvl, "file": [s for _, s in ops]})
                    inner = w.read(w.run(lvl, "EXECUTE `%s`" % (name if rnd.random() < .5 else os.path.basename(name))))
                    ev = {"ev": "file", "lvl": lvl, "ops": [o for o, _ in ops], "inner": inner}
                else:
                    ops = [gen.one(lvl) for _ in range(rnd.choice([1, 1, 2, 3]))]
                    if rnd.random() < .2:       # a setting nobody reads: only refused if it is no value
                        k, v = rnd.choice(["options.verif", "variables.verif", "defines.verif"]), rnd.choice(["1", "-3", "2.5", "-2.5", "0.25", "-0.75", "true", "FALSE", "null", "''", "'x y'", '"[1]"', "'it''s'"])
                        ops.insert(rnd.randrange(len(ops) + 1), (None, "SET %s@%s=%s" % (rnd.choice(["", "GLOBAL "]), k, v)))
                    if len(ops) == 1 and ops[0][0] and ops[0][0]["op"] == "imp" and not ops[0][0]["global"] and rnd.random() < .5:
                        o = ops[0][0]
                        v = o["v"] if rnd.random() < .5 else __import__(o["v"])
                        history.append({"at": lvl, "use": [o["k"], str(v)]})
                        w.ctx[lvl].use(o["k"], v)
                    else:
                        history.append({"at": lvl, "sql": "; ".join(s for _, s in ops)})
                        w.run(lvl, "; ".join(s for _, s in ops))
                    ev = {"ev": "ops", "lvl": lvl, "ops": [o for o, _ in ops if o]}
                ev["obs"] = {l: w.observe(l, rnd) for l in UP}
                note(ev, list(history))
                done += 1
        except Exception as x:
            res.violations.append({"what": "raised %s: %s | %s" % (type(x).__name__, x, history[-1]), "case": history})
            done += 1
    bad, states = tlc.validate("ConfigTrace", trace)
    res.states, res.transitions, res.traces = states, len(trace), 1
    for l, v in bad:
        res.violations.append({"what": "%s: after %s" % (v, json.dumps(meta[l - 1][-1], default=str)), "case": {"history": meta[l - 1], "observed": trace[l - 1], "verdict": v}})
    res.samples.append({"history": meta[-1]})
    return res


def tasks(prop, tier, seed):
    k, n = (24, 40) if tier == "quick" else (160, 120)
    return [("props.p17", "chunk", (prop, seed, c, n)) for c in range(k)]
