"""Query campaigns: generated SELECTs run on the real engine, their results judged by Rel.tla via QueryTrace."""
import importlib

from campaign import Result, h, rng
import tlc
from q import query_sql, tla
from vals import dec


def chunk(prop, mod, tier, seed, c, n):
    """mod: module with cases(rnd, n, env) yielding
         ("tabs", [Schema])            new tables
         ("q", query, opts)            opts: pre (SQL before the query in the same script), sql (override), nontrivial
    """
    from impl import Engine
    m = importlib.import_module(mod)
    rnd = rng(prop, seed, c)
    res = Result()
    setup = getattr(m, "setup", lambda eng: None)
    eng = Engine()
    setup(eng)
    trace, meta = [], []
    tabs = None
    for ev in m.cases(rnd, n, eng):
        if ev[0] == "tabs":
            tabs = ev[1]
            for s in tabs:
                s.install(eng)
            trace.append({"ev": "tabs", "tabs": {s.name: s.spec() for s in tabs}})
            meta.append(None)
            continue
        q, opts = ev[1], (ev[2] if len(ev) > 2 else {})
        sql = opts.get("pre", "") + "INSERT INTO `r__` " + (opts.get("sql") or query_sql(q))
        rows, err = eng.query(opts.get("sql") or query_sql(q), "docs" if opts.get("docs") else opts.get("names") or q["names"], opts.get("pre", ""))
        res.evaluations += 1
        case = {"sql": sql, "tables": {s.name: s.rows for s in tabs}, "columns": {s.name: s.names for s in tabs}}
        if err is not None:
            res.violations.append({"what": "a valid query raised: %s | %s" % (err, sql), "case": case})
            eng = Engine()
            setup(eng)
            for s in tabs:
                s.install(eng)
            continue
        if opts.get("post"):
            rows = opts["post"](rows)
        trace.append({"ev": "query", "q": tla(q), "res": rows})
        meta.append((case, rows, q))
        if opts.get("nontrivial", True) and (rows or len(tabs[0].rows) > 1):
            res.distinct.add(h([sql, tabs[0].rows]))
        if len(res.samples) < 1 and rows:
            res.samples.append({"sql": sql, "rows": [[dec(x) for x in r] for r in rows][:5]})
    bad, states = tlc.validate("QueryTrace", trace)
    res.states += states
    res.transitions += len(trace)
    res.traces += 1
    for l, v in bad:
        case, rows, q = meta[l - 1]
        case["observed"] = [[dec(x) for x in r] for r in rows]
        case["verdict"] = v
        res.violations.append({"what": "%s: %s gave %s" % (v, case["sql"], case["observed"]), "case": case})
    return res
