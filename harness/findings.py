"""Known findings: defects of the code that are recorded, not repaired (known-findings.txt).

A line   known: property=P03 id=JOIN-ZIP {json}   has a specific input with what the code answers now (got) and what it
should answer (want).  The property's check runs that input: `got` prints KNOWN-FINDING, `want` prints nothing, anything
else is a violation of its own.  A line   fixed: property=... <commit> <what failed>   suppresses nothing."""
import json
import os
import re

from campaign import ROOT, Result

FILE = os.path.join(ROOT, "known-findings.txt")


def known(prop):
    out = []
    for line in open(FILE):
        m = re.match(r"known: property=(\w+) id=(\S+) (\{.*\})\s*$", line)
        if m and m.group(1) == prop:
            d = json.loads(m.group(3))
            d["id"] = m.group(2)
            out.append(d)
    return out


def canon(rows, ordered):
    if not isinstance(rows, list):
        return rows
    rows = [[round(x, 9) if isinstance(x, float) else x for x in r] for r in rows]
    return rows if ordered else sorted(rows, key=repr)


def probe(d):
    from impl import Engine
    eng = Engine()
    for name, t in d.get("tables", {}).items():
        eng.put(name, [dict(zip(t["c"], r)) for r in t["r"]])
    if "read" in d:
        err = eng.run(d["sql"])
        rows = eng.get(d["read"])
    else:
        eng.pop("r__")
        err = eng.run(d.get("pre", "") + "INSERT INTO `r__` " + d["sql"])
        rows = eng.pop("r__")
    if err is not None:
        return "error " + err.split(":")[0]
    return [[r.get(n, "<missing>") for n in d["names"]] for r in rows]


def chunk(prop):
    res = Result()
    for d in known(prop):
        res.evaluations += 1
        got = canon(probe(d), d.get("ordered"))
        res.distinct.add("finding " + d["id"])
        if got == canon(d["got"], d.get("ordered")):
            res.known[d["id"]] = "%s %s" % (d["id"], d["what"])
        elif got != canon(d["want"], d.get("ordered")):
            res.violations.append({"what": "the recorded input of %s now gives %r" % (d["id"], got), "case": d})
    return res
