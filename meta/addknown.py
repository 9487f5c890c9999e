"""addknown.py FILE: FILE defines KNOWN=[dict(prop,id,what,tables,sql,names,want[,pre,read,ordered])]; runs each, appends a known: line when the code does not answer `want`."""
import json, os, runpy, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import findings
for d in runpy.run_path(sys.argv[1])["KNOWN"]:
    prop, id = d.pop("prop"), d.pop("id")
    d["tables"] = {k: {"c": c.split(), "r": [list(x) for x in r]} for k, (c, r) in d.get("tables", {}).items()}
    d["names"] = d["names"].split()
    got = findings.probe(d)
    if findings.canon(got, d.get("ordered")) == findings.canon(d["want"], d.get("ordered")):
        print("HOLDS", prop, id)
        continue
    d["got"] = got
    if "property=%s id=%s " % (prop, id) in open(findings.FILE).read():
        print("already", id)
        continue
    print("known", prop, id, got, "want", d["want"])
    with open(findings.FILE, "a") as f:
        f.write("known: property=%s id=%s %s\n" % (prop, id, json.dumps(d)))
