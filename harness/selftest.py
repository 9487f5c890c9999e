#!/opt/venv/bin/python
"""setup_cmd: the toolchain works, the specification parses, and a corrupted trace is rejected (the binding is real)."""
import glob
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc  # noqa: E402


def main():
    for f in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
        p = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY", os.path.basename(f)], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode or "error" in p.stdout.lower():
            print(p.stdout[-2000:])
            return 1
    n = lambda x: [1, x, 1, []]
    q = {"k": "sel", "sel": [{"k": "col", "d": 0, "i": 1}], "from": [{"kind": "base", "t": "t", "w": 1, "join": "left", "on": {"k": "true"}, "q": {}}], "where": {"k": "lcmp", "o": ">", "a": {"k": "col", "d": 0, "i": 1},
         "b": {"k": "lit", "v": n(1)}}, "group": [], "having": {"k": "true"}, "order": [], "off": 0, "lim": -1, "distinct": 0, "agg": 0}
    tabs = {"ev": "tabs", "tabs": {"t": [[n(1)], [n(2)], [n(3)]]}}
    bad, _ = tlc.validate("QueryTrace", [tabs, {"ev": "query", "q": q, "res": [[n(2)], [n(3)]]}])
    assert bad == [], bad
    bad, _ = tlc.validate("QueryTrace", [tabs, {"ev": "query", "q": q, "res": [[n(2)], [n(4)]]}, {"ev": "query", "q": q, "res": [[n(2)]]}])
    assert [b[0] for b in bad] == [2, 3], bad
    print("specification parses; corrupted traces are rejected")
    return 0


sys.exit(main())
