"""Appends `fixed:` lines for the fix: commits of /repo to known-findings.txt (idempotent)."""
import os
import re
import subprocess
M = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixed.map")
MAP = [("IN with a one element", "P01"), ("LIKE matched", "P01"), ("AVG counted", "P04"), ("JSON_OBJECTAGG lost", "P10"), ("BETWEEN was false", "P01"), ("WHERE const <", "P01"), ("a repeated WHERE", "P01"),
       ("WHERE column IN", "P01"), ("JOIN ON", "P03"), ("CASE WHEN without ELSE", "P02"), ("REGEXP", "P22"), ("LIMIT 0", "P06"), ("UNION matched", "P07"), ("LIMIT of a DISTINCT", "P06"), ("statements left over", "P13"),
       ("push_memory_datas", "P18"), ("ScriptEngine.terminal", "P18"), ("SQL piped", "P15"), ("CASE x WHEN", "P02"), ("COALESCE with one", "P02"), ("a simple CASE inside", "P02"), ("INNER JOIN", "P03"), ("WHERE on the left", "P03"),
       ("JOIN ... USING", "P03"), ("HAVING ... BETWEEN", "P05"), ("LIMIT of a join", "P06"), ("ORDER BY a select alias", "P06"), ("ORDER BY, LIMIT and OFFSET after", "P07"), ("UNION kept", "P07"),
       ("two correlated", "P08"), ("NULL IN (subquery", "P08")]
MAP += [tuple(l.rstrip("\n").split("\t")) for l in open(M)] if os.path.exists(M) else []
F = os.path.join(os.path.dirname(M), "..", "known-findings.txt")
text = open(F).read()
log = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, universal_newlines=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: ") or h in text:
        continue
    s = s[5:]
    prop = [p for k, p in MAP if k in s]
    if not prop:
        print("unmapped:", h, s)
        continue
    text += "fixed: property=%s %s %s\n" % (prop[0], h, s)
open(F, "w").write(text)
