"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(ROOT, "DESIGN.md")
s = open(F).read()
i = s.find("| id | property | needs |")
s = (s if i < 0 else s[:i]).rstrip("\n") + "\n\n| id | property | needs |\n|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    s += "| %s | %s | %s |\n" % (os.path.basename(d), m["property"], m["needs"].replace("|", "\\|").replace("\n", " "))
open(F, "w").write(s)
