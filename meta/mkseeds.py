"""usage: mkseeds.py FILE.py   FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
Creates /verif/seeded/<id>/ from a scratch copy and validates it (meta/seed.sh)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]
BASE = "cb74ee9"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    t = tempfile.mkdtemp(prefix="mkseed-")
    r = os.path.join(t, "r")
    subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), r], check=True)
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(r, f)
        x = open(p).read()
        base = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "show", BASE + ":" + f], capture_output=True, text=True).stdout
        if x.count(old) != 1:
            print(s["id"], "edit matches", x.count(old), repr(old[:60])); ok = False; break
        for l in old.split("\n"):
            if l.strip() and l not in new.split("\n") and l.strip() not in base:
                print(s["id"], "NOT AN ORIGINAL LINE:", l); ok = False
        open(p, "w").write(x.replace(old, new))
    if ok:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        shutil.copy(V + "/meta/demolib.py", d)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD:$HERE" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$HERE/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        o = subprocess.run(["bash", V + "/meta/seed.sh", s["id"]], capture_output=True, text=True).stdout
        print(o.strip())
        if "OK" not in o:
            os.makedirs("/tmp/badseeds", exist_ok=True)
            shutil.rmtree("/tmp/badseeds/" + s["id"], ignore_errors=True)
            shutil.move(d, "/tmp/badseeds/" + s["id"])
    shutil.rmtree(t)
