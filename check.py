#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough] - decides one property against /repo's working tree."""
import importlib
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LANG="C.UTF-8", PYTHONNOUSERSITE="1",
                          PYTHONPATH=HARNESS)
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HARNESS)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import campaign
    m = importlib.import_module("props." + prop.lower())
    t0 = time.time()
    total = campaign.parallel(m.tasks(prop, tier, seed) + [("findings", "chunk", (prop,))])
    if hasattr(m, "finish"):
        m.finish(total, tier, seed)
    return campaign.report(prop, tier, seed, m.LEVEL, total, m.RULE, t0, getattr(m, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    sys.exit(main())
