"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run(module, cfg=None, env=None, workers=1, timeout=800, args=(), mem="2g", stack="256m"):
    meta = tempfile.mkdtemp(prefix="verif-tlc-")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + mem, "-Xss" + stack, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           universal_newlines=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        raise TLCError("TLC timed out on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


END = re.compile(r'<<"TRACE-END", (\d+), "(.*)">>', re.S)


def validate(module, lines, timeout=800, env=None, cfg=None):
    """Validates one trace.  Returns (list of [line number, clause...], states generated)."""
    d = tempfile.mkdtemp(prefix="verif-trace-")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for x in lines:
                f.write(json.dumps(x, separators=(",", ":")) + "\n")
        ev = {"TRACE": path}
        ev.update(env or {})
        rc, out = run(module, cfg=cfg, env=ev, timeout=timeout)
        m = END.search(out)
        if rc != 0 or not m or int(m.group(1)) != len(lines):
            raise TLCError("trace validation of %s broke (rc %s)\n%s\n...\n%s" % (module, rc, out[out.find("Error:"):][:1500], out[-1500:]))
        return json.loads(m.group(2).replace('\\"', '"').replace("\\\\", "\\")), stats(out)[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate_sharded(module, chunks, jobs=8, timeout=800, env=None, cfg=None):
    """chunks: independent traces.  Returns per-chunk results."""
    chunks = [c for c in chunks if c]
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(lambda c: validate(module, c, timeout, env, cfg), chunks))
