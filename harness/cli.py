"""The command line: scripts given as files, through a pipe, typed at the prompt, run by an executed file; judged by Session.tla."""
import csv
import importlib
import json
import os
import shutil
import signal
import sys
import time

from campaign import Result, h, rng
from q import L, TRUE, select
from session import var, NAMES, TABS, UNSET, VARS, MISS, Script, World, dressed, initial, noisy, types_of
import gen  # noqa: F401
import tlc
from vals import enc, dec, txt

ALL = TABS + ["z1", "z2", "z3"]
OUTF = "out.txt"


class Tty:
    def __init__(self, f):
        self.f = f

    def isatty(self):
        return True

    def __getattr__(self, n):
        return getattr(self.f, n)


def child(argv, piped, typed):
    """in a process of its own: what the command does when it is started with these arguments"""
    sys.argv[:] = ["syncany-sql"] + argv
    if piped is not None:
        with open("stdin.txt", "w", encoding="utf-8") as f:
            f.write(piped)
        sys.stdin = open("stdin.txt", encoding="utf-8")
    else:
        sys.stdin = Tty(open(os.devnull))
    out = os.open(OUTF, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(out, 1)
    os.dup2(out, 2)
    sys.stdout = sys.stderr = open(OUTF, "w")
    import logging
    from syncanysql import main
    logging.disable(logging.CRITICAL)
    code = 0
    try:
        if typed is not None:
            from prompt_toolkit.application import create_app_session
            from prompt_toolkit.input import create_pipe_input
            from prompt_toolkit.output import DummyOutput
            with create_pipe_input() as inp:
                for t in typed:
                    inp.send_text("\x1b[200~%s\x1b[201~\r" % t)
                with create_app_session(input=inp, output=DummyOutput()):
                    main.main()
        else:
            main.main()
    except SystemExit as x:
        code = x.code if isinstance(x.code, int) else 0 if x.code is None else 1
    except BaseException:
        code = 99
    sys.stdout.flush()
    os._exit(code)


def start(argv, piped=None, typed=None, limit=30):
    """exit code, or "hang" """
    import impl  # noqa: F401
    import syncanysql.main  # noqa: F401
    import syncanysql.prompt  # noqa: F401
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            child(argv, piped, typed)
        finally:
            os._exit(98)
    end = time.time() + limit
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        time.sleep(.005)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return "hang"


def place(rnd, tabs):
    """every table in a file; returns table -> path and writes the files"""
    files = {}
    for n in ALL:
        p = "w/%s.%s" % (n, rnd.choice(["json", "json", "json", "csv"]) if n in ("u", "x") else "json")
        files[n] = os.path.abspath(p) if rnd.random() < .2 else p
    shutil.rmtree("w", ignore_errors=True)
    os.makedirs("w/home", exist_ok=True)
    for n, path in files.items():
        rows = [dict(zip(NAMES, r)) for r in tabs.get(n, [])]
        if path.endswith(".csv"):
            with open(path, "w", newline="") as f:
                csv.writer(f).writerows([NAMES] + [["" if x is None else str(x) for x in r] for r in tabs.get(n, [])])
        elif rows:
            with open(path, "w") as f:
                json.dump(rows, f)
    return files


def state(files):
    tabs = {}
    for n in ALL:
        rows = World.read(files[n])
        tabs[n] = [[enc(r[c]) if c in r else MISS for c in NAMES] if isinstance(r, dict) and set(r) <= set(NAMES) else [[9, 0, 1, []]] * 3 for r in rows]
    return tabs


def chunk(prop, mod, tier, seed, c, n):
    m = importlib.import_module(mod)
    rnd = rng(prop, seed, "cli%d" % c)
    res = Result()
    import impl
    for v in list(os.environ):
        if v.lower() in VARS:
            del os.environ[v]
    home = os.environ["HOME"]
    trace, meta = [], []
    for _ in range(n):
        tabs = initial(rnd)
        files = place(rnd, tabs)
        before = state(files)
        mix = rnd.choice(m.MIXES)
        how = rnd.choice(["file", "file", "pipe", "pipe", "prompt"])
        args = {v: rnd.choice(["a", "ab", "b", "B", "", "a=b", "zz", "5", "a b"]) for v in VARS if rnd.random() < .3} if how != "prompt" else {}
        gvars = {v: txt(args[v]) if v in args else UNSET for v in VARS}
        none = {v: UNSET for v in VARS}
        types = types_of({"g": gvars, "m": none}, ["m", "g"])
        groups, texts = [], []

        def script(want, types, known):
            s = Script(rnd, mix, types, before, "m", files=files)
            s.names = [x for x in ALL if not files[x].endswith(".csv")]
            if known:
                s.used, s.touched, s.made = set(known.used), set(known.touched), list(known.made)
            while len(s.stmts) < want and not s.last:
                s.stmt()
            return s
        inits = []
        if how != "prompt" and rnd.random() < .25:
            inits = ["init%d.sql" % i for i in range(rnd.choice([1, 2]))]
        last = None
        count = len(inits) + (rnd.choice([1, 2, 3, 4]) if how == "prompt" else 1)
        for i in range(count):
            s = script(rnd.choice([1, 1, 2] if how == "prompt" else [1, 2, 3]), last.vars if last else types, last)
            if args and not s.last and i >= len(inits) and rnd.random() < .6:
                v = rnd.choice(sorted(args))
                if v not in s.touched and (not last or v not in last.touched):
                    q = select([L(9), L(0), var(v)], NAMES, [], flat=True)
                    s.add("INSERT INTO %s SELECT 9 AS id,0 AS a,@%s AS s" % (s.nm("z3"), v), {"op": "ins", "mode": "I", "t": "z3", "q": q, "map": [1, 2, 3], "rng": TRUE, "with": []})
            last = s
            groups.append(s.stmts)
            texts.append(s)
            if s.last:
                break
        inits = inits[:len(texts)]
        lines = [dressed(rnd, mix, s.lines) for s in texts]
        for name, x in zip(inits, lines):
            with open(os.path.join(home if rnd.random() < .4 else "w", name), "w") as f:
                f.write(";\n".join(x) + rnd.choice(["", ";", ";\n"]))
        if inits:
            paths = [x if os.path.exists(os.path.join(home, x)) else "w/" + x for x in inits]
            os.makedirs(os.path.join(home, ".syncany"), exist_ok=True)
            with open("config.json", "w") as f:
                json.dump({"executes": [os.path.join(home, p) if os.path.exists(os.path.join(home, p)) else p for p in paths]}, f)
        body = lines[len(inits):]
        argv, piped, typed = [], None, None
        opts = ["--%s=%s" % (v, '"%s"' % x if rnd.random() < .3 else x) for v, x in args.items()]
        if how == "prompt":
            typed = []
            for x in body:
                t = rnd.choice([";", "; "]).join(x) + ";"
                typed.append(t)
            typed.append("exit")
            text = typed
        else:
            x = body[0] if body else []
            text = noisy(rnd, x) if rnd.random() < .3 else ";\n".join(x) + rnd.choice(["", ";", ";\n"])
            if how == "pipe":
                argv = opts
                piped = text
                if rnd.random() < .1 and '"' not in text and "'" not in text:
                    piped = '"%s"' % text
            else:
                path = rnd.choice(["w/main.sql", "w/main.SQL", "w/Main.sqlx", os.path.abspath("w/main.sql")])
                with open(path, "w", encoding="utf-8") as f:
                    f.write(text)
                argv = [path] + opts
                if rnd.random() < .3:       # a script named on the command line is read, whatever stands on standard input
                    piped = "DELETE FROM `%s`" % files["t"]
        code = start(argv, piped, typed)
        after = state(files)
        res.evaluations += 1
        sql = {"how": how, "argv": argv, "text": text, "init": [";\n".join(x) for x in lines[:len(inits)]]}
        for s in texts:
            if getattr(s, "texts", []):
                sql.setdefault("files", []).extend(s.texts)
        case = {"started": sql, "tables": {k: [[dec(x) for x in r] for r in v] for k, v in before.items()}, "exit": code,
                "observed": {k: [[dec(x) for x in r] for r in v] for k, v in after.items()}}
        for p in ["config.json"] + [os.path.join(home, x) for x in inits]:
            if os.path.exists(p):
                os.remove(p)
        if code not in (0, 1):
            case["output"] = open(OUTF, errors="replace").read()[-1500:] if os.path.exists(OUTF) else ""
            res.violations.append({"what": "the command ended with %s: %s | %s" % (code, sql, case["output"][-300:]), "case": case})
            continue
        trace.append({"ev": "reset", "tabs": before, "vars": {"g": gvars, "m": none}, "up": {"m": "g"}, "csv": [x for x in files if files[x].endswith(".csv")]})
        meta.append(None)
        trace.append({"ev": "command", "groups": groups, "stop": 0 if how == "prompt" else 1, "obs": {"tabs": after, "err": code}})
        meta.append(case)
        if any(len(v) for v in before.values()):
            res.distinct.add(h([sql, before]))
        if len(res.samples) < 1:
            res.samples.append({"started": sql, "after": case["observed"]})
    bad, states = tlc.validate("SessionTrace", trace)
    res.states, res.transitions, res.traces = states, len(trace), 1
    for l, v in bad:
        case = meta[l - 1]
        if v == "open":
            res.extra["left_open_by_the_specification"] = res.extra.get("left_open_by_the_specification", 0) + 1
            continue
        case["verdict"] = v
        res.violations.append({"what": "%s: %s | before %s | after %s exit %s" % (v, case["started"], case["tables"], case["observed"], case["exit"]), "case": case})
    return res
