import atexit, contextlib, io, logging, os, shutil, sys, tempfile
_d = tempfile.mkdtemp(prefix="demo-")
_cwd = os.getcwd()
atexit.register(lambda: (os.chdir("/"), shutil.rmtree(_d, ignore_errors=True)))
os.environ["HOME"] = _d
os.chdir(_d)
DIR = _d
sys.path.insert(0, _cwd)
from syncanysql import ScriptEngine
logging.disable(logging.CRITICAL)


def engine(**tabs):
    e = ScriptEngine()
    e.setup()
    logging.disable(logging.CRITICAL)
    for k, rows in tabs.items():
        e.push_memory_datas(k, [dict(r) for r in rows])
    return e


def run(e, sql):
    with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
        e.execute(sql)
    return o.getvalue()


def q(sql, **tabs):
    e = engine(**tabs)
    run(e, "insert into zz_out " + sql)
    return [dict(r) for r in (e.get_memory_datas("zz_out") or [])]


def rows(cols, *vals):
    cols = cols.split()
    return [dict(zip(cols, v)) for v in vals]


def expect(got, want, unordered=False):
    k = lambda r: repr(sorted(r.items(), key=repr)) if isinstance(r, dict) else repr(r)
    if (sorted(got, key=k) != sorted(want, key=k)) if unordered else (got != want):
        print("got ", got)
        print("want", want)
        sys.exit(1)
