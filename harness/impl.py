"""Access to the code under test: /repo's working tree (or $VERIF_REPO, for a scratch copy)."""
import atexit
import multiprocessing.util as mpu
import os
import sys
import io
import contextlib
import logging
import shutil
import tempfile
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = tempfile.mkdtemp(prefix="verif-syncany-")
_PID = os.getpid()


def _rm():
    if os.getpid() == _PID:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_rm)
mpu.Finalize(None, _rm, exitpriority=1)   # worker processes do not run atexit handlers
os.environ["HOME"] = os.path.join(SCRATCH, "home")
os.makedirs(os.environ["HOME"], exist_ok=True)
os.makedirs(os.path.join(SCRATCH, "cwd"), exist_ok=True)
os.chdir(os.path.join(SCRATCH, "cwd"))
os.environ.setdefault("TZ", "UTC")
sys.path.insert(0, REPO)
sys.pycache_prefix = os.path.join(SCRATCH, "pyc")  # never read stale bytecode from the tree
warnings.simplefilter("ignore")

# the environment a user starts it in may hold variables named like columns; they are gone again when scripts run,
# where an environment variable is one of the process's variables
ENV = {n.upper() + e: "1" for n in ("id", "a", "b", "c", "k", "n", "s", "d", "e", "m", "g", "v", "x") for e in ("", "__in", "__gt", "__ne")}
ENV = {n: v for n, v in ENV.items() if n not in os.environ}
for _n in list(os.environ):
    if _n.lower() in ("m", "n", "k", "a", "b", "name", "n1", "x_y", "nosuch", "subst_1") and _n not in ENV:
        del os.environ[_n]
os.environ.update(ENV)
SUBST_ENV = {"SUBST_ONE": "one", "Subst_Two": "t  w,o", "SUBST_EMPTY": "", "subst_4": "${@a}"}      # property P27 reads these
os.environ.update(SUBST_ENV)
from syncanysql import ScriptEngine  # noqa: E402
import syncanysql  # noqa: E402
import syncanysql.taskers.query  # noqa: E402
for _n in ENV:
    del os.environ[_n]

assert os.path.abspath(syncanysql.__file__).startswith(os.path.abspath(REPO) + os.sep), syncanysql.__file__
logging.disable(logging.CRITICAL)

from vals import enc, BAD  # noqa: E402
from campaign import limit  # noqa: E402


def cleanup():
    _rm()


class Engine:
    """One ScriptEngine.  All stdout/stderr chatter of the code under test is swallowed."""

    limit = 20

    def __init__(self):
        self.out = io.StringIO()
        with self._quiet():
            self.e = ScriptEngine()
            self.e.setup()

    @contextlib.contextmanager
    def _quiet(self):
        with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(self.out):
            yield
        logging.disable(logging.CRITICAL)

    def run(self, sql):
        """Returns None, or "ExceptionClass: text" when the script failed."""
        try:
            with self._quiet(), limit(self.limit):
                self.e.execute(sql)
            return None
        except KeyboardInterrupt:
            raise
        except BaseException as x:
            return "%s: %s" % (type(x).__name__, str(x)[:200])

    def put(self, name, rows):
        """rows: list of dicts"""
        with self._quiet():
            self.e.pop_memory_datas(name)
            if rows:
                self.e.push_memory_datas(name, [dict(r) for r in rows])

    def get(self, name):
        with self._quiet():
            return self.e.get_memory_datas(name) or []

    def pop(self, name):
        with self._quiet():
            return self.e.pop_memory_datas(name) or []

    def collections(self):
        """Names of all in-memory collections of this engine."""
        out = set()
        for factory in self.e.manager.database_manager.factorys.values():
            for driver in getattr(factory, "drivers", []):
                if hasattr(driver.instance, "keys"):
                    out |= {k for k in driver.instance.keys()}
        return sorted(k[3:] if k.startswith("--.") else k for k in out)

    def query(self, sql, names, pre=""):
        """Runs sql into a fresh table; returns (rows as spec values, error)."""
        self.pop("r__")
        err = self.run(pre + "INSERT INTO `r__` " + sql)
        if err:
            self.pop("r__")
            return None, err
        return project(self.pop("r__"), names), None


def project(rows, names):
    out = []
    if names == "docs":        # columns of any name: every row is one value
        return [[(lambda d: d[:3] + [sorted(d[3])] if d[0] == 7 else d)(enc(dict(r)))] for r in rows]
    for r in rows:
        if not isinstance(r, dict) or set(r) != set(names):
            out.append([BAD for _ in names])
        else:
            out.append([enc(r[n]) for n in names])
    return out
