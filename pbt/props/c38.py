"""C38: the library leaves the state of the process alone."""
import atexit
import builtins
import decimal
import gc
import io
import json
import locale
import logging
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np
import scipy.stats  # noqa: F401 (what it does when first imported is its own)
from hypothesis import strategies as st

from .. import calls, common, gen, hist, kinds, lib, net
from ..lib import Violation, pa

ID = "C38"
BUDGET = {"quick": 900, "thorough": 8000}
RULE = ("case = a drawn state of the process (error handling, print options and random streams of NumPy, random stream and "
        "warning filters of Python, working directory) and a sequence of calls of the library, valid or refused; "
        "afterwards all of this, the environment, paths, signal handlers, locale, threads and NumPy's own functions have to be "
        "as before, nothing may be written to the output streams or the working directory. Fixed case: importing the "
        "package. Non-trivial: at least one call was made")
REFUSED = ["standardize", "history", "model", "elbnd", "mean_error", "mu", "weights", "run", "net", "filter_data"]
ODD = ["LDA", "LDA_discriminants", "PCA", "PCA_components", "wide net", "deep net", "ESE", "LE", "ELBND", "many classes"]


@st.composite
def cases_(draw, tier):
    seq = []
    for _ in range(draw(st.integers(1, 4))):
        what = draw(st.sampled_from(["call", "call", "call", "filter", "refused", "odd"]))
        if what == "call":
            seq.append({"what": what, "call": draw(calls.call(calls.ALL)),
                        "big": draw(st.sampled_from([None, None, None, 1e200, 1e-200, "nan"]))})
        elif what == "filter":
            h = draw(common.hist_case(hi=300, stable=True))
            h["what"] = what
            h["big"] = draw(st.sampled_from([None, None, None, 1e200, 1e-200, "nan"]))
            seq.append(h)
        elif what == "odd":
            seq.append({"what": what, "odd": draw(st.sampled_from(ODD)), "seed": draw(gen.SEEDS), "N": draw(st.integers(1, 9)),
                        "n": draw(st.integers(1, 6)), "cl": draw(st.integers(1, 9)), "wide": draw(st.sampled_from(net.WIDTHS))})
        else:
            seq.append({"what": what, "bad": draw(st.sampled_from(REFUSED)), "kind": draw(st.sampled_from(kinds.KINDS)),
                        "how": draw(st.integers(0, 5))})
    modes = st.sampled_from(["ignore", "warn"])
    return {"seq": seq, "err": [draw(modes) for _ in range(4)], "prec": draw(st.sampled_from([8, 3, 12])),
            "filters": draw(st.integers(0, 3)), "own": draw(st.booleans()), "traced": draw(st.integers(0, 3)) == 1, "seed": draw(st.integers(0, 2 ** 32 - 1))}


def cases(tier):
    return cases_(tier)


def fixed_cases(tier):
    return [{"import": True}]


UMASK = 0o022
# variables that the driver of the checks sets for itself
BARE = sorted({"OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS", "VECLIB_MAXIMUM_THREADS",
               "PYTHONDONTWRITEBYTECODE", "PYTHONHASHSEED", "PYTHONWARNINGS", "VERIF_SEED", "VERIF_TIER"})
NP = ["dot", "sum", "mean", "std", "exp", "abs", "sqrt", "array", "zeros", "ones", "diff", "var", "cov", "tanh", "sign", "log10"]


def named(module):
    return sorted(k for k, v in vars(module).items() if type(v) is not type(np))


def snapshot(draws=True):
    s = {
        "numpy's error handling": dict(np.geterr()),
        "numpy's error callback": id(np.geterrcall()),
        "numpy's print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "numpy's buffer size": np.getbufsize(),
        "numpy's functions": [id(getattr(np, k)) for k in NP] + [id(np.linalg.inv), id(np.linalg.solve), id(np.random.normal)],
        "Python's random stream": hash(random.getstate()),
        "the warning filters": list(warnings.filters),
        "the display of warnings": id(warnings.showwarning),
        "the working directory": os.getcwd(),
        "the environment": dict(os.environ),
        "sys.path": list(sys.path),
        "the recursion limit": sys.getrecursionlimit(),
        "the switch interval": sys.getswitchinterval(),
        "the garbage collector": (gc.isenabled(), gc.get_threshold()),
        "the locale": locale.setlocale(locale.LC_ALL),
        "the number of threads": threading.active_count(),
        "tracing": (id(sys.gettrace()), id(sys.getprofile())),
        "the output streams": (id(sys.stdout), id(sys.stderr)),
        "hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook), id(sys.displayhook), id(builtins.__import__)),
        "signal handlers": [str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
        "the decimal context": str(decimal.getcontext()),
        "logging": (len(logging.root.handlers), logging.root.level, logging.root.manager.disable, logging.raiseExceptions),
        "the names in numpy": named(np),
        "the names in numpy's modules": [named(np.linalg), named(np.random)],
        "the built-in names": [(k, id(v)) for k, v in sorted(vars(builtins).items()) if k != "_"],
        "the mask of new files": os.umask(UMASK),
        "open files": len(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else 0,
        "what runs at exit": atexit._ncallbacks() if hasattr(atexit, "_ncallbacks") else 0,
        "the priority": os.getpriority(os.PRIO_PROCESS, 0),
        "limits": [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS)],
    }
    r = np.random.get_state(legacy=True)
    s["numpy's random stream"] = None if draws else (r[0], r[1].tobytes(), r[2], r[3], r[4])
    return s


def own_hook(*args):
    """Stands for what a program has set up for itself; as a trace function it traces calls and nothing in them."""


class Own:
    """The state of a program that has changed what it can, and the way back."""

    def __init__(self, case):
        self.case = case
        self.was = (sys.excepthook, threading.excepthook, sys.unraisablehook, np.geterrcall(), sys.getswitchinterval(),
                    gc.get_threshold(), sys.getrecursionlimit(), np.getbufsize(), warnings.showwarning, decimal.getcontext().prec,
                    logging.root.level, sys.gettrace(), sys.getprofile())

    def set(self):
        if self.case.get("own"):
            sys.excepthook = threading.excepthook = sys.unraisablehook = own_hook
            np.seterrcall(own_hook)
            sys.setswitchinterval(0.1)
            gc.set_threshold(600, 9, 8)
            sys.setrecursionlimit(2345)
            np.setbufsize(4096)
            warnings.showwarning = own_hook
            decimal.getcontext().prec = 13
            logging.root.setLevel(logging.ERROR)

    def trace(self):
        if self.case.get("traced"):
            sys.settrace(own_hook)
            sys.setprofile(own_hook)

    def untrace(self):
        sys.setprofile(self.was[12])
        sys.settrace(self.was[11])

    def reset(self):
        self.untrace()
        w = self.was
        sys.excepthook, threading.excepthook, sys.unraisablehook = w[:3]
        np.seterrcall(w[3])
        sys.setswitchinterval(w[4])
        gc.set_threshold(*w[5])
        sys.setrecursionlimit(w[6])
        np.setbufsize(w[7])
        warnings.showwarning = w[8]
        decimal.getcontext().prec = w[9]
        logging.root.setLevel(w[10])


def refuse(bad, kind, how):
    x, d = np.ones((4, 2)), np.ones(4)
    try:
        if bad == "standardize":
            pa.standardize(["a", "b"])
        elif bad == "history":
            pa.input_from_history([[1], 2], 1)
        elif bad == "model":
            pa.filters.AdaptiveFilter("none", 2)
        elif bad == "elbnd":
            pa.detection.ELBND(x, d, function="none")
        elif bad == "mean_error":
            pa.misc.get_mean_error(d, d, function="none")
        elif bad == "mu":
            pa.ann.NetworkMLP([2], 2, mu="fast")
        elif bad == "weights":
            kinds.cls(kind)(2, w=["none", [1.0], ["a", "b"], np.ones(3), "", [{}, {}]][how])
        elif bad == "run":
            f = kinds.cls(kind)(2, w="zeros")
            f.run(*[(d[:3], x), (d, x[:3]), (d, np.ones((4, 3))), (d, [["a", "b"]] * 4), (["a"] * 4, x),
                    (d, x[:, :1])][how])
        elif bad == "net":
            keep = np.random.get_state()
            nn = pa.ann.NetworkMLP([2], 2)
            np.random.set_state(keep)
            if how % 2:
                nn.test(*[(x, d[:3]), (np.ones((4, 3)), d), (x, np.ones((4, 2)))][how // 2])
            nn.train(*[(x, d[:3]), (np.ones((4, 3)), d), (x, np.ones((4, 2)))][how // 2], shuffle=True)
        else:
            pa.filters.filter_data(d[:3] if how % 2 else d, x, model="none" if how % 2 == 0 else kind, w="zeros")
    except Exception:
        return
    raise Violation("a malformed call (%s) is not refused" % bad)


def check(case):
    if case.get("import"):
        return check_import()
    here, mask, temp, env = os.getcwd(), os.umask(UMASK), tempfile.tempdir, dict(os.environ)
    scratch = tempfile.mkdtemp(prefix="pbt-c38-")
    err, popts, filters = np.geterr(), np.get_printoptions(), list(warnings.filters)
    out, errs = sys.stdout, sys.stderr
    own = Own(case)
    try:
        own.set()
        os.chdir(scratch)
        for k in BARE:
            os.environ.pop(k, None)
        tempfile.tempdir = os.environ["TMPDIR"] = scratch
        np.seterr(**dict(zip(["divide", "over", "under", "invalid"], case["err"])))
        np.set_printoptions(precision=case["prec"])
        for k in range(case["filters"]):
            warnings.filterwarnings("ignore", message="nothing %d" % k)
        random.seed(case["seed"])
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        for step in case["seq"]:
            np.random.seed(case["seed"])
            draws, go, name = prepared(step)
            own.trace()
            before = snapshot(draws)
            go()
            after = snapshot(draws)
            own.untrace()
            for k in before:
                if before[k] != after[k]:
                    raise Violation("%s leaves %s changed" % (name, k))
            for stream, s in (("standard output", sys.stdout), ("the error stream", sys.stderr)):
                if s.getvalue():
                    raise Violation("%s writes to %s: %.80r" % (name, stream, s.getvalue()))
            if os.listdir(scratch):
                raise Violation("%s writes files into the working directory or the one for temporary files: %s" % (name, os.listdir(scratch)))
    finally:
        own.reset()
        sys.stdout, sys.stderr = out, errs
        os.chdir(here)
        os.umask(mask)
        tempfile.tempdir = temp
        for k in set(os.environ) - set(env):
            os.environ.pop(k)
        os.environ.update({k: v for k, v in env.items() if os.environ.get(k) != v})
        np.seterr(**err)
        np.set_printoptions(**{k: v for k, v in popts.items() if k != "override_repr"})
        warnings.filters[:] = filters
        warnings._filters_mutated() if hasattr(warnings, "_filters_mutated") else None
        shutil.rmtree(scratch, ignore_errors=True)
    return {"labels": sorted({s["what"] + ":" + (s["call"]["fn"] if "call" in s else s.get("bad") or s.get("odd") or s["cfg"]["kind"])
                              for s in case["seq"]})}


def odd(s):
    """Calls with few samples, many classes, wide networks and the like: they may be refused, nothing else counts here."""
    rs = np.random.RandomState(s["seed"])
    N, n = s["N"], s["n"]
    x, d = rs.normal(0, 1, (N, n)), rs.normal(0, 1, N)
    k = s["odd"]
    try:
        if k == "LDA":
            pa.preprocess.LDA(x, rs.randint(0, s["cl"], N), 1)
        elif k == "LDA_discriminants":
            pa.preprocess.LDA_discriminants(x, rs.randint(0, s["cl"], N))
        elif k == "many classes":
            pa.preprocess.LDA_discriminants(x, np.arange(N))
        elif k == "PCA":
            pa.preprocess.PCA(x, n)
        elif k == "PCA_components":
            pa.preprocess.PCA_components(x)
        elif k == "ESE":
            pa.detection.ESE(x, window=N)
        elif k == "LE":
            pa.detection.learning_entropy(x, m=N, order=s["cl"])
        elif k == "ELBND":
            pa.detection.ELBND(x, d)
        else:
            layers = [s["wide"]] if k == "wide net" else [2] * s["cl"]
            nn = pa.ann.NetworkMLP(layers, n, outputs=s["cl"])
            nn.run(x)
            nn.predict(x[0])
            nn.update(d[0] if s["cl"] == 1 else rs.normal(0, 1, s["cl"]))
    except Exception:
        pass


def scaled(a, big):
    """Data at the ends of the numbers, or with a number missing."""
    if not big or a.dtype.kind != "f" or not a.size:
        return a
    if big == "nan":
        a = np.array(a)
        a.flat[a.size // 2] = np.nan
        return a
    with np.errstate(all="ignore"):
        return a * big


def prepared(step):
    draws, go, name = prepared_(step)
    if not step.get("big"):
        return draws, go, name

    def tolerant():
        try:        # (such data may be refused)
            go()
        except Exception:
            pass
    return draws, tolerant, "%s with extreme data (%s)" % (name, step["big"])


def prepared_(step):
    if step["what"] == "refused":
        return False, lambda: refuse(step["bad"], step["kind"], step["how"]), "a refused call (%s)" % step["bad"]
    if step["what"] == "odd":
        return True, lambda: odd(step), "an unusual call (%s)" % step["odd"]
    if step["what"] == "filter":
        c, x, d, opts = hist.prepare(step)
        x, d = scaled(x, step.get("big")), scaled(d, step.get("big"))
        return c["w"] == "random", lambda: hist.drive(kinds.make(c, opts), step["ops"], x, d), "%s (%s)" % (
            c["kind"], step["ops"])
    c = step["call"]
    args = {k: scaled(v, step.get("big")) for k, v in calls.arrays(c).items()}
    return calls.draws_randomness(c), lambda: calls.execute(c, args), c["fn"]


IMPORT = """
import sys, os, json
sys.path.insert(0, %(verif)r)
sys.dont_write_bytecode = True
import numpy as np
import scipy.stats
import warnings, random
sys.path.insert(0, %(repo)r)
sys.modules["pbt.lib"] = type(sys)("pbt.lib")
warnings.simplefilter("ignore", SyntaxWarning)
import importlib.util
import decimal, gc, locale, signal, threading, atexit, builtins, logging, resource
ns = {"np": np, "random": random, "warnings": warnings, "os": os, "sys": sys, "gc": gc, "locale": locale, "signal": signal,
      "threading": threading, "decimal": decimal, "NP": %(np)r, "atexit": atexit, "builtins": builtins, "logging": logging, "resource": resource,
      "UMASK": 0o022}
exec(%(src)r, ns)
np.seterr(divide="ignore", over="warn")
np.set_printoptions(precision=5)
np.random.seed(3)
random.seed(3)
a = ns["snapshot"](False)
import padasip
b = ns["snapshot"](False)
bad = [k for k in a if a[k] != b[k]]
assert os.path.dirname(os.path.dirname(os.path.realpath(padasip.__file__))) == os.path.realpath(%(repo)r)
sys.stderr.write(json.dumps({"bad": bad, "files": os.listdir(".")}) + chr(10))
"""


def check_import():
    import inspect
    src = inspect.getsource(named) + inspect.getsource(snapshot)
    scratch = tempfile.mkdtemp(prefix="pbt-c38-")
    try:
        bare = {k: v for k, v in os.environ.items() if k not in BARE or k.startswith("PYTHON")}
        code = IMPORT % {"verif": lib.REPO, "repo": lib.REPO, "np": NP, "src": src}
        r = subprocess.run([sys.executable, "-c", code], cwd=scratch, env=bare, capture_output=True, text=True, timeout=90)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if r.returncode:
        raise Violation("importing the package fails: %s" % r.stderr[-500:])
    lines = r.stderr.strip().splitlines()
    got = json.loads(lines[-1])
    if got["bad"]:
        raise Violation("importing the package changes %s" % ", ".join(got["bad"]))
    if got["files"] or r.stdout.strip() or len(lines) > 1:
        raise Violation("importing the package writes something: %r %r %s" % (r.stdout[:80], lines[:-1][:2], got["files"]))
    return {"labels": ["import"]}
