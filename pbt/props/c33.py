"""Results do not depend on settings of the process, and calls do not change them."""
import asyncio
import contextlib
import gc
import io
import os
import random
import re
import sys
import threading
import tracemalloc
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import check, clause, scratch_dir
from . import c12, c28, c30

ASSUMPTIONS = ["settings that ask for other numbers or errors (warnings as errors, numpy.seterr "
               "raise, matplotlib defaults of figures, legacy print modes, ufunc buffer sizes) are not generated",
               "arrays among printed scores and parameters may follow NumPy's print options"]


@contextlib.contextmanager
def printing(n):
    with np.printoptions(precision=n % 4, threshold=n % 7, suppress=bool(n % 2), edgeitems=1,
                         linewidth=20, formatter={"float": lambda v: "?"} if n % 3 == 0 else None):
        yield


@contextlib.contextmanager
def seeds(n):
    import torch

    old = random.getstate(), np.random.get_state(), torch.get_rng_state()
    random.seed(n)
    np.random.seed(n % 2 ** 32)
    torch.manual_seed(n)
    try:
        yield
    finally:
        random.setstate(old[0])
        np.random.set_state(old[1])
        torch.set_rng_state(old[2])


@contextlib.contextmanager
def double(n):
    import torch

    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


@contextlib.contextmanager
def nthreads(n):
    import torch

    old = torch.get_num_threads()
    torch.set_num_threads(1 + n % 3)
    try:
        yield
    finally:
        torch.set_num_threads(old)


@contextlib.contextmanager
def grad(n):
    import torch

    with (torch.no_grad, torch.inference_mode, torch.enable_grad)[n % 3]():
        yield


@contextlib.contextmanager
def folder(n):
    old = os.getcwd()
    with scratch_dir() as d:
        os.chdir(d)
        try:
            yield
            check(not os.listdir(d), "files written to the working directory: %s", os.listdir(d))
        finally:
            os.chdir(old)


@contextlib.contextmanager
def collecting(n):
    old = gc.get_threshold()
    gc.set_threshold(*((0, 0, 0), (7, 2, 2))[n % 2])
    try:
        yield
    finally:
        gc.set_threshold(*old)


@contextlib.contextmanager
def silent(n):
    with np.errstate(all=("ignore", "warn")[n % 2]):
        yield


@contextlib.contextmanager
def filters(n):
    with warnings.catch_warnings():
        warnings.simplefilter(("ignore", "always", "once")[n % 3])
        yield


@contextlib.contextmanager
def styles(n):
    import matplotlib as mpl

    with mpl.rc_context({"image.cmap": "jet", "image.origin": "lower", "figure.dpi": 33,
                         "axes.grid": True, "lines.linewidth": 7}):
        yield


@contextlib.contextmanager
def environ(n):
    new = {"COLUMNS": "20", "LC_ALL": "C", "LANG": "de_DE", "TZ": "Asia/Tokyo", "TQDM_DISABLE": "1",
           "OMP_NUM_THREADS": "1", "HOME": "/nonexistent"}
    old = dict(os.environ)
    os.environ.update(new)
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(old)


@contextlib.contextmanager
def memory(n):
    tracemalloc.start(1 + n % 3)
    try:
        yield
    finally:
        tracemalloc.stop()


@contextlib.contextmanager
def ascii_out(n):
    f = io.TextIOWrapper(io.BytesIO(), encoding="ascii")
    with contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        yield


@contextlib.contextmanager
def recursion(n):
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(old * 3 + n % 50)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


SETTINGS = dict(printing=printing, seeds=seeds, double=double, nthreads=nthreads, grad=grad,
                folder=folder, collecting=collecting, silent=silent,
                filters=filters, styles=styles, environ=environ, memory=memory,
                ascii_out=ascii_out, recursion=recursion)
WHERE = ("main", "main", "main", "thread", "coroutine")


@st.composite
def ambient(draw):
    c = draw(c28.threads())
    del c["steps"]
    c["tasks"] = c["tasks"][:1]
    c["set"] = [[n, draw(gen.ints(0, 9999))] for n in
                draw(st.lists(gen.pick(*SETTINGS), min_size=1, max_size=4, unique=True))]
    c["where"] = draw(gen.pick(*WHERE))
    c["text"] = draw(gen.pick("no", "describe", "metadata", "results", "print"))
    c["extra"], c["shared"] = "no", False
    return c


def state():
    """settings of the process, seen by a caller"""
    import matplotlib as mpl
    import matplotlib.pyplot as plt

    s = c30.surroundings()
    s.update({"print": repr(sorted(np.get_printoptions().items(), key=str)), "gc": gc.get_threshold(), "rc": dict(mpl.rcParams), "figures": plt.get_fignums(),
              "stdout": sys.stdout, "stderr": sys.stderr, "trace": tracemalloc.is_tracing(),
              "filters": list(warnings.filters), "excepthook": sys.excepthook,
              "threads": [t.name for t in threading.enumerate() if type(t).__name__ != "TMonitor"], "switch": sys.getswitchinterval()})
    del s["warning filters"]
    return s


def somewhere(fn, where):
    if where == "main":
        return fn()
    if where == "coroutine":
        async def run():
            return fn()

        return asyncio.run(run())
    box = []

    def body():
        try:
            box.append((fn(), None))
        except BaseException as e:  # noqa: BLE001
            box.append((None, e))

    t = threading.Thread(target=body)
    t.start()
    t.join()
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


def written(c, w, o):
    """what the text output of the task's objects says"""
    import viqa

    ms, _, kws, _ = w.objs[0]
    if c["text"] == "no":
        return None
    os.makedirs(o, exist_ok=True)
    if c["text"] == "describe":
        a = viqa.ImageArray(np.array(w.arrs[0]))
        a.calculate_statistics()
        a.describe(o, "s")
        name = "s.csv"
    elif c["text"] == "metadata":
        viqa.export_metadata(ms, kws, o, "m.txt")
        name = "m.txt"
    elif c["text"] == "results":
        viqa.export_results(ms, o, "r")
        name = "r.csv"
    else:
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            for m in ms:
                if m.score_val is not None:
                    m.print_score(decimals=3)
        return f.getvalue() + repr(ms) + str(ms)
    with open(os.path.join(o, name)) as f:
        return [ln for ln in f.read().split("\n") if not ln.startswith("Time: ")]


@clause("C33", "settings", ambient, 1100, thorough=25000, shards=8,
        rule="the task succeeds under the default settings")
def settings(c):
    """a task gives the same values, texts and settings under other settings of the process"""
    from ..core import Violation

    with scratch_dir() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        arrs = [gen.mk(s) for s in c["slots"]]
        mods = [gen.mod(c["slots"][t["a"]], t["d"]) for t in c["tasks"]]
        paths = [c12.as_file(gen.mk(s, "C"), d, "s%d" % i) for i, s in enumerate(c["slots"])]

        def task(tag):
            w = c30.Work(c, arrs, mods, paths, d)
            try:
                got = c28.flat(w.go(0))
                text = written(c, w, os.path.join(d, tag))
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                return ("raised", type(e).__name__, str(e)), None
            return got, text

        t = c["tasks"][0]
        what = "%s %s with %s" % (t["kind"], [m[0] for m in t["ms"]],
                                  [n for n, _ in c["set"]] + [c["where"]])
        before = state()
        want = c30.quiet(task, "a")
        compare(before, what + " (default settings)")
        with contextlib.ExitStack() as es:
            es.enter_context(contextlib.redirect_stdout(io.StringIO()))
            es.enter_context(contextlib.redirect_stderr(io.StringIO()))
            for n, v in c["set"]:
                es.enter_context(SETTINGS[n](v))
            before = state()
            got = somewhere(lambda: task("b"), c["where"])
            compare(before, what)
        # the default type and the number of threads change the rounding inside piq
        rtol = 2e-2 if any(n in ("double", "nthreads") for n, _ in c["set"]) else 1e-6
        check(c28.agree(tokens(got[0]), tokens(want[0]), rtol), "%s: %s, under the default settings %s", what,
              repr(got[0])[:160], repr(want[0])[:160])
        if any(n == "printing" for n, _ in c["set"]) and c["text"] in ("metadata", "print"):
            got, want = got[:1] + (None,), want[:1] + (None,)
        check(c28.agree(tokens(got[1]), tokens(want[1]), rtol), "%s: wrote %r, under the default settings %r", what, got[1], want[1])
    if want[0] and want[0][0] == "raised":
        return False
    return "%s, %s" % (c["form"], t["kind"])


def tokens(v):
    """texts as words and numbers (sums may round differently, digits do not get lost)"""
    if isinstance(v, (list, tuple)):
        return tuple(tokens(x) for x in v)
    if not isinstance(v, str):
        return v
    out = []
    for w in re.split(r"([-+]?\d+\.\d+(?:e[-+]?\d+)?)", v):
        try:
            x = float(w)
            out.append((x, len(w) > 12) if w not in ("nan", "inf") else w)
        except ValueError:
            out.append(w)
    return tuple(out)


def compare(before, what):
    after = state()
    os.chdir(before["cwd"])
    for k in before:
        check(after[k] == before[k], "%s: %s changed: %s", what, k,
              differing(before[k], after[k]))


def differing(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
    return "%r, was %r" % (b, a)
