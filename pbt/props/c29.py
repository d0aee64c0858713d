"""viqa works without its optional packages: generated installations."""
import builtins
import contextlib
import importlib
import importlib.machinery
import io
import sys
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import Violation, check, clause, num, scratch_dir
from . import c12, c15, c28

ASSUMPTIONS = ["a package is missing (ModuleNotFoundError), blocked (None in sys.modules) or fails "
               "to import (ImportError), as a whole or in one of its modules",
               "the messages have to name the packages, their wording is free"]
OPTIONAL = ("ipywidgets", "IPython")
USED = {"ipywidgets": ("ipywidgets",), "IPython": ("IPython", "IPython.display")}


class Broken:
    """a module that is found but cannot be imported"""

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise ImportError("cannot import name 'x' from %r" % module.__name__,
                          name=module.__name__)


class Hide:
    """a finder that does not find the missing packages"""

    def __init__(self, finder, how):
        self.finder, self.how = finder, how  # module name -> kind

    def __getattr__(self, name):
        return getattr(self.finder, name)

    def find_spec(self, name, path=None, target=None):
        kind = self.how.get(name) or self.how.get(name.split(".")[0])
        if kind == "missing":
            return None
        if kind == "broken":
            return importlib.machinery.ModuleSpec(
                name, Broken(), is_package=name.split(".")[0] == name)
        return self.finder.find_spec(name, path, target)


def importable(name):
    try:
        importlib.import_module(name)
        return True
    except ImportError:
        return False


@contextlib.contextmanager
def without(gone, packages):
    """the packages are imported anew, some of them missing"""
    old = {n: m for n, m in sys.modules.items() if n.split(".")[0] in packages}
    for n in old:
        del sys.modules[n]
    finders = sys.meta_path[:]
    sys.meta_path[:] = [Hide(f, gone) for f in finders]
    sys.modules.update({n: None for n, kind in gone.items() if kind == "blocked"})
    try:
        yield
    finally:
        sys.meta_path[:] = finders
        for n in [n for n in sys.modules if n.split(".")[0] in packages]:
            del sys.modules[n]
        sys.modules.update(old)


LOST = {}


def unusable(gone):
    """a package that needs a missing one is missing as well"""
    key = repr(sorted(gone.items()))
    if key not in LOST:
        with without(gone, OPTIONAL):
            LOST[key] = [n for n in OPTIONAL if not importable(USED[n][-1])]
    return LOST[key]


@contextlib.contextmanager
def installation(gone):
    """re-import viqa where some packages are missing; yields (viqa, warnings, missing)"""
    lost = unusable(gone)
    with without(gone, ["viqa"] + lost):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                import viqa
            except Exception as e:  # noqa: BLE001
                raise Violation("import viqa without %s: %s: %s" % (
                    gone, type(e).__name__, str(e)[:200]))
        yield viqa, rec, lost


@st.composite
def missing(draw):
    out = {}
    for p in draw(gen.pick((), OPTIONAL, OPTIONAL, OPTIONAL[:1], OPTIONAL[1:])):
        out[draw(gen.pick(*USED[p]))] = draw(gen.pick("missing", "broken", "blocked"))
    return out


def named(rec, p):
    return any(issubclass(w.category, UserWarning) and p in str(w.message) for w in rec)


def warned(rec, gone):
    for p in OPTIONAL:
        check(named(rec, p) == (p in gone), "import viqa without %s: %s warning names %s",
              gone or "nothing", "a" if named(rec, p) else "no", p)


@st.composite
def tasks(draw):
    c = draw(c28.threads())
    del c["steps"]
    c["tasks"] = c["tasks"][:draw(gen.ints(1, 2))]
    c["gone"] = draw(missing())
    c["notebook"] = draw(gen.ints(0, 2)) == 0
    return c


@contextlib.contextmanager
def ipython(on):
    had = hasattr(builtins, "__IPYTHON__")
    if on:
        builtins.__IPYTHON__ = True
    try:
        yield
    finally:
        if on and not had:
            del builtins.__IPYTHON__


def results(c, d, where):
    arrs = [gen.mk(s) for s in c["slots"]]
    mods = [gen.mod(c["slots"][t["a"]], t["d"]) for t in c["tasks"]]
    paths = [c12.as_file(gen.mk(s, "C"), d, "s%d" % i) for i, s in enumerate(c["slots"])]
    out = []
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        for i, t in enumerate(c["tasks"]):
            try:
                out.append(c28.flat(c28.job(t, c, arrs, mods, paths, d, i)(where)))
            except Exception as e:  # noqa: BLE001
                out.append(("raised", type(e).__name__, str(e)[:80]))
    return out


def raised(a):
    return isinstance(a, tuple) and a and a[0] == "raised"


@clause("C29", "results", tasks, 300, thorough=8000, shards=8,
        rule="a package is missing and a task succeeds")
def same_results(c):
    """import succeeds with a warning per missing package and all results stay the same"""
    with scratch_dir() as d, ipython(c["notebook"]):
        full = results(c, d, "full")
        with installation(c["gone"]) as (_, rec, lost):
            warned(rec, lost)
            less = results(c, d, "less")
    for t, f, g in zip(c["tasks"], full, less):
        check(c28.agree(g[:2] if raised(g) else g, f[:2] if raised(f) else f),
              "%s %s without %s: %s instead of %s", t["kind"],
              [m[0] for m in t["ms"]], c["gone"], repr(g)[:150], repr(f)[:150])
    if not c["gone"] or all(raised(f) for f in full):
        return False
    return "%s without %s" % (c["form"], "+".join(sorted(c["gone"])))


@st.composite
def selections(draw):
    nd = draw(gen.pick(2, 2, 3))
    sh = [draw(gen.ints(12, 20)) for _ in range(nd)]
    r = draw(gen.ints(1, 4))
    p = [[draw(gen.ints(r, n - r - 1)) for n in sh] for _ in range(2)]
    if draw(gen.ints(0, 4)) == 0:
        p[draw(gen.ints(0, 1))][draw(gen.ints(0, nd - 1))] = 0  # too close to the border
    return dict(shape=sh, dtype="uint8", top=255, kind=draw(gen.pick("noise", "smooth", "blocks")),
                seed=draw(gen.SEED), layout="C", which=draw(gen.pick("CNR", "SNR")), s=p[0],
                b=p[1], r=r, region=draw(gen.pick("cubic", "spherical")),
                gone=draw(missing()), notebook=draw(gen.ints(0, 2)) > 0,
                stored=draw(gen.pick("score", "set", "no")), file=draw(gen.ints(0, 3)) == 0)


def drawn():
    """what the open figures show"""
    import matplotlib.pyplot as plt

    out = []
    for n in plt.get_fignums():
        f = plt.figure(n)
        for ax in f.axes:
            out.append([np.ma.asarray(i.get_array()).tobytes() for i in ax.images]
                       + [repr([round(float(v), 4) for v in q.get_extents().extents])
                          for q in ax.patches] + [ax.get_title()])
    plt.close("all")
    return out


@clause("C29", "selection", selections, 500, thorough=12000, shards=8,
        rule="a package is missing; the call reports it or draws the regions")
def selection(c):
    """interactive selection without its packages fails with their names, and changes nothing"""
    import matplotlib.pyplot as plt

    a = gen.mk(c)
    kw = {"signal_center": tuple(c["s"]), "radius": c["r"]}
    if c["which"] == "CNR":
        kw["background_center"] = tuple(c["b"])
    else:
        kw["region_type"] = c["region"]
    with scratch_dir() as d, ipython(c["notebook"]), installation(c["gone"]) as (
            viqa, rec, lost):
        warned(rec, lost)
        if c["notebook"] and not lost:
            return False  # C27 works on the panel
        src = c12.as_file(a, d, "s") if c["file"] else a
        m = getattr(viqa, c["which"])(data_range=255)
        given = {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if c["stored"] == "set":
                m.parameters.update(kw)
            elif c["stored"] == "score":
                try:
                    m.score(a, **dict(kw, region_type=c["region"]))
                except Exception:  # noqa: BLE001
                    return False
            else:
                given = kw
            before = (repr(sorted(m.parameters.items(), key=str)), num(m.score_val or 0))
            plt.close("all")
            args = given if c["which"] == "CNR" else {"vis_kwargs": given}
            if c["notebook"]:
                args = given
            err = None
            try:
                m.set_centers(src, **args)
            except Exception as e:  # noqa: BLE001
                err = e
            got = drawn()
            check(before == (repr(sorted(m.parameters.items(), key=str)), num(m.score_val or 0)),
                  "set_centers without %s changed the parameters to %s", lost, m.parameters)
            if c["notebook"]:
                check(isinstance(err, ImportError), "set_centers without %s in IPython: %s", lost,
                      "no error" if err is None else type(err).__name__)
                for p in OPTIONAL:
                    check((p in str(err)) == (p in lost), "set_centers without %s: the error is %s",
                          lost, err)
                check(not got, "set_centers without %s in IPython drew a figure", lost)
                return "%s, IPython without %s" % (c["which"], "+".join(lost))
            try:
                m.visualize_centers(src, **given)
                want = drawn()
            except Exception as e:  # noqa: BLE001
                plt.close("all")
                check(isinstance(err, ImportError), "set_centers outside IPython: %s where "
                      "visualize_centers raises %s",
                      "no error" if err is None else type(err).__name__, type(e).__name__)
                return "%s, refused" % c["which"] if lost else False
            check(err is None, "set_centers outside IPython without %s: %s: %s", lost,
                  type(err).__name__, err)
            check(got == want and got, "set_centers outside IPython draws other regions than "
                  "visualize_centers")
    return "%s, drawn" % c["which"] if lost else False
