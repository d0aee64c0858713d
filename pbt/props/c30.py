"""A call that fails part-way leaves no trace: generated faults in library calls."""
import contextlib
import io
import os
import random
import sys
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import check, clause, num, scratch_dir
from . import c12, c15, c28

ASSUMPTIONS = ["a call fails where viqa calls another library (NumPy, SciPy, scikit-image, piq, "
               "PyTorch, nibabel, csv, opening a file, warnings turned into errors), except in "
               "special methods, `close` and calls that restore a setting",
               "the results of a batch that failed are not judged, the next complete one is"]
LIBS = ("numpy", "scipy", "torch", "skimage", "piq", "nibabel", "imageio", "PIL", "matplotlib",
        "csv", "_csv", "io", "_io", "genericpath", "posixpath", "viqa.fr_metrics.stat_utils",
        "_warnings")
NOT = ("close",
       # calls that put a setting back
       "seterr", "set_state", "set_rng_state", "set_grad_enabled", "set_default_dtype",
       "set_num_threads", "set_printoptions", "chdir")
FAULTS = {"memory": MemoryError, "interrupt": KeyboardInterrupt, "io": OSError,
          "value": ValueError, "runtime": RuntimeError, "warning": UserWarning}


class Faults:
    """counts the library calls viqa makes and lets one of them fail"""

    def __init__(self, at=None, exc=None):
        self.root = c28.repo_code()
        self.at, self.exc = at, exc
        self.n, self.where = 0, None

    def point(self, frame, event, arg):
        if event == "call":
            back = frame.f_back
            if back is None or not back.f_code.co_filename.startswith(self.root) \
                    or frame.f_code.co_filename.startswith(self.root):
                return None
            mod, name = frame.f_globals.get("__name__") or "", frame.f_code.co_name
            if name.endswith("_dispatcher"):
                return None
        elif event == "c_call" and frame.f_code.co_filename.startswith(self.root):
            own = getattr(arg, "__self__", None)
            mod, name = getattr(arg, "__module__", None) or "", arg.__name__
            if isinstance(own, np.ndarray):
                mod = "numpy"
            elif type(own).__module__.split(".")[0] == "torch":
                mod = "torch"
        else:
            return None
        # special methods are called by native code, which may go on after their failure
        if name in NOT or name.startswith("__") or not any(mod == v or mod.startswith(v + ".") for v in LIBS):
            return None
        return "%s.%s" % (mod, name)

    def __call__(self, frame, event, arg):
        p = self.point(frame, event, arg)
        if p is None:
            return
        self.n += 1
        if self.n == self.at:
            self.where = p
            raise self.exc("injected")

    def run(self, fn, *a):
        old = sys.getprofile()
        sys.setprofile(self)
        try:
            return fn(*a)
        finally:
            sys.setprofile(old)


@st.composite
def histories(draw):
    c = draw(c28.threads())
    del c["steps"]
    c["tasks"] = c["tasks"][:draw(gen.ints(1, 2))]
    n = len(c["tasks"])
    c["ops"] = [[draw(gen.ints(0, n - 1)), draw(gen.ints(0, 9999)),
                 draw(gen.pick(*FAULTS))] for _ in range(draw(gen.ints(1, 4)))]
    c["extra"] = draw(gen.pick("no", "no", "roi", "order"))
    c["shared"] = draw(st.booleans())
    return c


class Work:
    """the tasks of a case on objects that live as long as this one"""

    def __init__(self, c, arrs, mods, paths, d):
        import viqa

        self.c, self.arrs, self.mods, self.paths, self.d = c, arrs, mods, paths, d
        self.objs = []
        for i, t in enumerate(c["tasks"]):
            s = c["slots"][t["a"]]
            ms = self.objs[0][0] if i and c["shared"] and t["ms"] == c["tasks"][0]["ms"] \
                else [c15.make(m[:2], s) for m in t["ms"]]
            kws = [c15.real(m[2]) for m in t["ms"]]
            out = os.path.join(d, "t%d" % i)
            os.makedirs(out, exist_ok=True)
            box = None
            if t["kind"] in ("multiple", "export", "fusion"):
                box = viqa.MultipleMetrics(ms, kws)
            elif t["kind"] == "batch":
                pairs = os.path.join(out, "pairs.csv")
                if not os.path.exists(pairs):
                    for nm, im in (("r", arrs[t["a"]]), ("m", mods[i])):
                        c12.as_file(im, out, nm)
                    ls = [n for n in sorted(os.listdir(out)) if "data" not in n]
                    r, m = [n for n in ls if n[0] == "r"][0], [n for n in ls if n[0] == "m"][0]
                    with open(pairs, "w") as f:
                        f.write("reference_image,modified_image\n" + "".join(
                            "%s,%s\n" % p for p in [(r, m), (r, r), (m, r)][:1 + t["n"]]))
                box = viqa.BatchMetrics(out, pairs, ms, kws)
            self.objs.append((ms, box, kws, out))

    def go(self, i):
        t, c = self.c["tasks"][i], self.c
        ms, box, kws, out = self.objs[i]
        kind = t["kind"]
        if kind not in ("score", "multiple", "batch", "export", "fusion"):
            return c28.job(t, c, self.arrs, self.mods, self.paths, self.d, i)("o")
        x, y = self.arrs[t["a"]], self.mods[i]
        src = self.paths[t["a"]] if t["file"] and c["form"] != "rgb" else x
        if kind == "score":
            m = ms[0]
            v = m.score(src, **kws[0]) if m.type == "no-reference" else m.score(src, y, **kws[0])
            return [v, m.score_val]
        more = {}
        if c["extra"] == "roi" and c["form"] != "rgb":
            more["roi"] = [tuple(r) for r in c15.ROI[c["form"]]]
        elif c["extra"] == "order":
            more["scaling_order"] = 0
        if kind == "batch":
            return dict(box.calculate(**more))
        res = dict(box.calculate(src, y, **more))
        if kind == "fusion":
            from viqa.fusion import fuse_metrics_linear_combination

            if any(m.type == "no-reference" for m in ms):
                return res
            return [res, fuse_metrics_linear_combination(ms, [1.0 + j for j in range(len(ms))])]
        if kind == "export":
            box.export_results(out, "r.csv")
            with open(os.path.join(out, "r.csv")) as f:
                return [res, f.read()]
        return res


def surroundings():
    """state of the process a call has to leave as it is"""
    import matplotlib
    import torch

    return {"cwd": os.getcwd(), "np.geterr": np.geterr(), "torch dtype": torch.get_default_dtype(),
            "torch grad": torch.is_grad_enabled(), "torch threads": torch.get_num_threads(),
            "np.random": hash(np.random.get_state()[1].tobytes()) ^ np.random.get_state()[2],
            "random": hash(random.getstate()), "torch random": hash(
                torch.get_rng_state().numpy().tobytes()),
            "warning filters": len(warnings.filters), "print": np.get_printoptions(),
            "env": dict(os.environ), "backend": matplotlib.get_backend(),
            "recursion": sys.getrecursionlimit(), "path": list(sys.path)}


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a)


def attempt(fn, *a):
    try:
        return c28.flat(fn(*a))
    except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
        return ("raised", type(e).__name__)


def raised(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "raised"


@clause("C30", "faults", histories, 700, thorough=15000, shards=8,
        rule="a library call failed and the call raised")
def faults(c):
    """after calls that failed in any library call everything works as with new objects"""
    with scratch_dir() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        arrs = [gen.mk(s) for s in c["slots"]]
        mods = [gen.mod(c["slots"][t["a"]], t["d"]) for t in c["tasks"]]
        paths = [c12.as_file(gen.mk(s, "C"), d, "s%d" % i) for i, s in enumerate(c["slots"])]
        keep = [np.array(a) for a in arrs + mods]
        want, total = [], []
        for i in range(len(c["tasks"])):
            f = Faults()
            want.append(quiet(attempt, f.run, Work(c, arrs, mods, paths, d).go, i))
            total.append(f.n)
        files = {p: open(p, "rb").read() for p in map(str, paths)}
        w = Work(c, arrs, mods, paths, d)
        env = surroundings()
        hit = set()
        for i, at, kind in c["ops"]:
            t = c["tasks"][i]
            if not total[i]:
                continue
            f = Faults(1 + at % total[i], FAULTS[kind])
            before = [m.score_val for m in w.objs[i][0]]
            got = quiet(attempt, f.run, w.go, i)
            what = "%s %s, where %s failed (%s)" % (t["kind"], [m[0] for m in t["ms"]], f.where,
                                                    FAULTS[kind].__name__)
            if f.where and raised(got):
                hit.add(t["kind"])
                if t["kind"] == "score":
                    for m, b in zip(w.objs[i][0], before):
                        check(c15.unchanged(m.score_val, b), "%s: score_val is %s, was %s", what,
                              m.score_val, b)
            else:
                check(c28.agree(got, want[i]), "%s: the call returned %s instead of %s", what,
                      repr(got)[:120], repr(want[i])[:120])
            for x, k in zip(arrs + mods, keep):
                check(np.array_equal(np.asarray(x), k, equal_nan=k.dtype.kind == "f"),
                      "%s: an image was modified", what)
            now = surroundings()
            for k in env:
                check(now[k] == env[k], "%s: %s is %s, was %s", what, k, now[k], env[k])
        for p, b in files.items():
            check(open(p, "rb").read() == b, "an input file was modified")
        for i, t in enumerate(c["tasks"]):
            got = quiet(attempt, w.go, i)
            check(c28.agree(got, want[i]), "%s %s after %s: %s, with new objects %s", t["kind"],
                  [m[0] for m in t["ms"]], c["ops"], repr(got)[:150], repr(want[i])[:150])
            fresh = quiet(attempt, Work(c, arrs, mods, paths, d).go, i)
            check(c28.agree(fresh, want[i]), "%s %s with new objects after %s: %s, before %s",
                  t["kind"], [m[0] for m in t["ms"]], c["ops"], repr(fresh)[:150],
                  repr(want[i])[:150])
    ok = [k for k in hit]
    return "+".join(sorted(ok)) if ok and not all(raised(v) for v in want) else False
