"""Q-Measure: the wrapper around the native library, with a stand-in for the library."""
import contextlib
import io
import os
import subprocess
import sys
import sysconfig

from hypothesis import strategies as st
import numpy as np

from .. import core, gen
from ..core import clause, check, close, must_raise, num, same_array, scratch_dir, sut, sut_warn
from . import c12

ASSUMPTIONS = ["the native Q-Measure library is an empty submodule: a stand-in records the "
               "voxels and settings it is given and returns a checksum of them",
               "the integer parts of minimum and maximum fit into a C int"]
DT = ("uint8", "uint16", "int16", "int8", "float16", "float32", "float64")


def prepare():
    """compile the extension module against the stand-in, import QMeasure"""
    import importlib
    import importlib.util
    from importlib.machinery import ExtensionFileLoader

    name = "viqa.nr_metrics.qmeasure_utils.qmeasurecalc"
    d = os.path.join(core.SRC, "viqa/nr_metrics/qmeasure_utils")
    out = os.path.join(core.scratch_root(), "qmeasurecalc" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = ["g++", "-shared", "-fPIC", "-O1", "-w", "-std=c++17",
           "-I" + os.path.join(os.path.dirname(core.__file__), "qstub"),
           "-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(),
           os.path.join(d, "qmeasurecalcmodule.cpp"), "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise core.HarnessError("qmeasurecalc does not build:\n" + p.stderr[-2000:])

    class Finder:
        @staticmethod
        def find_spec(fullname, path=None, target=None):
            if fullname == name:
                return importlib.util.spec_from_file_location(
                    name, out, loader=ExtensionFileLoader(name, out))
            return None

    sys.meta_path.insert(0, Finder)
    importlib.import_module("viqa.nr_metrics.qmeasure")


def Q(**kw):
    return sys.modules["viqa.nr_metrics.qmeasure"].QMeasure(**kw)


@contextlib.contextmanager
def recorder():
    """yields a function returning the calls the library got so far"""
    with scratch_dir() as d:
        fn = os.path.join(d, "q")
        os.environ["QSTUB_OUT"] = fn

        def calls():
            out, b, i = [], b"", 0
            if os.path.exists(fn):
                with open(fn, "rb") as f:
                    b = f.read()
            while i < len(b):
                h = np.frombuffer(b, np.float64, 8, i)
                i += 64
                n = int(h[0] * h[1] * h[2])
                v = np.frombuffer(b, np.float32, n, i)
                i += 4 * n
                sh = tuple(int(x) for x in h[:3])
                out.append(dict(shape=sh, lo=h[3], hi=h[4], bins=h[5], peaks=h[6], q=h[7],
                                vol=v.reshape(sh, order="F"), flat=v))
            return out

        try:
            yield calls
        finally:
            os.environ.pop("QSTUB_OUT", None)


@st.composite
def case(draw):
    sh = draw(gen.grow([draw(gen.ints(1, 7)) for _ in range(3)]))
    if np.prod(sh) == 1:
        sh[0] = 2
    if sh[2] == 3 and draw(gen.ints(0, 3)):
        sh[2] = 4
    img = draw(gen.image(st.just(sh), dtypes=DT))
    roi = None  # three slices count as RGB channels for cropping
    if draw(gen.ints(0, 2)) == 0 and sh[2] != 3:
        roi = []
        for n in sh:
            a = draw(gen.ints(0, n - 1))
            roi.append([a, draw(gen.ints(a + 1, n))])
    return dict(img=img, roi=roi, norm=draw(gen.pick(None, None, 1, 255, 65535)),
                neg=draw(st.booleans()), k=draw(gen.opt(hist_bins=gen.ints(1, 512),
                                                        num_peaks=gen.ints(1, 9))),
                how=draw(gen.pick("array", "array", "image", "tensor", "file")),
                dec=draw(gen.ints(0, 6)))


def volume(c):
    a = gen.mk(c["img"])
    if c["neg"] and a.dtype.kind in "fi":
        a = gen.relayout(a - np.asarray(c["img"]["top"] / 2).astype(a.dtype), c["img"]["layout"])
    return a


@clause("C26", "score", case, 1500, thorough=60000, shards=4,
        rule="the volume is not constant and was handed to the library")
def score(c):
    """the library gets exactly the voxels and settings, and its value is the score"""
    import viqa

    a = volume(c)
    keep = a.copy()
    roi = [tuple(r) for r in c["roi"]] if c["roi"] else None
    want = keep
    kw = {}
    if c["norm"]:
        if (keep == keep.flat[0]).all():
            return False
        kw.update(normalize=True, data_range=c["norm"])
        want = np.asarray(sut(viqa.normalize_data, keep, (0, c["norm"])))
    if roi:
        kw["roi"] = roi
        want = want[tuple(slice(*r) for r in roi)]
    want = want.astype(np.float32)
    m = Q(**kw)
    with scratch_dir() as d, recorder() as calls:
        how = c["how"]
        x = a
        if how == "image":
            x = viqa.ImageArray(a)
        elif how == "tensor":
            import torch

            if a.dtype == np.uint16 or any(s < 0 for s in a.strides):
                how = "array"
            else:
                x = torch.from_numpy(a)
        elif how == "file":
            if a.dtype.name in ("uint8", "uint16", "float32", "float64") and a.ndim == 3:
                x = c12.as_file(np.ascontiguousarray(a), d, "v")
            else:
                how = "array"
        v, cats, _ = sut_warn(m.score, x, **c["k"])
        got = calls()
    same_array(a, keep, "volume after scoring")
    check(len(got) == 1, "%d calls of the library", len(got))
    g = got[0]
    what = "%s %s, strides %s, passed as %s" % (a.dtype, a.shape, a.strides, how)
    check(g["shape"] == want.shape, "%s: the library got shape %s", what, g["shape"])
    same_array(np.sort(g["flat"]), np.sort(want.ravel()), "voxels of " + what)
    same_array(g["vol"], want, "voxels (x fastest) of " + what)
    check((g["lo"], g["hi"]) == (int(want.min()), int(want.max())), "%s: range %s to %s", what,
          g["lo"], g["hi"])
    check(g["bins"] == c["k"].get("hist_bins", 128) and g["peaks"] == c["k"].get("num_peaks", 2),
          "%s: %s bins and %s peaks, passed %s", what, g["bins"], g["peaks"], c["k"])
    check(num(v) == g["q"] and num(m.score_val) == g["q"], "score %r, score_val %r, library %r",
          v, m.score_val, g["q"])
    check(any(issubclass(w, RuntimeWarning) for w in cats) or want.shape[-1] != 3,
          "no warning for an RGB-like volume")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sut(m.print_score, c["dec"])
    check(out.getvalue() == "Q-Measure: %s\n" % np.round(g["q"], c["dec"]), "printed %r",
          out.getvalue())
    return "%s %s" % (how, a.dtype) if (want != want.flat[0]).any() else False


@st.composite
def badcase(draw):
    c = draw(case())
    c.update(roi=None, norm=None, bad=draw(gen.pick("2D", "1D", "4D", "unscored")))
    return c


@clause("C26", "rejection", badcase, 400, thorough=4000, rule="every case")
def rejection(c):
    """images that are no volumes never reach the library"""
    a = volume(c)
    m = Q()
    old = sut(m.score, a)
    b = {"2D": a[:, :, 0], "1D": a[0, 0], "4D": a[None], "unscored": a}[c["bad"]]
    if c["bad"] == "unscored":
        m = Q()
        _, cats, _ = sut_warn(m.print_score)
        check(m.score_val is None and any(issubclass(w, RuntimeWarning) for w in cats),
              "no warning without a score")
        return c["bad"]
    with recorder() as calls:
        must_raise(ValueError, "%s image" % c["bad"], m.score, b)
        check(not calls(), "the library was called")
    check(m.score_val == old, "score_val %r, before %r", m.score_val, old)
    return c["bad"]


@clause("C26", "multiple", lambda: st.tuples(case(), case()).map(list), 400, thorough=8000,
        shards=2, rule="the two volumes differ")
def multiple(cs):
    """Q-Measure of both volumes within MultipleMetrics"""
    import viqa

    c = cs[0]
    a = volume(c)
    if a.shape[-1] == 3:
        return False
    b = gen.mk(dict(c["img"], seed=cs[1]["img"]["seed"]), cs[1]["img"]["layout"])
    k = dict(c["k"])
    q = Q()
    w = [num(sut(Q().score, v, **k)) for v in (a, b)]
    r = sut(viqa.MultipleMetrics([viqa.RMSE(), q], [{}, k]).calculate, a, b)
    check(list(r) == ["RMSE", "Q-Measure_r", "Q-Measure_m"], "results %s", list(r))
    close(r["Q-Measure_r"], w[0], "Q-Measure_r", 0, 0)
    close(r["Q-Measure_m"], w[1], "Q-Measure_m", 0, 0)
    check(k == c["k"], "parameters changed to %s", k)
    return a.dtype.name if not np.array_equal(a, b) else False
