"""ImageArray behaves as the wrapped ndarray and reports its statistics."""
import contextlib
import copy
import csv
import io
import os
import pickle

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, check, close, num, same_array, scratch_dir, sut, sut_warn

ASSUMPTIONS = ["an operation NumPy rejects for the plain array may raise anything",
               "skewness and kurtosis of constant arrays are undefined and not compared"]
DT = ("uint8", "uint16", "int16", "int32", "int64", "float32", "float64")

# name -> (function of a, b, k; result is element-wise)
OPS = {
    "add": (lambda a, b, k: a + b, 1), "sub": (lambda a, b, k: a - b, 1),
    "mul": (lambda a, b, k: a * b, 1), "div": (lambda a, b, k: a / b, 1),
    "floordiv": (lambda a, b, k: a // b, 1), "mod": (lambda a, b, k: a % b, 1),
    "pow": (lambda a, b, k: a ** 2, 1), "neg": (lambda a, b, k: -a, 1),
    "abs": (lambda a, b, k: abs(a), 1), "invert": (lambda a, b, k: ~a, 1),
    "adds": (lambda a, b, k: a + k, 1), "radd": (lambda a, b, k: k + a, 1),
    "rsub": (lambda a, b, k: k - a, 1), "rdiv": (lambda a, b, k: 3.5 / (a + 1.0), 1),
    "muls": (lambda a, b, k: a * 1.5, 1), "and": (lambda a, b, k: a & b, 1),
    "shift": (lambda a, b, k: a >> 1, 1), "lt": (lambda a, b, k: a < b, 1),
    "le": (lambda a, b, k: a <= b, 1), "gt": (lambda a, b, k: a > b, 1),
    "ge": (lambda a, b, k: a >= b, 1), "eq": (lambda a, b, k: a == b, 1),
    "ne": (lambda a, b, k: a != b, 1), "gts": (lambda a, b, k: a > k, 1),
    "sqrt": (lambda a, b, k: np.sqrt(a), 1), "sin": (lambda a, b, k: np.sin(a), 1),
    "maximum": (lambda a, b, k: np.maximum(a, b), 1),
    "hypot": (lambda a, b, k: np.hypot(a, b), 1),
    "divmod": (lambda a, b, k: np.divmod(a, b), 1), "modf": (lambda a, b, k: np.modf(a * 1.5), 1),
    "frexp": (lambda a, b, k: np.frexp(a * 1.0), 1),
    "isfinite": (lambda a, b, k: np.isfinite(a), 1),
    "where-ufunc": (lambda a, b, k: np.add(a, b, where=np.asarray(a) > k,
                                           out=np.zeros_like(np.asarray(a))), 0),
    "dtype-ufunc": (lambda a, b, k: np.add(a, b, dtype=np.float64), 1),
    "out": (lambda a, b, k: np.add(a, b, out=a.copy()), 1),
    "outer": (lambda a, b, k: np.add.outer(a[0], b[0]), 0),
    "reduce": (lambda a, b, k: np.add.reduce(a, axis=0), 0),
    "accumulate": (lambda a, b, k: np.add.accumulate(a, axis=-1), 0),
    "sum": (lambda a, b, k: a.sum(), 0), "sum0": (lambda a, b, k: a.sum(axis=0), 0),
    "npsum": (lambda a, b, k: np.sum(a, axis=-1, keepdims=True), 0),
    "mean": (lambda a, b, k: a.mean(), 0), "mean1": (lambda a, b, k: np.mean(a, axis=1), 0),
    "std": (lambda a, b, k: a.std(), 0), "var0": (lambda a, b, k: a.var(axis=0), 0),
    "min": (lambda a, b, k: a.min(), 0), "max": (lambda a, b, k: np.max(a, axis=0), 0),
    "argmax": (lambda a, b, k: a.argmax(), 0), "any": (lambda a, b, k: (a > k).any(), 0),
    "all": (lambda a, b, k: np.all(a >= 0), 0), "median": (lambda a, b, k: np.median(a), 0),
    "percentile": (lambda a, b, k: np.percentile(a, 30), 0),
    "cumsum": (lambda a, b, k: a.cumsum(), 0), "prod": (lambda a, b, k: (a * 1e-3).prod(), 0),
    "clip": (lambda a, b, k: np.clip(a, 1, k + 2), 0), "round": (lambda a, b, k: (a * 0.3).round(1), 0),
    "item": (lambda a, b, k: a[0, 0], 0), "row": (lambda a, b, k: a[k % a.shape[0]], 0),
    "slice": (lambda a, b, k: a[::2, 1:], 0), "negstep": (lambda a, b, k: a[::-1, ::-1], 0),
    "newaxis": (lambda a, b, k: a[None, ..., None], 0),
    "mask": (lambda a, b, k: a[np.asarray(a) > k], 0),
    "fancy": (lambda a, b, k: a[[0, -1], :], 0), "T": (lambda a, b, k: a.T, 0),
    "reshape": (lambda a, b, k: a.reshape(-1), 0), "flip": (lambda a, b, k: np.flip(a, 0), 0),
    "rot90": (lambda a, b, k: np.rot90(a), 0), "roll": (lambda a, b, k: np.roll(a, 1, 0), 0),
    "astype": (lambda a, b, k: a.astype(np.float32), 0), "copy": (lambda a, b, k: a.copy(), 0),
    "deepcopy": (lambda a, b, k: copy.deepcopy(a), 0),
    "pickle": (lambda a, b, k: pickle.loads(pickle.dumps(a)), 0),
    "concat": (lambda a, b, k: np.concatenate([a, b]), 0),
    "stack": (lambda a, b, k: np.stack([a, b]), 0), "pad": (lambda a, b, k: np.pad(a, 1), 0),
    "where": (lambda a, b, k: np.where(np.asarray(a) > k, a, b), 0),
    "sort": (lambda a, b, k: np.sort(a, axis=0), 0), "unique": (lambda a, b, k: np.unique(a), 0),
    "dot": (lambda a, b, k: (a * 1.0)[0] @ (b * 1.0)[0].T, 0),
    "matmul": (lambda a, b, k: np.matmul(a * 1.0, np.swapaxes(b * 1.0, -1, -2)), 0),
    "tolist": (lambda a, b, k: np.array(a.tolist()), 0),
    "buffer": (lambda a, b, k: np.frombuffer(a.tobytes(), a.dtype), 0),
    "len": (lambda a, b, k: len(a), 0), "iter": (lambda a, b, k: np.array([x.sum() for x in a]), 0),
    "float": (lambda a, b, k: float(a.max()), 0),
    "array_equal": (lambda a, b, k: np.array_equal(a, b), 0),
    "allclose": (lambda a, b, k: np.allclose(a, b), 0),
    "nested": (lambda a, b, k: np.sqrt((a * 1.0 - b) ** 2).mean(), 0),
}


def _iadd(a, b, k):
    a += b
    return a


def _imul(a, b, k):
    a *= 2
    return a


def _setitem(a, b, k):
    a[0] = b[-1]
    a[a > k] = k
    return a


def _at(a, b, k):
    np.add.at(a, (0,), 1)
    return a


def _outb(a, b, k):
    np.subtract(a, b, out=a)
    return a


def _fill(a, b, k):
    a[1:] = k
    a.sort(axis=-1)
    return a


INPLACE = {"iadd": _iadd, "imul": _imul, "setitem": _setitem, "at": _at, "out": _outb,
           "fill": _fill}


@st.composite
def case(draw):
    sh = draw(gen.pick([3, 4], [5, 2], [2, 3, 4], [4, 4, 3], [6, 5], [2, 2, 2]))
    img = draw(gen.image(st.just(sh), dtypes=DT))
    return dict(img=img, seed2=draw(gen.SEED), lay2=draw(gen.pick(*gen.LAYOUTS)),
                op=draw(gen.pick(*OPS)), k=draw(gen.ints(0, 60)),
                mix=draw(gen.pick("both", "left", "right")), stats=draw(st.booleans()))


def quiet(fn, *a):
    with np.errstate(all="ignore"):
        return fn(*a)


def is_arr(x):
    return isinstance(x, np.ndarray) and x.ndim > 0


def compare(got, want, what, elementwise, image):
    if isinstance(want, tuple):
        check(isinstance(got, tuple) and len(got) == len(want), "%s: result %s", what, type(got))
        for g, w in zip(got, want):
            compare(g, w, what, elementwise, image)
        return
    g, w = np.asarray(got), np.asarray(want)
    check(g.dtype == w.dtype, "%s: dtype %s, expected %s", what, g.dtype, w.dtype)
    same_array(g, w, what, rtol=1e-6 if w.dtype.kind in "fc" else None, atol=1e-12)
    if elementwise and is_arr(want):
        check(isinstance(got, image), "%s: the result is a %s", what, type(got).__name__)


@clause("C19", "operations", case, 6000, thorough=200000, shards=4, rule="NumPy accepts the operation")
def operations(c):
    """results of operations equal those of the plain array"""
    import viqa

    a = gen.mk(c["img"])
    b = gen.mk(dict(c["img"], seed=c["seed2"]), layout=c["lay2"])
    x, y = viqa.ImageArray(a.copy()), viqa.ImageArray(b.copy())
    check(x.shape == a.shape and x.dtype == a.dtype, "ImageArray %s %s", x.shape, x.dtype)
    if c["stats"]:
        sut(x.calculate_statistics)
    if c["mix"] == "left":
        y = b
    if c["mix"] == "right":
        x = a.copy()
    fn, el = OPS[c["op"]]
    try:
        want = quiet(fn, a, b, c["k"])
    except Exception:  # noqa: BLE001
        return False
    got = sut(quiet, fn, x, y, c["k"])
    uses_a = c["mix"] != "right"
    compare(got, want, c["op"], el and uses_a, viqa.ImageArray)
    same_array(x, a, "operand after " + c["op"])
    same_array(y, b, "operand after " + c["op"])
    return c["op"]


@st.composite
def incase(draw):
    c = draw(case())
    c["op"] = draw(gen.pick(*INPLACE))
    return c


@clause("C19", "in-place", incase, 1500, thorough=40000, shards=2, rule="NumPy accepts the operation")
def inplace(c):
    """in-place operations change the values as for the plain array"""
    import viqa

    a = gen.mk(c["img"])
    b = gen.mk(dict(c["img"], seed=c["seed2"]), layout=c["lay2"])
    x = viqa.ImageArray(a.copy(order="C"))
    y = viqa.ImageArray(b) if c["mix"] == "both" else b
    view = x[...]
    try:
        want = quiet(INPLACE[c["op"]], a.copy(order="C"), b, c["k"])
    except Exception:  # noqa: BLE001
        return False
    got = sut(quiet, INPLACE[c["op"]], x, y, c["k"])
    check(isinstance(got, viqa.ImageArray), "%s: the result is a %s", c["op"], type(got).__name__)
    check(got is x, "%s made a new array", c["op"])
    same_array(got, want, c["op"])
    same_array(view, want, c["op"] + " through a view")
    return c["op"]


def moments(a):
    v = np.asarray(a, np.float64).ravel()
    m = v.mean()
    d = v - m
    m2 = (d ** 2).mean()
    return m, m2, (d ** 3).mean() / m2 ** 1.5, (d ** 4).mean() / m2 ** 2 - 3


@st.composite
def statcase(draw):
    sh = draw(gen.pick([3, 4], [15, 12], [2, 3, 4], [8, 7, 3], [1, 6], [5, 1], [6, 5, 9]))
    sh = sh if sh[-1] == 3 else draw(gen.grow(sh, cap=100000))
    return dict(img=draw(gen.image(st.just(sh), dtypes=DT + ("uint32",), kinds=gen.KINDS + ["lowcon", "const"])),
                fname=draw(gen.pick("st.csv", "st", "a.CSV", "x.y")),
                out=draw(st.booleans()), change=draw(st.booleans()))


@clause("C19", "statistics", statcase, 700, thorough=20000, shards=3,
        rule="the array is not constant")
def statistics(c):
    """calculate_statistics and describe against the definitions"""
    import viqa

    a = gen.mk(c["img"])
    x = viqa.ImageArray(a)
    if c["change"]:  # statistics always describe the current values
        sut(x.calculate_statistics)
        a = a.copy()
        a[0] = a[-1]
        x[...] = a
    flat = bool((a == a.flat[0]).all())
    keep = np.array(a)
    sut_warn(x.calculate_statistics)
    same_array(x, keep, "array after calculate_statistics")
    check(x.dtype == keep.dtype, "dtype %s", x.dtype)
    m, v, s, k = (float(keep.flat[0]), 0, 0, 0) if flat else moments(keep)
    t = 1e-4 if a.dtype == np.float32 else 1e-9
    sc = float(np.abs(keep.astype(np.float64)).max())
    cond = 0 if flat else v / (m * m + v)  # cancellation in the central moments
    lab = cond > 1e-6 if a.dtype == np.float32 else cond > 1e-12
    close(x.mean_value, m, "mean", t, t * sc * 1e-3)
    close(x.median, np.median(keep.astype(np.float64)), "median", t, 1e-12)
    close(x.minimum, keep.min(), "minimum", 0, 0)
    close(x.maximum, keep.max(), "maximum", 0, 0)
    if lab:
        close(x.variance, v, "variance", 1e-3 if a.dtype == np.float32 else 1e-8, 0)
        close(x.standarddev, v ** 0.5, "standard deviation", 1e-3 if a.dtype == np.float32 else 1e-8, 0)
        close(x.skewness, s, "skewness", t * 10, t * 100)
        close(x.kurtosis, k, "kurtosis", t * 10, t * 100)
    elif flat and keep.dtype != np.float32:
        close(x.variance, 0, "variance of a constant array", 0, 1e-20 * sc * sc)
    h = x.histogram
    check(isinstance(h, tuple) and len(h) == 2, "histogram: %s", type(h).__name__)
    cnt, edges = np.asarray(h[0]), np.asarray(h[1], np.float64)
    check(len(edges) == len(cnt) + 1 and int(cnt.sum()) == keep.size,
          "histogram counts %d of %d elements in %d bins", int(cnt.sum()), keep.size, len(cnt))
    check(edges[0] <= keep.min() and edges[-1] >= keep.max() and (np.diff(edges) >= 0).all(),
          "histogram from %s to %s", edges[0], edges[-1])
    if a.dtype.kind != "f":
        back = np.histogram(np.asarray(keep, np.float64), bins=edges)[0]
        off = np.abs(back - cnt).sum()
        check(off <= 0.5 * keep.size, "histogram counts do not fit the bins (%d differ)", off)
    with scratch_dir() as d:
        if c["out"]:
            fn = c["fname"] if c["fname"].lower().endswith(".csv") else c["fname"] + ".csv"
            if c["change"]:  # an existing file is replaced
                with open(os.path.join(d, fn), "w", newline="") as f:
                    f.write("old,file\n1,2\n" * 40)
            with contextlib.redirect_stdout(io.StringIO()):
                r = sut(x.describe, d, c["fname"])
            check(os.listdir(d) == [fn], "describe wrote %s", os.listdir(d))
            with open(os.path.join(d, fn), newline="") as f:
                rows = list(csv.reader(f))
            check(len(rows) == 2 and rows[0] == list(r), "exported %s", rows[:1])
            for n, t_ in zip(rows[0], rows[1]):
                same = np.asarray(r[n]).dtype.type(t_) == np.asarray(r[n])
                check(same or float(t_) == num(r[n]) or (num(r[n]) != num(r[n])),
                      "exported %s = %s, described %r", n, t_, r[n])
        else:
            r, cats, _ = sut_warn(x.describe)
            check(os.listdir(d) == [], "describe wrote a file")
            check(any(issubclass(w, RuntimeWarning) for w in cats), "no warning without a path")
    att = dict(mean="mean_value", median="median", variance="variance",
               standarddev="standarddev", skewness="skewness", kurtosis="kurtosis",
               minimum="minimum", maximum="maximum")
    check(sorted(r) == sorted(att), "describe returned %s", sorted(r))
    for n, at in att.items():
        d, e = num(r[n]), num(getattr(x, at))
        check(d == e or (d != d and e != e), "described %s %r, attribute %r", n, r[n],
              getattr(x, at))
    return False if flat else a.dtype.name
