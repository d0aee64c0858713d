"""Normalization maps the data range linearly and without overflow."""
from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, check, close, must_raise, num, same_array, sut, sut_warn

ASSUMPTIONS = ["images are not constant", "for integer output all values lie inside a given input range"]
OUT = {1: np.float32, 255: np.uint8, 65535: np.uint16}
DT = ("uint8", "uint16", "uint32", "int8", "int16", "int32", "float16", "float32", "float64",
      "int64", "uint64")


@st.composite
def src(draw, dtypes=DT, shape=None):
    sh = shape or draw(gen.grow(draw(gen.pick([3, 4], [7, 5], [2, 2], [3, 4, 5], [6, 5, 3], [1, 9],
                                              [4, 4, 2])), cap=20000))
    return dict(shape=sh, dtype=draw(gen.pick(*dtypes)), seed=draw(gen.SEED),
                lo=draw(st.floats(0, 1)), hi=draw(st.floats(0, 1)),
                kind=draw(gen.pick("noise", "noise", "blocks", "extreme", "smooth", "two")),
                mag=draw(gen.pick(1.0, 255.0, 1e4, 1e-3, 4e4)), layout=draw(gen.pick(*gen.LAYOUTS)))


def mk(s):
    """values between two drawn ends of the domain of the dtype"""
    dt = np.dtype(s["dtype"])
    rng = np.random.default_rng(s["seed"])
    x = base = gen.base(s["shape"], s["kind"] if s["kind"] != "two" else "extreme", rng)
    x = (x - base.min()) / max(base.max() - base.min(), 1e-9)
    lo, hi = sorted((s["lo"], s["hi"]))
    if dt.kind == "f":
        a = ((lo + (hi - lo) * x) * 2 - 1) * s["mag"]
        a = a.astype(dt)
    else:
        i = np.iinfo(dt)
        least, most = max(i.min, -2**40), min(i.max, 2**40)
        a = np.floor((lo + (hi - lo) * x) * (most - least)) + least
        a = np.clip(a, least, most).astype(np.int64).astype(dt)
    if (a == a.flat[0]).all():
        a = a.copy()
        top = (a.dtype.type(s["mag"]) if dt.kind == "f" else min(np.iinfo(dt).max, 2**40))
        a.flat[-1] = top if a.flat[0] != top else 0
    return gen.relayout(a, s["layout"])


def exact(a, lo, hi, R):
    """(v - lo) * R / (hi - lo) with more precision than double"""
    L = np.longdouble
    return (a.astype(L) - L(lo)) * L(R) / (L(hi) - L(lo))


def judge(got, a, lo, hi, R, what):
    check(got.dtype == OUT[R], "%s: dtype %s, expected %s", what, got.dtype, OUT[R].__name__)
    check(got.shape == a.shape, "%s: shape %s", what, got.shape)
    e = exact(np.asarray(a), lo, hi, R)
    g = np.asarray(got).astype(np.longdouble)
    if R == 1:
        bad = np.abs(g - e) > 1.3e-7 * np.maximum(np.abs(e), 1e-3)
    else:
        # truncation; a value within rounding of an integer may fall on either side
        bad = ~((g <= e + 1e-7) & (g > e - 1 - 1e-7))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        check(False, "%s: %r became %r, exactly %.9g", what, a[i].item(), got[i].item(),
              float(e[i]))
    ends = (np.asarray(a) == lo, np.asarray(a) == hi)
    check((g[ends[0]] == 0).all(), "%s: the minimum became %r", what,
          float(g[ends[0]].max()) if ends[0].any() else None)
    check((g[ends[1]] == R).all(), "%s: the maximum became %r", what,
          float(g[ends[1]].min()) if ends[1].any() else None)


@clause("C13", "automatic", lambda: st.fixed_dictionaries(dict(
    s=src(), R=gen.pick(1, 255, 65535), ia=st.booleans())), 6000, thorough=300000, shards=4,
    rule="the dtype does not span exactly the output range")
def automatic(c):
    """minimum and maximum map to the ends of the output range"""
    import viqa

    a = mk(c["s"])
    keep = a.copy()
    x = viqa.ImageArray(a) if c["ia"] else a
    got, cats, _ = sut_warn(viqa.normalize_data, x, (0, c["R"]))
    same_array(a, keep, "input")
    R = c["R"]
    what = "%s to (0, %d)" % (a.dtype, R)
    if (a.dtype.name, R) in (("uint8", 255), ("uint16", 65535)):
        same_array(got, keep, what)
        check(got.dtype == keep.dtype, "%s: dtype %s", what, got.dtype)
        check(any(issubclass(k, Warning) for k in cats), "%s: no warning", what)
        return False
    judge(got, keep, float(keep.min()), float(keep.max()), R, what)
    again = sut(viqa.normalize_data, got, (0, R))
    check(again.dtype == got.dtype, "normalized twice: dtype %s", again.dtype)
    same_array(again, got, "normalized twice")
    return "%s->%d" % (a.dtype, R)


@st.composite
def rangecase(draw):
    s = draw(src())
    return dict(s=s, R=draw(gen.pick(1, 255, 65535)), below=draw(gen.ints(0, 300)),
                above=draw(gen.ints(0, 300)), inside=draw(gen.pick(None, None, 0.1, 0.4)))


@clause("C13", "given-range", rangecase, 3000, thorough=150000, shards=2,
        rule="the given range is not the image range")
def given_range(c):
    """a given input range maps to the output range"""
    import math

    import viqa

    a = mk(c["s"])
    R = c["R"]
    if (a.dtype.name, R) in (("uint8", 255), ("uint16", 65535)):
        return False
    lo = math.floor(float(a.min())) - c["below"]
    hi = math.ceil(float(a.max())) + c["above"]
    if R == 1 and c["inside"]:
        # float output: the map goes on linearly outside the given range
        span = hi - lo
        if span >= 10:
            lo, hi = lo + int(span * c["inside"]), hi - int(span * c["inside"])
    got = sut(viqa.normalize_data, a, (0, R), (lo, hi), False)
    judge(got, a, lo, hi, R, "%s from (%d, %d) to (0, %d)" % (a.dtype, lo, hi, R))
    return c["below"] + c["above"] > 0 or (R == 1 and bool(c["inside"]))


@clause("C13", "rejection", lambda: st.fixed_dictionaries(dict(
    s=src(dtypes=("uint8", "uint16", "int16", "float32", "float64")),
    bad=gen.pick("out", "dtype", "input"), k=gen.ints(0, 6))), 800, thorough=10000,
    rule="every case")
def rejection(c):
    """other output ranges, dtypes and a missing input range are rejected"""
    import viqa

    a = mk(c["s"])
    if c["bad"] == "out":
        rng = [(0, 1023), (0, 256), (1, 255), (-1, 1), (0, 4095), (0, 2), (0, 254)][c["k"]]
        must_raise(ValueError, "output range %s" % (rng,), viqa.normalize_data, a, rng)
    elif c["bad"] == "dtype":
        b = a.astype([bool, complex, "S3", object][c["k"] % 4])
        must_raise(ValueError, "dtype %s" % b.dtype, viqa.normalize_data, b, (0, 255))
    else:
        R = 65535 if a.dtype != np.uint16 else 255
        must_raise(ValueError, "no input range", viqa.normalize_data, a, (0, R),
                   automatic_data_range=False)
    return c["bad"]


@clause("C13", "metrics", lambda: st.fixed_dictionaries(dict(
    a=src(shape=[13, 12]), b=src(shape=[13, 12]), R=gen.pick(1, 255, 65535),
    name=gen.pick("PSNR", "RMSE", "SSIM", "UQI", "GSM", "CNR", "SNR", "load"))), 1500,
    thorough=40000, shards=2, rule="the normalized images differ")
def metrics(c):
    """metrics with normalize=True score the normalized images"""
    import viqa

    x = mk(c["a"])
    s = dict(c["b"], dtype=c["a"]["dtype"])
    y = mk(s)
    kx, ky = x.copy(), y.copy()
    R, name = c["R"], c["name"]
    nx, ny = (sut(viqa.normalize_data, v, (0, R)) for v in (x, y))
    if name == "load":
        got = sut(viqa.load_data, x, data_range=R, normalize=True)
        same_array(got, nx, "load_data with normalize")
        check(got.dtype == nx.dtype, "dtype %s", got.dtype)
    elif name in ("CNR", "SNR"):
        kw = dict(signal_center=(4, 4), radius=3)
        if name == "CNR":
            kw["background_center"] = (8, 7)
        m = getattr(viqa, name)(data_range=R, normalize=True)
        close(sut(m.score, x, **kw), sut(getattr(viqa, name)(data_range=R).score, nx, **kw),
              name + " with normalize", 1e-9)
    else:
        m = getattr(viqa, name)(data_range=R, normalize=True)
        v = sut(m.score, x, y)
        w = sut(getattr(viqa, name)(data_range=R).score, nx, ny)
        close(v, w, name + " with normalize", 1e-9)
    same_array(x, kx, "image after scoring")
    same_array(y, ky, "image after scoring")
    return name if not np.array_equal(nx, ny) else False
