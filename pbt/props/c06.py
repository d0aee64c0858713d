"""GSM against the formula."""
from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import clause, close, check, sut, num

ASSUMPTIONS = [
    "gradient ratios are singular where the stronger gradient is zero; images with exact "
    "integer values (any dtype) are compared tightly, other float images only when the "
    "singular set is not hit",
]


@st.composite
def case(draw, three=False):
    if three:
        sh = gen.shape3(3, 9).filter(lambda s: s[2] != 3)
    else:
        sh = gen.shape2(3, 26)
    sh = draw(gen.grow(draw(sh)))
    c = draw(gen.pair_case(sh, dtypes=("uint8", "uint16", "float32", "float64", "int16", "int32",
                                       "float16", "uint32", "int64")))
    if c["img"]["dtype"] in ("int32", "uint32", "int64"):
        c["img"]["top"] = draw(gen.pick(255.0, 65535.0, 1e6))
    c["whole"] = draw(gen.ints(0, 3)) > 0
    k = {}
    if draw(st.booleans()):
        k["c"] = draw(gen.pick(1, 50, 200, 1000, 12.5))
    if draw(st.booleans()):
        k["p"] = draw(gen.pick(0, 0.05, 0.1, 0.4, 1))
    c["k"] = k
    c["dr"] = draw(st.one_of(st.none(), gen.ints(1, 70000)))
    c["via"] = draw(gen.pick("class", "function"))
    return c


def images(c):
    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dt = c["img"]["dtype"]
    if dt.startswith("float") and c["whole"]:
        if c["img"]["top"] == 1.0:
            a, b = a * 255, b * 255
        a = gen.relayout(np.round(a).astype(dt), c["img"]["layout"])
        b = gen.relayout(np.round(b).astype(dt), c["img"]["layout"])
    return a, b


def compare(v, a, b, dr, k, integral):
    vals, cond = ref.gsm(a, b, data_range=dr, tie=1e-4 if a.dtype.kind == "f" else 1e-9,
                         **k)
    if not vals or not cond:
        return False
    v = num(v, "GSM")
    tol = 1e-8 if integral and a.dtype not in (np.float16, np.float32) else (
        2e-5 if integral else 2e-3)
    check(any(abs(v - w) <= tol * max(1, abs(w)) for w in vals),
          "GSM: got %.12g, expected %s", v, vals)
    return not np.array_equal(a, b)


def singular(a, b):
    """float image whose gradient may vanish up to rounding"""
    for z in (a, b):
        z = np.asarray(z, np.float64)
        for name in (ref.K2 if z.ndim == 2 else ref.K3):
            g = np.abs(ref.pad_correlate(z, ref.kernel_table()[name]))
            if (g < 1e-4 * np.abs(z).max()).any():
                return True
    return False


def run(c, exp):
    import viqa
    from viqa.fr_metrics.gsm import gradient_similarity

    a, b = images(c)
    if (a == a.flat[0]).all() and (b == b.flat[0]).all():
        return False
    dr = c["dr"] or gen.data_range(c["img"])
    if c["via"] == "function":
        v = sut(gradient_similarity, a, b, data_range=gen.number(c["img"], dr), **c["k"])
    else:
        m = viqa.GSM(data_range=gen.number(c["img"], dr))
        if exp:
            v = sut(m.score, a, b, dim=c["dim"], experimental=True, **c["k"])
        else:
            v = sut(m.score, a, b, **c["k"])
        close(m.score_val, v, "score_val", 0, 0)
    integral = not c["img"]["dtype"].startswith("float") or c["whole"]
    if not integral and singular(a, b):
        return False
    return compare(v, a, b, dr, c["k"], integral)


@clause("C06", "plane", case, 1600, rule="images differ and the formula is well conditioned",
        shards=4)
def plane(c):
    """2D pairs"""
    return run(c, False)


@st.composite
def case3(draw):
    c = draw(case(three=True))
    c["dim"] = draw(gen.ints(0, 2))
    return c


@clause("C06", "volume", case3, 400, rule="images differ and the formula is well conditioned",
        shards=4)
def volume(c):
    """whole volumes in the experimental mode"""
    return run(c, True)
