"""PSNR and RMSE follow their definitions."""
from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import clause, close, check, sut, num

DT = ("uint8", "uint16", "float32", "float64", "int16", "int32", "uint32", "int8", "float16",
      "int64", "uint64")


@st.composite
def shapes(draw):
    s = draw(st.one_of(
        gen.shape2(1, 40).filter(lambda s: s[0] * s[1] > 1),
        gen.shape3(1, 12).filter(lambda s: s[0] * s[1] * s[2] > 1 and s[2] != 3),
    ))
    return draw(gen.grow(s, cap=300000))


@st.composite
def gray(draw):
    c = draw(gen.pair_case(shapes(), dtypes=DT, modes=gen.MODS + ["tiny"]))
    c["dr"] = draw(st.one_of(st.none(), gen.ints(1, 70000)))
    return c


def tolerance(spec):
    return 5e-6 if spec["dtype"] in ("float32", "float16") else 1e-9


@clause("C02", "gray", gray, 2000, rule="the two images differ", shards=4)
def gray_(c):
    """PSNR and RMSE of 2D and 3D pairs against the formula, symmetry"""
    import viqa

    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = c["dr"] or gen.data_range(c["img"])
    tol = tolerance(c["img"])
    r, p = viqa.RMSE(), viqa.PSNR(data_range=gen.number(c["img"], dr))
    v = sut(r.score, a, b)
    close(v, ref.rmse(a, b), "RMSE", rtol=tol)
    close(r.score_val, v, "RMSE.score_val", 0, 0)
    close(sut(viqa.RMSE(data_range=gen.number(c["img"], dr)).score, b, a), v, "RMSE with images exchanged", rtol=1e-6)
    v = sut(p.score, a, b)
    if np.array_equal(a, b):
        check(num(v) == np.inf, "PSNR of identical images is %r", v)
        return False
    close(v, ref.psnr(a, b, dr), "PSNR", rtol=tol, atol=10 * tol)
    close(p.score_val, v, "PSNR.score_val", 0, 0)
    close(sut(viqa.PSNR(data_range=gen.number(c["img"], dr)).score, b, a), v, "PSNR with images exchanged",
          rtol=1e-6, atol=1e-6)
    return "3D" if a.ndim == 3 else "2D"


@st.composite
def rgb(draw):
    h, w = draw(gen.grow([draw(gen.ints(1, 24)), draw(gen.ints(1, 24))], cap=100000))
    c = draw(gen.pair_case(st.just((h, w, 3)), dtypes=DT, modes=gen.MODS + ["tiny"]))
    c["chromatic"] = draw(st.booleans())
    c["dr"] = draw(st.one_of(st.none(), gen.ints(1, 70000)))
    return c


@clause("C02", "rgb", rgb, 1200, rule="the two images differ")
def rgb_(c):
    """RGB pairs: all channels with chromatic=True, luminance otherwise"""
    import viqa

    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = c["dr"] or gen.data_range(c["img"])
    tol = tolerance(c["img"])
    if c["chromatic"]:
        ra, rb = a, b
    else:
        ra, rb = gen.gray_ref(a), gen.gray_ref(b)
        tol = max(tol, 1e-7)
    scale = float(np.abs(np.asarray(a, float)).max()) + float(np.abs(np.asarray(b, float)).max())
    eps = (3e-7 if a.dtype in (np.float32, np.float16) else 1e-13) * scale
    want = ref.rmse(ra, rb)
    v = sut(viqa.RMSE(data_range=gen.number(c["img"], dr), chromatic=c["chromatic"]).score, a, b)
    close(v, want, "RMSE", rtol=tol, atol=eps)
    if np.array_equal(a, b):
        return False
    if want > 1e3 * eps:
        v = sut(viqa.PSNR(data_range=gen.number(c["img"], dr), chromatic=c["chromatic"]).score, a, b)
        close(v, ref.psnr(ra, rb, dr), "PSNR", rtol=tol, atol=10 * tol + 9 * eps / want)
        return "chromatic" if c["chromatic"] else "luminance"
    return False
