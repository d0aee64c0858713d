"""Perfect score for identical images; scores inside their range."""
from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, close, check, sut, num
from . import c04, c07

ASSUMPTIONS = ["images have at least the minimum extent of each metric",
               "MS-SSIM is run with fewer scales on small images",
               "RGB images scored as luminance are passed in one memory layout"]

NAMES = ("PSNR", "RMSE", "MAD", "SSIM", "MSSSIM", "UQI", "FSIM", "VIFp", "VSI", "GSM")


@st.composite
def case(draw, names=NAMES, force_mod=False):
    name = draw(gen.pick(*names))
    if name in c04.NAMES:
        k, e = draw(c04.params(name))
    else:
        k, e = {}, {"PSNR": 1, "RMSE": 1, "SSIM": 11, "UQI": 7}[name]
    if name == "UQI":
        k = draw(gen.opt(win_size=gen.pick(3, 5, 7)))
    if name == "SSIM":
        k = draw(gen.opt(win_size=gen.pick(3, 7, 9), gaussian_weights=st.booleans(),
                         K1=gen.pick(0.01, 0.1), K2=gen.pick(0.03, 0.3)))
    form = draw(gen.pick("2D", "2D", "RGB", "RGBc", "3D"))
    chrom = form == "RGBc" and name not in ("MAD", "GSM", "UQI")
    hw = [draw(gen.ints(e, e + 10)), draw(gen.ints(e, e + 10))]
    if form == "3D":
        n = draw(gen.pick(1, 2, 4, 5))
        dim = draw(gen.ints(0, 2))
        if name in ("PSNR", "RMSE"):
            sh = hw + [n]
        elif name in ("SSIM", "UQI"):
            sh = [draw(gen.ints(e, e + 4)) for _ in range(3)]
        else:
            sh = hw[:]
            sh.insert(dim, n)
            k = dict(k, dim=dim)
            if draw(st.booleans()):
                k["im_slice"] = draw(gen.ints(-n, n - 1))
        if sh[2] == 3:
            sh[2] = 4
    elif form.startswith("RGB"):
        sh = hw + [3]
    else:
        sh = hw
    if np.prod(sh) < 2:
        sh[0] += 1
    c = draw(gen.pair_case(st.just(sh), kinds=gen.KINDS + ["lowcon"],
                           modes=gen.MODS + ["tiny"]))
    if name == "MAD" and c["img"]["dtype"].startswith("float"):
        c["img"]["top"] = 255.0
    c.update(name=name, k=k, chromatic=chrom, layout2=draw(gen.pick(*gen.LAYOUTS)))
    return c


def make(c):
    import viqa

    dr = gen.data_range(c["img"])
    kw = {"chromatic": True} if c["chromatic"] else {}
    m = getattr(viqa, c["name"])(data_range=dr, **kw)
    k = dict(c["k"])
    if c["name"] == "SSIM" and c["chromatic"]:
        k["color_weights"] = np.ones(3)
    return m, k


def flat_planes(c, a):
    """some scored plane is constant (a metric on it is undefined)"""
    if a.ndim == 2:
        return bool((a == a.flat[0]).all())
    if a.shape[-1] == 3:
        return (bool((a == a.flat[0]).all()) or
                bool((gen.gray_ref(a) == gen.gray_ref(a).flat[0]).all()) or
                any((a[..., i] == a[0, 0, i]).all() for i in range(3)))
    d = c["k"].get("dim")
    if d is None:
        return False
    s = c["k"].get("im_slice")
    idx = range(a.shape[d]) if s is None else [s]
    return any((np.take(a, i, d) == np.take(a, i, d).flat[0]).all() for i in idx)


@clause("C01", "identity", case, 900, thorough=24000,
        rule="the scored image is not constant", shards=8)
def identity(c):
    """an image against itself (also as a copy in another memory layout)"""
    a = gen.mk(c["img"])
    # the luminance of RGB images may round differently for another memory layout
    rgb = a.ndim == 3 and a.shape[-1] == 3 and not c["chromatic"]
    b = gen.mk(c["img"], layout=None if rgb else c["layout2"])
    m, k = make(c)
    name = c["name"]
    if flat_planes(c, a):
        return False
    v = num(sut(m.score, a, b, **k), name)
    check(num(m.score_val) == v or (np.isnan(v)), "score_val %r is not the score %r",
          m.score_val, v)
    if name == "PSNR":
        check(v == np.inf, "PSNR of identical images: %r", v)
    elif name in ("RMSE", "MAD"):
        check(v == 0, "%s of identical images: %r", name, v)
    else:
        tol = 2e-3 if name in ("VIFp",) else 1e-4
        check(abs(v - 1) <= tol, "%s of identical images: %r", name, v)
    return name


BOUND = ("PSNR", "RMSE", "MAD", "SSIM", "UQI", "FSIM", "VIFp", "VSI")


@clause("C01", "range", lambda: case(BOUND), 900, thorough=24000,
        rule="the two images differ", shards=8)
def range_(c):
    """scores of different images stay inside the range of the metric"""
    a = gen.mk(c["img"])
    b = gen.mod(c["img"], c["d"], layout=c["layout2"])
    m, k = make(c)
    name = c["name"]
    if flat_planes(c, a) or flat_planes(c, b):
        return False
    v = num(sut(m.score, a, b, **k), name)
    if np.array_equal(a, b):
        return False
    if name == "RMSE" and (c["chromatic"] or a.shape[-1] != 3 or a.ndim == 2):
        check(0 < v < np.inf, "RMSE of different images: %r", v)
    elif name == "PSNR" and (c["chromatic"] or a.shape[-1] != 3 or a.ndim == 2):
        check(np.isfinite(v), "PSNR of different images: %r", v)
    elif name in ("MAD", "VIFp"):
        check(v >= 0 and np.isfinite(v), "%s: %r", name, v)
    elif name in ("SSIM", "FSIM", "VSI"):
        check(v <= 1 + 1e-4, "%s: %r", name, v)
    elif name == "UQI":
        check(v <= 1 + 1e-2, "UQI: %r", v)
    return name
