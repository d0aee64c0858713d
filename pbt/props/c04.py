"""Volume scores: single slices and means over slices."""
from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, close, check, must_raise, sut, num
from . import c07

ASSUMPTIONS = ["volumes have a last axis other than 3 (such arrays are RGB images)"]

NAMES = ("FSIM", "MSSSIM", "VIFp", "VSI", "GSM", "MAD")


@st.composite
def params(draw, name):
    if name in c07.NAMES:
        k = draw(c07.kwargs(name))
        if name == "MSSSIM":
            k["kernel_size"] = draw(gen.pick(3, 5))
            k["scale_weights"] = k["scale_weights"][:2]
        return k, c07.min_extent(name, k)
    if name == "GSM":
        return draw(gen.opt(c=gen.pick(50, 200, 700), p=gen.pick(0.05, 0.3))), 4
    bs = draw(gen.pick(4, 5, 6, 8))
    k = {"block_size": bs}
    k.update(draw(gen.opt(block_overlap=gen.pick(0, 0.5, 0.75), beta_1=gen.pick(0.2, 0.467),
                          orientations_num=gen.pick(2, 3), ms_scale=gen.pick(1, 2))))
    return k, 2 * bs + 2


def cls(name):
    import viqa

    return getattr(viqa, name)


@st.composite
def case(draw, thick=False):
    name = draw(gen.pick(*NAMES))
    k, e = draw(params(name))
    dim = draw(gen.ints(0, 2))
    n = draw(gen.pick(1, 2, 2, 3, 4, 5))
    if dim == 2 and n == 3:
        n = 4
    sh = [draw(gen.ints(e, e + 6)) for _ in range(3)]
    # any order of the extents
    if thick:  # every slice of every axis could be scored
        pass
    elif draw(gen.ints(0, 1 if name == "GSM" else 3)):
        sh[dim] = n
    else:
        sh[dim] = draw(gen.ints(2, e + 8))
    if sh[2] == 3:
        sh[2] = 4
    c = draw(gen.pair_case(st.just(sh), dtypes=("uint8", "uint16", "float64", "float32"),
                           kinds=["lowcon", "noise", "smooth", "blocks"],
                           modes=["noise", "indep", "blur", "shift", "roll", "pixel"]))
    if c["img"]["dtype"].startswith("float"):
        c["img"]["top"] = 255.0
    if name == "VIFp" and c["img"]["kind"] == "blocks":
        c["img"]["kind"] = "smooth"  # flat windows: float32 rounding decides
    c.update(name=name, k=k, dim=dim, slice=draw(gen.ints(-sh[dim], sh[dim] - 1)))
    return c


def cut(a, dim, i):
    return np.take(a, i, axis=dim)


def tol(c):
    if c["name"] == "VIFp":
        return dict(rtol=2e-3, atol=2e-3)
    t = 1e-4 if c["img"]["dtype"] == "float32" or c["name"] in c07.NAMES else 1e-8
    return dict(rtol=t, atol=t)


@clause("C04", "slice", case, 600, thorough=12000, rule="the slices differ between the images", shards=8)
def one_slice(c):
    """(dim, im_slice) scores exactly that 2D slice"""
    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = gen.data_range(c["img"])
    m = cls(c["name"])(data_range=dr)
    v = sut(m.score, a, b, dim=c["dim"], im_slice=c["slice"], **c["k"])
    close(m.score_val, v, "score_val", 1e-12, 0)
    sa, sb = cut(a, c["dim"], c["slice"]), cut(b, c["dim"], c["slice"])
    w = sut(cls(c["name"])(data_range=dr).score, sa, sb, **c["k"])
    close(v, w, "%s of slice %d along axis %d" % (c["name"], c["slice"], c["dim"]), **tol(c))
    return c["name"] if not np.array_equal(sa, sb) else False


@clause("C04", "mean", case, 360, thorough=8000, rule="more than one slice, volumes differ", shards=8)
def mean(c):
    """dim alone scores the mean over all slices along that axis"""
    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = gen.data_range(c["img"])
    m = cls(c["name"])(data_range=dr)
    v = sut(m.score, a, b, dim=c["dim"], **c["k"])
    close(m.score_val, v, "score_val", 1e-12, 0)
    n = a.shape[c["dim"]]
    w = [num(sut(cls(c["name"])(data_range=dr).score, cut(a, c["dim"], i), cut(b, c["dim"], i),
                 **c["k"])) for i in range(n)]
    close(v, np.mean(w), "%s of the volume along axis %d" % (c["name"], c["dim"]), **tol(c))
    return c["name"] if n > 1 and not np.array_equal(a, b) else False


@st.composite
def flat(draw):
    name = draw(gen.pick(*NAMES))
    k, e = draw(params(name))
    sh = [draw(gen.ints(e, e + 5)), draw(gen.ints(e, e + 5))]
    rgb = draw(gen.ints(0, 3)) == 0
    c = draw(gen.pair_case(st.just(sh + [3] if rgb else sh),
                           kinds=["lowcon", "noise", "smooth"]))
    if c["img"]["dtype"].startswith("float"):
        c["img"]["top"] = 255.0
    c.update(name=name, k=k, dim=draw(gen.pick(None, 0, 1, 2)),
             slice=draw(st.one_of(st.none(), gen.ints(-3, 40))))
    return c


@clause("C04", "plane", flat, 240, thorough=6000, rule="dim or im_slice given", shards=4)
def plane(c):
    """dim and im_slice do not change the score of a 2D or RGB image"""
    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = gen.data_range(c["img"])
    w = sut(cls(c["name"])(data_range=dr).score, a, b, **c["k"])
    v = sut(cls(c["name"])(data_range=dr).score, a, b, dim=c["dim"], im_slice=c["slice"], **c["k"])
    close(v, w, c["name"] + " of a 2D image with dim/im_slice", 1e-12, 1e-12)
    return c["dim"] is not None or c["slice"] is not None


@st.composite
def bad(draw):
    c = draw(case(thick=True))
    c["bad"] = draw(gen.pick("nothing", "slice_only", "dim", "dim_full", "slice_type"))
    c["v"] = draw({
        "nothing": st.none(), "slice_only": gen.ints(0, 3), "dim": gen.pick(3, -1, 7, "x", 1.5, -3),
        "dim_full": gen.pick(3, -1, 7, "x", 1.5, -2), "slice_type": gen.pick(0.0, 1.0, 1.5, "0", [0])}[c["bad"]])
    return c


@clause("C04", "rejects", bad, 600, thorough=8000, rule="every case", shards=2)
def rejects(c):
    """missing or invalid dim and non-integer im_slice raise ValueError"""
    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    m = cls(c["name"])(data_range=gen.data_range(c["img"]))
    kw = {"nothing": {}, "slice_only": {"im_slice": c["v"]},
          "dim": {"dim": c["v"], "im_slice": 0}, "dim_full": {"dim": c["v"]},
          "slice_type": {"dim": c["dim"], "im_slice": c["v"]}}[c["bad"]]
    must_raise((ValueError,), "%s with %s" % (c["name"], kw), m.score, a, b, **kw, **c["k"])
    check(m.score_val is None, "score_val set by a failing call")
    return c["name"]
