"""SSIM and UQI against a windowed double precision model."""
from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import clause, close, check, must_raise, sut, num

ASSUMPTIONS = [
    "vIQA computes SSIM in single precision; scores are compared within a first-order "
    "single-precision error bound computed per case, cases whose bound exceeds 2e-2 are "
    "counted as trivial (the windows are constant to rounding and UQI is undefined there)",
]


@st.composite
def settings(draw):
    k = {}
    if draw(st.booleans()):
        k["gaussian_weights"] = draw(st.booleans())
    if draw(gen.ints(0, 2)) == 0:
        k["win_size"] = draw(gen.pick(3, 5, 7, 9, 11, 15))
    for name in ("alpha", "beta", "gamma"):
        if draw(gen.ints(0, 3)) == 0:
            k[name] = draw(gen.pick(0, 1, 2, 3, 1.7, 2.0))
    if draw(gen.ints(0, 2)) == 0:
        k["K1"] = draw(gen.pick(0.0, 0.005, 0.05, 0.3, 1))
    if draw(gen.ints(0, 2)) == 0:
        k["K2"] = draw(gen.pick(0.01, 0.05, 0.2, 1))
    if draw(gen.ints(0, 2)) == 0:
        k["sigma"] = draw(gen.pick(0.5, 0.8, 1.0, 1.5, 2.0, 2, 3.1))
    if draw(gen.ints(0, 3)) == 0:
        k["mode"] = draw(gen.pick("reflect", "mirror", "nearest", "wrap", "constant"))
    return k


def extent(k):
    if "win_size" in k:
        r = int(3.5 * k.get("sigma", 1.5) + 0.5)
        return max(k["win_size"], r + 1)
    if k.get("gaussian_weights", True):
        return 2 * int(3.5 * k.get("sigma", 1.5) + 0.5) + 1
    return 7


def model_args(k):
    m = dict(k)
    for name in ("alpha", "beta", "gamma"):
        if name in m:
            m[name] = int(m[name])
    return m


@st.composite
def gray(draw):
    k = draw(settings())
    e = extent(k)
    three = draw(gen.ints(0, 3)) == 0
    sh = gen.shape3(e, e + 5).filter(lambda s: s[2] != 3) if three else gen.shape2(e, e + 16)
    sh = draw(gen.grow(draw(sh)))
    c = draw(gen.pair_case(sh, dtypes=("uint8", "uint16", "float32", "float64", "int16")))
    c["k"] = k
    c["dr"] = draw(st.one_of(st.none(), st.none(), gen.ints(1, 70000)))
    return c


def compare(v, want, bound, what):
    tol = 2e-6 + 2 * bound
    close(v, want, what, rtol=0, atol=tol)
    return bound < 2e-2


def moderate(a, b, dr):
    """data_range not far below the values: the constants dominate rounding"""
    return max(float(np.max(a)), float(np.max(b))) <= 50 * dr


@clause("C03", "ssim", gray, 1200, rule="images differ and the error bound is below 2e-2",
        shards=4)
def ssim_(c):
    """SSIM.score and structural_similarity for 2D/3D pairs and all settings"""
    import viqa
    from viqa.fr_metrics.ssim import structural_similarity

    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = c["dr"] or gen.data_range(c["img"])
    want, bound = ref.ssim(a, b, dr, **model_args(c["k"]))
    m = viqa.SSIM(data_range=gen.number(c["img"], dr))
    v = sut(m.score, a, b, **c["k"])
    informative = compare(v, want, bound, "SSIM")
    close(m.score_val, v, "score_val", 0, 0)
    v2 = sut(structural_similarity, a, b, data_range=gen.number(c["img"], dr), **c["k"])
    close(v2, v, "structural_similarity", 1e-6, 1e-6)
    if np.array_equal(a, b) or not informative:
        return False
    return "3D" if a.ndim == 3 else "2D"


@st.composite
def chrom(draw):
    k = draw(settings())
    e = extent(k)
    c = draw(gen.pair_case(st.tuples(gen.ints(e, e + 8), gen.ints(e, e + 8), st.just(3))))
    c["k"] = k
    c["w"] = [draw(gen.pick(0.0, 0.2, 0.5, 1.0, 3.0)) for _ in range(3)]
    c["as"] = draw(gen.pick("array", "luma"))
    return c


@clause("C03", "rgb", chrom, 300, rule="images differ and the error bound is below 2e-2",
        shards=2)
def rgb_(c):
    """chromatic SSIM: mean of weight times channel score; luminance otherwise"""
    import viqa

    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = gen.data_range(c["img"])
    mk = model_args(c["k"])
    if c["as"] == "luma":
        want, bound = ref.ssim(gen.gray_ref(a), gen.gray_ref(b), dr, **mk)
        v = sut(viqa.SSIM(data_range=gen.number(c["img"], dr)).score, a, b, **c["k"])
    else:
        ch = [ref.ssim(a[..., i], b[..., i], dr, **mk) for i in range(3)]
        want = float(np.mean([w * x[0] for w, x in zip(c["w"], ch)]))
        bound = float(np.mean([abs(w) * x[1] for w, x in zip(c["w"], ch)]))
        v = sut(viqa.SSIM(data_range=gen.number(c["img"], dr), chromatic=True).score, a, b,
                color_weights=np.array(c["w"]), **c["k"])
        must_raise((ValueError,), "chromatic SSIM without color_weights",
                   viqa.SSIM(data_range=gen.number(c["img"], dr), chromatic=True).score, a, b)
    ok = compare(v, want, bound, "SSIM of RGB images")
    return ok and not np.array_equal(a, b) and c["as"]


@st.composite
def uqi(draw):
    three = draw(gen.ints(0, 3)) == 0
    k = {}
    if draw(gen.ints(0, 2)) == 0:
        k["win_size"] = draw(gen.pick(3, 5, 7, 9))
    e = k.get("win_size", 7)
    kind = draw(gen.ints(0, 4))
    if kind == 0:
        sh = st.tuples(gen.ints(e, e + 9), gen.ints(e, e + 9), st.just(3))
    elif three:
        sh = gen.shape3(e, e + 5).filter(lambda s: s[2] != 3)
    else:
        sh = gen.shape2(e, e + 16)
    if kind:
        sh = draw(gen.grow(draw(sh)))
    c = draw(gen.pair_case(sh, kinds=["noise", "smooth", "extreme", "blocks", "noise"]))
    c["k"] = k
    c["dr"] = draw(st.one_of(st.none(), gen.ints(1, 70000)))
    return c


@clause("C03", "uqi", uqi, 600, rule="images differ and the error bound is below 2e-2",
        shards=2)
def uqi_(c):
    """UQI: uniform windows, both constants zero, whatever the data range"""
    import viqa

    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = c["dr"] or gen.data_range(c["img"])
    if a.ndim == 3 and a.shape[-1] == 3:
        ra, rb = gen.gray_ref(a), gen.gray_ref(b)
    else:
        ra, rb = a, b
    want, bound = ref.ssim(ra, rb, dr, gaussian_weights=False, K1=0, K2=0, **c["k"])
    v = sut(viqa.UQI(data_range=gen.number(c["img"], dr)).score, a, b, **c["k"])
    if bound > 2e-2:
        return False
    compare(v, want, bound, "UQI")
    return not np.array_equal(a, b)


@st.composite
def bad(draw):
    return {
        "img": draw(gen.image(st.one_of(gen.shape2(9, 16), gen.shape3(9, 11)))),
        "bad": draw(st.one_of(
            st.fixed_dictionaries({"K1": gen.pick(-1, -0.01, -1e-6)}),
            st.fixed_dictionaries({"K2": gen.pick(-1, -0.01, -1e-6)}),
            st.fixed_dictionaries({"sigma": gen.pick(-1, -0.5)}),
            st.fixed_dictionaries({"win_size": gen.pick(2, 4, 6, 8)}),
            st.fixed_dictionaries({"win_size": gen.pick("over")}),
            st.fixed_dictionaries({"sigma": gen.pick(6, 9.0)}),
        )),
        "gw": draw(st.booleans()),
    }


@clause("C03", "rejects", bad, 200, rule="every case")
def rejects(c):
    """invalid constants, sigma and windows raise ValueError and leave score_val alone"""
    import viqa

    a = gen.mk(c["img"])
    k = dict(c["bad"])
    if k.get("win_size") == "over":
        m = min(a.shape)
        k["win_size"] = m + 1 if m % 2 == 0 else m + 2
    gw = c["gw"] or "sigma" in k
    m = viqa.SSIM(data_range=gen.data_range(c["img"]))
    must_raise((ValueError,), "SSIM with %s" % k, m.score, a, a, gaussian_weights=gw, **k)
    check(m.score_val is None, "score_val changed by a failing call")
    if "win_size" in k:
        must_raise((ValueError,), "UQI with %s" % k,
                   viqa.UQI(data_range=gen.data_range(c["img"])).score, a, a, **k)
    return True
