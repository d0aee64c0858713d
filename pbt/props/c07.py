"""FSIM, MS-SSIM, VIFp and VSI against piq itself."""
from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import HarnessError, clause, close, check, sut, num

ASSUMPTIONS = ["piq (as installed) is the reference implementation",
               "values lie inside [0, data_range], which piq requires"]

NAMES = ("FSIM", "MSSSIM", "VIFp", "VSI")


@st.composite
def kwargs(draw, name):
    k = {}
    if name == "FSIM":
        for key, vals in dict(scales=(2, 3, 4), orientations=(2, 3, 4), min_length=(3, 6),
                              mult=(2, 3), sigma_f=(0.4, 0.55), delta_theta=(1.2, 1.5),
                              k=(1.0, 2.0, 3.0)).items():
            if draw(gen.ints(0, 3)) == 0:
                k[key] = draw(gen.pick(*vals))
    elif name == "MSSSIM":
        k["kernel_size"] = draw(gen.pick(3, 5, 7, 11))
        n = draw(gen.pick(1, 2, 2, 3))
        k["scale_weights"] = [draw(gen.pick(0.1, 0.3, 0.5, 1.0)) for _ in range(n)]
        for key, vals in dict(kernel_sigma=(0.8, 1.5, 2.0), k1=(0.01, 0.1), k2=(0.03, 0.2)).items():
            if draw(gen.ints(0, 2)) == 0:
                k[key] = draw(gen.pick(*vals))
    elif name == "VIFp":
        if draw(st.booleans()):
            k["sigma_n_sq"] = draw(gen.pick(0.5, 2.0, 5.0))
    else:
        for key, vals in dict(c1=(1.27, 3.0), c2=(386.0, 100.0), c3=(130.0, 50.0),
                              alpha=(0.4, 0.8), beta=(0.02, 0.1), omega_0=(0.021, 0.05),
                              sigma_f=(1.34, 1.0), sigma_d=(145.0, 90.0), sigma_c=(0.001, 0.01)
                              ).items():
            if draw(gen.ints(0, 4)) == 0:
                k[key] = draw(gen.pick(*vals))
    return k


def min_extent(name, k):
    if name == "FSIM":
        return 10
    if name == "MSSSIM":
        n = len(k["scale_weights"])
        return (k["kernel_size"] - 1) * 2 ** (n - 1) + 2
    if name == "VIFp":
        return 41
    return 16


def real(name, k):
    import torch

    k = dict(k)
    if "scale_weights" in k:
        k["scale_weights"] = torch.tensor(k["scale_weights"])
    return k


def piq_fn(name):
    import piq

    return {"FSIM": piq.fsim, "MSSSIM": piq.multi_scale_ssim, "VIFp": piq.vif_p, "VSI": piq.vsi}[name]


def cls(name):
    import viqa

    return getattr(viqa, {"MSSSIM": "MSSSIM", "VIFp": "VIFp"}.get(name, name))


def tensor_of(a):
    import torch

    a = np.array(a, order="C")
    a = a.astype(np.float64 if a.dtype == np.float64 else np.float32)
    if a.ndim == 2:
        return torch.tensor(a)[None, None]
    return torch.tensor(np.ascontiguousarray(np.moveaxis(a, -1, 0)))[None]


def reference(name, a, b, dr, k, chromatic):
    kw = real(name, k)
    if name == "FSIM":
        kw["chromatic"] = chromatic
    ta, tb = tensor_of(a), tensor_of(b)
    try:
        return float(piq_fn(name)(ta, tb, data_range=dr, **kw))
    except Exception as e:  # noqa: BLE001
        raise HarnessError("piq rejects the generated case: %s" % e) from e


@st.composite
def case(draw, rgb):
    name = draw(gen.pick(*NAMES))
    k = draw(kwargs(name))
    e = min_extent(name, k)
    hw = [draw(gen.ints(e, e + 14)), draw(gen.ints(e, e + 14))]
    hw = draw(gen.grow(hw, cap=40000, top=500))
    c = draw(gen.pair_case(st.just(hw + [3] if rgb else hw),
                           kinds=["noise", "smooth", "blocks", "extreme", "ramp"]))
    c["name"], c["k"] = name, k
    c["dr"] = draw(st.one_of(st.none(), gen.ints(0, 300)))
    if rgb:
        c["chromatic"] = draw(st.booleans())
    c["list"] = draw(st.booleans())
    c["layout2"] = draw(gen.pick(*gen.LAYOUTS))
    return c


def run(c, rgb):
    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"], layout=c["layout2"])
    dr = gen.data_range(c["img"]) + (c["dr"] or 0)
    name = c["name"]
    chromatic = bool(rgb and c["chromatic"])
    ra, rb = a, b
    rtol, atol = 1e-5, 1e-6
    if rgb and not chromatic:
        ra, rb = gen.gray_ref(a), gen.gray_ref(b)
        ra, rb = np.minimum(ra, a.max()), np.minimum(rb, b.max())
        if a.dtype == np.float32:
            rtol, atol = (2e-2, 1e-2) if name == "VIFp" else (5e-3, 1e-3)
            ra, rb = ra.astype(np.float32), rb.astype(np.float32)
    want = reference(name, ra, rb, dr, c["k"], chromatic)
    m = cls(name)(data_range=gen.number(c["img"], dr), **({"chromatic": True} if chromatic else {}))
    kw = dict(c["k"]) if c["list"] else real(name, c["k"])
    v = sut(m.score, a, b, **kw)
    close(v, want, name, rtol=rtol, atol=atol)
    check(isinstance(m.score_val, float), "score_val is a %s", type(m.score_val).__name__)
    close(m.score_val, v, "score_val", 1e-12, 0)
    return (name if not np.array_equal(a, b) else False)


@clause("C07", "gray", lambda: case(False), 600, thorough=16000, rule="the images differ", shards=6)
def gray(c):
    """2D grayscale pairs"""
    return run(c, False)


@clause("C07", "rgb", lambda: case(True), 300, thorough=8000, rule="the images differ", shards=4)
def rgb(c):
    """RGB pairs, three channels or luminance"""
    return run(c, True)


@st.composite
def dtypes(draw):
    name = draw(gen.pick(*NAMES))
    k = draw(kwargs(name))
    e = min_extent(name, k)
    hw = [draw(gen.ints(e, e + 8)), draw(gen.ints(e, e + 8))]
    c = draw(gen.pair_case(st.just(hw), dtypes=("uint8", "uint16"),
                           kinds=["noise", "smooth", "blocks"], layouts=["C"]))
    c["name"], c["k"] = name, k
    c["as"] = draw(gen.pick("float32", "float64", "int32", "uint16", "int64"))
    c["layout2"] = draw(gen.pick(*gen.LAYOUTS))
    return c


@clause("C07", "same_values", dtypes, 200, thorough=6000,
        rule="the images differ and the dtype or layout changes", shards=4)
def same_values(c):
    """arrays holding the same values score the same, whatever dtype and layout"""
    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = gen.data_range(c["img"])
    v = sut(cls(c["name"])(data_range=dr).score, a, b, **c["k"])
    a2 = gen.relayout(a.astype(c["as"]), c["layout2"])
    b2 = gen.relayout(b.astype(c["as"]), c["layout2"])
    w = sut(cls(c["name"])(data_range=dr).score, a2, b2, **c["k"])
    loose = c["as"] == "float64"
    close(w, v, c["name"] + " as " + c["as"], rtol=2e-3 if loose else 1e-6,
          atol=2e-3 if loose else 1e-7)
    return not np.array_equal(a, b)
