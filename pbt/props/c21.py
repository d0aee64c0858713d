"""Incompatible pairs and settings are rejected, RGB pairs become luminance."""
from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from .c06 import singular
from ..core import check, clause, close, must_raise, num, sut, sut_warn

ASSUMPTIONS = ["shape and dtype are those of the loaded images (after normalization and roi)",
               "lists of images are deprecated and left out"]

FR = ("PSNR", "RMSE", "SSIM", "UQI", "MSSSIM", "FSIM", "VIFp", "VSI", "GSM", "MAD")
NR = ("CNR", "SNR")
SIZE = {"MSSSIM": 48, "FSIM": 24, "VIFp": 44, "VSI": 36, "MAD": 40, "GSM": 8, "SSIM": 13,
        "UQI": 10, "PSNR": 4, "RMSE": 4}


def kwargs(name, chromatic=False):
    import torch

    k = {}
    if name == "MSSSIM":
        k["scale_weights"] = torch.tensor([0.5, 0.5])
        k["kernel_size"] = 7
    elif name == "MAD":
        k.update(block_size=8, scales_num=3, orientations_num=2, weights=[1.0, 2.0, 3.0])
    elif name == "SSIM" and chromatic:
        k["color_weights"] = np.array([1.0, 1.0, 1.0])
    elif name == "GSM" or name == "UQI":
        pass
    return k


def volkw(name):
    return {"dim": 2, "im_slice": 1} if name in ("MSSSIM", "FSIM", "VIFp", "VSI", "MAD", "GSM") \
        else {}


def wrap(a, how):
    import torch
    import viqa

    if how == "ImageArray":
        return viqa.ImageArray(a)
    if how == "tensor" and a.dtype != np.uint16:
        return torch.from_numpy(np.ascontiguousarray(a))
    return a


BAD = ("rows", "cols", "transposed", "row1", "col1", "depth1", "rgb-vs-gray", "gray-vs-rgb",
       "depth", "volume-vs-slice", "dtype", "signed", "float", "halved", "1D", "4D", "0D",
       "one-4D", "both-list", "str-missing")
CHROM = ("gray", "width3", "volume", "channels-first", "four", "one", "rgb-vs-gray", "dtype",
         "rgb-shape")


@st.composite
def mismatch(draw):
    name = draw(gen.pick(*FR))
    lo = SIZE[name]
    h, w = lo + draw(gen.ints(0, 4)), lo + draw(gen.ints(0, 4))
    chromatic = draw(gen.ints(0, 3)) == 0
    c = dict(name=name, h=h, w=w, dtype=draw(gen.pick("uint8", "uint16", "float32", "float64")),
             kind=draw(gen.pick("noise", "smooth", "blocks", "const")), seed=draw(gen.SEED),
             chromatic=chromatic, bad=draw(gen.pick(*(CHROM if chromatic else BAD))),
             first=draw(st.booleans()), swap=draw(st.booleans()), same=draw(st.booleans()),
             how=draw(gen.pick("array", "array", "ImageArray", "tensor")))
    return c


OTHER = {"uint8": "uint16", "uint16": "uint8", "float32": "float64", "float64": "float32"}
SIGNED = {"uint8": "int8", "uint16": "int16", "float32": "float16", "float64": "int64"}


def build(c):
    h, w, dt = c["h"], c["w"], c["dtype"]
    top = gen.top_of(dt) or 255.0

    def img(shape, k=0, dtype=dt):
        spec = {"shape": list(shape), "dtype": dt, "top": top, "kind": c["kind"],
                "seed": c["seed"] + (0 if c["same"] else k), "layout": "C"}
        return gen.mk(spec).astype(dtype)

    b = c["bad"]
    if c["chromatic"]:
        return {
            "gray": lambda: (img((h, w)), img((h, w), 1)),
            "width3": lambda: (img((h, 3)), img((h, 3), 1)),
            "volume": lambda: (img((h, w, 8)), img((h, w, 8), 1)),
            "channels-first": lambda: (img((3, h, w)), img((3, h, w), 1)),
            "four": lambda: (img((h, w, 4)), img((h, w, 4), 1)),
            "one": lambda: (img((h, w, 1)), img((h, w, 1), 1)),
            "rgb-vs-gray": lambda: (img((h, w, 3)), img((h, w), 1)),
            "dtype": lambda: (img((h, w, 3)), img((h, w, 3), 0, OTHER[dt])),
            "rgb-shape": lambda: (img((h, w, 3)), img((h + 1, w, 3), 1)),
        }[b]()
    a = img((h, w))
    return {
        "rows": lambda: (a, img((h + 1, w), 1)),
        "cols": lambda: (a, img((h, w + 1), 1)),
        "transposed": lambda: (img((h, w + 1)), img((w + 1, h)) if h != w + 1
                               else img((h + 1, w))),
        "row1": lambda: (a, img((1, w), 1)),
        "col1": lambda: (a, img((h, 1), 1)),
        "depth1": lambda: (a, img((h, w, 1), 1)),
        "rgb-vs-gray": lambda: (img((h, w, 3)), img((h, w), 1)),
        "gray-vs-rgb": lambda: (a, img((h, w, 3), 1)),
        "depth": lambda: (img((h, w, 7)), img((h, w, 6), 1)),
        "volume-vs-slice": lambda: (img((h, w, w)), img((h, w), 1)),
        "dtype": lambda: (a, a.astype(OTHER[dt])),
        "signed": lambda: (a, a.astype(SIGNED[dt])),
        "float": lambda: (a, a.astype("float16")),
        "halved": lambda: (a, img((h, w, 5)).astype(OTHER[dt])),
        "1D": lambda: (img((h,)), img((h,), 1)),
        "4D": lambda: (img((h, w, 2, 3)), img((h, w, 2, 3), 1)),
        "0D": lambda: (np.array(5, dt), np.array(7, dt)),
        "one-4D": lambda: (a, img((1, 1, h, w), 1)),
        "both-list": lambda: (a.tolist(), a.tolist()),
        "str-missing": lambda: (a, "/nonexistent/img_%dx%dx1_8bit.raw" % (h, w)),
    }[b]()


@clause("C21", "mismatch", mismatch, 4000, thorough=60000, shards=8,
        rule="every case: the pair has to be rejected")
def rejects(c):
    """a pair that does not fit raises ValueError and leaves score_val alone"""
    import viqa

    name = c["name"]
    m = getattr(viqa, name)(data_range=255, chromatic=c["chromatic"])
    if c["first"]:
        s = (c["h"], c["w"], 3) if c["chromatic"] else (c["h"], c["w"])
        spec = {"shape": list(s), "dtype": "uint8", "top": 255.0, "kind": "noise", "seed": 5,
                "layout": "C"}
        if not c["chromatic"] or name not in ("UQI", "GSM", "MAD"):
            sut(m.score, gen.mk(spec), gen.mod(spec, {"mode": "noise", "seed": 4, "amt": 0.1}),
                **kwargs(name, c["chromatic"]))
    before = m.score_val
    a, b = build(c)
    if c["swap"]:
        a, b = b, a
    if isinstance(a, np.ndarray):
        a = wrap(a, c["how"])
    if isinstance(b, np.ndarray):
        b = wrap(b, c["how"])
    k = kwargs(name, c["chromatic"])
    if getattr(a, "ndim", 2) == 3 and not c["chromatic"] and a.shape[-1] != 3:
        k.update(volkw(name))
    exc = (ValueError, OSError) if c["bad"] == "str-missing" else ValueError
    must_raise(exc, "%s(chromatic=%s) of %s, %s and %s" % (
        name, c["chromatic"], c["bad"], describe(a), describe(b)), m.score, a, b, **k)
    check(m.score_val is before, "score_val %r after a rejected pair, before %r", m.score_val,
          before)
    return True


def describe(x):
    return "%s %s" % (getattr(x, "dtype", type(x).__name__), tuple(getattr(x, "shape", ())))


@clause("C21", "construct", lambda: st.fixed_dictionaries(dict(
    name=gen.pick(*(FR + NR)), what=gen.pick("none", "normalize", "ok", "load"),
    chromatic=st.booleans(), dr=gen.pick(1, 255, 65535), shape=gen.shape2(1, 6))),
    1200, thorough=10000, shards=2, rule="a missing data_range has to be rejected")
def constructor(c):
    """data_range is required, always with normalize"""
    import viqa

    cls = getattr(viqa, c["name"])
    if c["what"] == "none":
        if c["name"] in ("RMSE",) + NR:
            sut(cls, data_range=None)
            return False
        must_raise(ValueError, "%s(data_range=None)" % c["name"], cls, data_range=None,
                   chromatic=c["chromatic"])
        return True
    if c["what"] == "normalize":
        must_raise(ValueError, "%s(data_range=None, normalize=True)" % c["name"], cls,
                   data_range=None, normalize=True, chromatic=c["chromatic"])
        return True
    if c["what"] == "load":
        must_raise(ValueError, "load_data(normalize=True)", viqa.load_data,
                   np.zeros(c["shape"]), normalize=True)
        return True
    m = sut(cls, data_range=c["dr"], normalize=c["chromatic"])
    check(m.score_val is None, "a new %s has the score %r", c["name"], m.score_val)
    check(m.type == ("no-reference" if c["name"] in NR else "full-reference"), "type %r", m.type)
    return False


@st.composite
def colour(draw):
    name = draw(gen.pick(*FR))
    lo = SIZE[name]
    h, w = lo + draw(gen.ints(0, 5)), lo + draw(gen.ints(0, 5))
    if name in ("PSNR", "RMSE", "GSM", "MAD", "SSIM"):
        kinds = ["noise", "smooth", "blocks", "offset"]
        modes = ["noise", "blur", "shift", "scale", "indep", "invert"]
    else:  # flat windows: float32 rounding decides
        kinds, modes = ["noise", "smooth"], ["noise", "blur", "scale", "indep"]
    c = draw(gen.pair_case(st.just((h, w, 3)), kinds=kinds, modes=modes))
    c["name"] = name
    return c


TOL = {"PSNR": 1e-6, "RMSE": 1e-6, "SSIM": 2e-4, "UQI": 2e-3, "GSM": 1e-6, "MAD": 1e-4,
       "MSSSIM": 2e-4, "FSIM": 2e-3, "VIFp": 2e-3, "VSI": 2e-3}


@clause("C21", "luminance", colour, 900, thorough=12000, shards=8,
        rule="the luminance images differ")
def luminance(c):
    """an RGB pair scores as its unclipped luminance pair, with a warning"""
    import viqa

    name, img = c["name"], c["img"]
    a, b = gen.mk(img), gen.mod(img, c["d"])
    dr = gen.data_range(img)
    k = kwargs(name)
    got, _, msgs = sut_warn(getattr(viqa, name)(data_range=dr).score, a, b, **k)
    check(any(w in m.lower() for m in msgs for w in ("gray", "grey", "chromatic", "luminance")),
          "%s converted an RGB pair without a warning: %s", name, msgs)
    # a weighted mean cannot exceed the maximum by more than rounding
    ga = np.minimum(gen.gray_ref(a), float(a.max()))
    gb = np.minimum(gen.gray_ref(b), float(b.max()))
    if name == "RMSE":
        want = ref.rmse(ga, gb)
    elif name == "PSNR":
        want = ref.psnr(ga, gb, dr)
    else:
        want = num(sut(getattr(viqa, name)(data_range=dr).score, ga, gb, **k))
    got = num(got)
    if name == "GSM":
        # singular where gradients vanish or tie: all values the ties allow
        if singular(ga, gb):
            return False
        vals, cond = ref.gsm(ga, gb, data_range=dr, tie=1e-4)
        if vals and cond:
            check(any(abs(got - v) <= 2e-3 * max(1, abs(v)) for v in vals),
                  "GSM of a %s RGB pair: %r, of its luminance %s", img["dtype"], got, vals)
        return bool(vals and cond)
    if name == "MAD":
        # thresholds on local contrast: rounding may move single cells
        check(abs(got - want) <= 0.1 + 0.02 * abs(want),
              "MAD of a %s RGB pair: %r, of its luminance %r", img["dtype"], got, want)
        return want > 1
    if not np.isfinite(want) or not np.isfinite(got):
        check(np.isfinite(want) == np.isfinite(got) or np.abs(ga - gb).max() < 1e-5 * dr,
              "%s of an RGB pair: %r, of its luminance %r", name, got, want)
        return False
    t = TOL[name] if img["dtype"] == "float64" or name not in ("PSNR", "RMSE", "GSM", "MAD") \
        else max(TOL[name], 1e-4)
    close(got, want, "%s of a %s RGB pair against its luminance" % (name, img["dtype"]), rtol=t,
          atol=t * max(1.0, abs(want)) if name not in ("RMSE",) else 1e-5 * dr)
    return bool(np.abs(ga - gb).max() > 0)


@clause("C21", "notrgb", lambda: st.fixed_dictionaries(dict(
    name=gen.pick("PSNR", "RMSE", "PSNR", "RMSE", "GSM"),
    pair=gen.pair_case(st.one_of(
        st.tuples(gen.ints(6, 12), st.just(3)), st.tuples(st.just(3), gen.ints(6, 12)),
        st.tuples(st.just(3), gen.ints(4, 8), gen.ints(4, 8)),
        st.tuples(gen.ints(4, 8), st.just(3), gen.ints(4, 8)))))),
    1500, thorough=15000, shards=2, rule="the images differ")
def not_rgb(c):
    """only a 3D image with three channels last counts as RGB"""
    import viqa

    img = c["pair"]["img"]
    a, b = gen.mk(img), gen.mod(img, c["pair"]["d"])
    dr = gen.data_range(img)
    name = c["name"] if min(img["shape"]) > 4 or c["name"] != "GSM" else "PSNR"
    got, _, msgs = sut_warn(getattr(viqa, name)(data_range=dr).score, a, b)
    check(not any("gray" in m.lower() or "chromatic" in m.lower() for m in msgs),
          "%s treats an image of shape %s as RGB: %s", name, a.shape, msgs)
    tol = 5e-6 if img["dtype"] == "float32" else 1e-9
    if np.array_equal(a, b):
        return False
    if name == "RMSE":
        close(got, ref.rmse(a, b), "RMSE", rtol=tol)
    elif name == "PSNR":
        close(got, ref.psnr(a, b, dr), "PSNR", rtol=tol, atol=10 * tol)
    return True
