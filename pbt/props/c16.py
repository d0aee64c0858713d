"""MultipleMetrics returns exactly the individual scores."""
from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import clause, check, close, must_raise, num, same_array, scratch_dir, sut
from . import c12

ASSUMPTIONS = ["metric names in a list are unique", "metrics are not chromatic",
               "resizing is compared with skimage.transform.resize of the pixel values"]

LIGHT = ("PSNR", "RMSE", "SSIM", "UQI", "GSM", "CNR", "SNR")
TITLE = {"MSSSIM": "MS-SSIM"}
HEAVY = ("MAD", "FSIM", "VSI", "VIFp", "MSSSIM")


@st.composite
def one(draw, name, sh, dim=None):
    """parameters of a metric for images of shape sh"""
    nd = len(sh)
    if name == "SSIM":
        k = draw(gen.opt(K1=gen.pick(0.01, 0.1), alpha=gen.pick(1, 2)))
        k["win_size"] = draw(gen.pick(3, 5, 7))
        return k
    if name == "UQI":
        return {}
    if name == "GSM":
        k = draw(gen.opt(c=gen.pick(50, 200), p=gen.pick(0.05, 0.3)))
        if nd == 3:
            k.update(dim=draw(gen.ints(0, 2)))
            if draw(st.booleans()):
                k["im_slice"] = draw(gen.ints(0, sh[k["dim"]] - 1))
        return k
    if name in ("CNR", "SNR"):
        r = draw(gen.ints(1, (min(sh) - 1) // 2))
        k = {"radius": r, "signal_center": [draw(gen.ints(r, s - r - 1)) for s in sh],
             "region_type": draw(gen.pick("cubic", "spherical", "full"))}
        if name == "CNR":
            k["background_center"] = [draw(gen.ints(r, s - r - 1)) for s in sh]
        if draw(gen.ints(0, 3)) == 0:
            del k["region_type"]
        return k
    if name == "MAD":
        return {"block_size": draw(gen.pick(4, 8)), "orientations_num": 2}
    if name == "MSSSIM":
        return {"scale_weights": draw(gen.pick([0.5, 0.5], [0.3, 0.7]))}
    if name == "VIFp":
        return draw(gen.opt(sigma_n_sq=gen.pick(1.0, 3.0)))
    if name == "FSIM":
        return draw(gen.opt(scales=gen.pick(2, 4)))
    return {}


@st.composite
def metrics(draw, sh, heavy):
    pool = list(LIGHT) + (list(HEAVY) if heavy else [])
    names = draw(st.lists(gen.pick(*pool), min_size=1, max_size=4, unique=True))
    return [[n, draw(one(n, sh))] for n in names]


def real(k):
    import torch

    k = {n: tuple(v) if isinstance(v, list) and n.endswith("center") else v for n, v in k.items()}
    if "scale_weights" in k:
        k["scale_weights"] = torch.tensor(k["scale_weights"])
    return k


@st.composite
def case(draw):
    heavy = draw(gen.ints(0, 3)) == 0
    form = "2D" if heavy else draw(gen.pick("2D", "3D", "RGB"))
    lo, hi = (44, 47) if heavy else (9, 14)
    sh = draw(gen.grow([draw(gen.ints(lo, hi)) for _ in range(3 if form == "3D" else 2)],
                       cap=20000))
    ms = draw(metrics(sh, heavy))
    big = list(sh)
    roi = None
    if draw(gen.ints(0, 2)) == 0:
        pads = [[draw(gen.ints(0, 4)), draw(gen.ints(0, 4))] for _ in sh]
        roi = [[p, p + s] for (p, _), s in zip(pads, sh)]
        big = [s + p + q for s, (p, q) in zip(sh, pads)]
    msh = list(big)
    if draw(gen.ints(0, 2)) == 0:
        msh = [max(4, s + draw(gen.ints(-3, 5))) for s in big]
        if draw(gen.ints(0, 2)) == 0:  # as many pixels, another shape
            msh = big[::-1]
    ext = [3] if form == "RGB" else []
    dts = ("uint8", "uint16", "float32", "float64")
    img = draw(gen.image(st.just(big + ext), dtypes=dts, kinds=["noise", "smooth", "blocks"]))
    if img["dtype"].startswith("float"):
        img["top"] = 255.0
    return dict(img=img, d=draw(gen.distortion(["noise", "blur", "shift", "indep"])),
                mshape=msh + ext, ms=ms, roi=roi, order=draw(gen.pick(None, 0, 1, 2, 3)),
                norm=draw(gen.pick(None, None, None, 1, 255, 65535)),
                h1=draw(gen.pick("C", "F", "imagearray", "file", "tensor")),
                h2=draw(gen.pick("C", "neg", "imagearray", "path")), seed2=draw(gen.SEED))


def images(c, seed=None):
    s = c["img"] if seed is None else dict(c["img"], seed=seed)
    a = gen.mk(s, "C")
    b = gen.mod(dict(s, shape=c["mshape"]), c["d"], "C")
    if (b == b.flat[0]).all():
        b = b.copy()
        b.flat[0] += 1
    return a, b


def make(ms, dr):
    import viqa

    return [getattr(viqa, n)(data_range=dr) for n, _ in ms], [real(k) for _, k in ms]


def expected(c, a, b, dr):
    """ordered list of (name, value) from scoring every metric alone"""
    import skimage.transform as tr
    import viqa

    if c["norm"] is not None:
        a, b = (np.asarray(sut(viqa.normalize_data, v, (0, c["norm"]))) for v in (a, b))
    if a.shape != b.shape:
        b = tr.resize(b, a.shape, preserve_range=True,
                      order=1 if c["order"] is None else c["order"]).astype(a.dtype)
    if c["roi"] is not None:
        sl = tuple(slice(x, y) for x, y in c["roi"])
        a, b = a[sl], b[sl]
    rgb = a.ndim == 3 and a.shape[-1] == 3
    out = []
    for n, k in c["ms"]:
        m = getattr(viqa, n)(data_range=dr)
        if n in ("CNR", "SNR"):
            x, y = (gen.gray_ref(a), gen.gray_ref(b)) if rgb else (a, b)
            for end, z in (("_r", x), ("_m", y)):
                v = num(sut(m.score, z, **real(k)))
                msk = ref.region_mask(z.shape, k["background_center" if n == "CNR" else
                                                 "signal_center"], k["radius"],
                                      k.get("region_type", "cubic"))
                if rgb and z[msk].std() < 1e-6 * np.abs(z).max():
                    v = None  # rounding of the luminance decides
                out.append((n + end, v))
        else:
            out.append((TITLE.get(n, n), num(sut(m.score, a, b, **real(k)))))
    return out, a, b


def tol(name, dtype, rgb):
    if dtype == np.float32 or name in HEAVY or name in TITLE.values():
        return 1e-3
    return 1e-6 if rgb else 1e-9


def compare(res, want, dtype, rgb, what=""):
    check(list(res) == [n for n, _ in want], "%sresults %s, expected %s", what, list(res),
          [n for n, _ in want])
    for n, v in want:
        check(isinstance(res[n], float), "%s%s is a %s", what, n, type(res[n]).__name__)
        if v is None:
            continue
        if rgb and n == "PSNR" and v == np.inf and res[n] > 250:
            continue  # equal images up to the rounding of the luminance
        close(res[n], v, what + n, tol(n, dtype, rgb), tol(n, dtype, rgb))


def same_params(a, b):
    return all(list(x) == list(y) and all(np.array_equal(np.asarray(x[k]), np.asarray(y[k]))
                                          for k in x) for x, y in zip(a, b))


@clause("C16", "scores", case, 700, thorough=20000, shards=8,
        rule="the images scored differ")
def scores(c):
    """calculate against individual scores, twice with the same object"""
    import viqa

    dr = c["norm"] or gen.data_range(c["img"])
    ms, ps = make(c["ms"], dr)
    _, keep = make(c["ms"], dr)
    mm = viqa.MultipleMetrics(ms, ps)
    rgb = len(c["img"]["shape"]) == 3 and c["img"]["shape"][-1] == 3
    kw = {}
    if c["roi"] is not None:
        kw["roi"] = [tuple(r) for r in c["roi"]]
    if c["order"] is not None:
        kw["scaling_order"] = c["order"]
    if c["norm"] is not None:
        kw.update(normalize=True, data_range=c["norm"])
    lab = False
    for seed in (None, c["seed2"]):
        a, b = images(c, seed)
        want, x, y = expected(c, a, b, dr)
        with scratch_dir() as d:
            h1 = c["h1"]
            if h1 == "tensor" and a.dtype.name == "uint16":
                h1 = "C"
            p, q = c12.wrap(a, h1, d, "a"), c12.wrap(b, c["h2"], d, "b")
            kp = [np.array(v) for v in (p, q) if isinstance(v, np.ndarray)]
            res = sut(mm.calculate, p, q, **kw)
            for v, w in zip([v for v in (p, q) if isinstance(v, np.ndarray)], kp):
                same_array(v, w, "image after calculate")
        check(mm.results == res or any(v != v for v in res.values()),
              "results %s, returned %s", mm.results, res)
        compare(res, want, x.dtype, rgb)
        check(same_params(ps, keep), "parameters modified: %s, passed %s", ps, keep)
        if not np.array_equal(x, y):
            lab = "resized" if c["mshape"] != c["img"]["shape"] else "same shape"
    return lab


@st.composite
def badcase(draw):
    return dict(bad=draw(gen.pick("lengths", "object", "class", "params")),
                names=draw(st.lists(gen.pick("PSNR", "RMSE", "SSIM"), min_size=1, max_size=3)),
                at=draw(gen.ints(0, 2)), k=draw(gen.ints(0, 3)))


@clause("C16", "rejection", badcase, 400, thorough=4000, rule="every case")
def rejection(c):
    """wrong metric lists are rejected"""
    import viqa

    ms = [getattr(viqa, n)(data_range=255) for n in c["names"]]
    ps = [{} for _ in ms]
    i = c["at"] % len(ms)
    if c["bad"] == "lengths":
        ps = ps + [{}] if c["k"] % 2 else ps[:-1]
    elif c["bad"] == "object":
        ms[i] = [None, "PSNR", 5, object()][c["k"]]
    elif c["bad"] == "class":
        ms[i] = viqa.PSNR
    else:
        ps[i] = [None, [], "a", 3][c["k"]]
    must_raise(ValueError, "MultipleMetrics(%s, %s)" % (ms, ps), viqa.MultipleMetrics, ms, ps)
    return c["bad"]
