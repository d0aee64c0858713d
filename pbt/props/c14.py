"""Cropping and regions of interest."""
from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, check, close, must_raise, num, same_array, sut
from . import c01, c08

ASSUMPTIONS = ["ranges are increasing and start inside the image",
               "a volume cropped to three slices along z counts as RGB image and is left out "
               "for metrics"]
DT = ("uint8", "uint16", "int16", "float32", "float64", "int64")


@st.composite
def ranges(draw, sh, proper=False):
    out = []
    for n in sh:
        a = draw(gen.ints(0, n - 1))
        b = draw(gen.ints(a + 1, n))
        if draw(gen.ints(0, 4)) == 0:
            a, b = 0, n
        out.append([a, b])
    return out


@st.composite
def case(draw):
    form = draw(gen.pick("2D", "3D", "RGB"))
    sh = draw(gen.grow([draw(gen.ints(1, 12)) for _ in range(3 if form == "3D" else 2)]))
    if form == "3D" and sh[2] == 3:
        sh[2] = 4
    r = draw(ranges(sh))
    full = draw(gen.ints(0, 9)) == 0
    if full:
        r = [[0, n] for n in sh]
    return dict(img=draw(gen.image(st.just(sh + [3] if form == "RGB" else sh), dtypes=DT)),
                r=r, form=form, z=draw(gen.pick(None, None, (0, 1))),
                ia=draw(gen.pick("array", "image", "load")))


def cut(a, r):
    return np.asarray(a)[tuple(slice(x, y) for x, y in r)]


@clause("C14", "crop", case, 4000, thorough=150000, shards=3,
        rule="the ranges leave out part of the image")
def crop(c):
    """crop_image and load_data with roi select exactly the ranges"""
    import viqa

    a = gen.mk(c["img"])
    keep = a.copy()
    r = [tuple(x) for x in c["r"]]
    if c["ia"] == "load":
        got = sut(viqa.load_data, a, roi=r)
        check(isinstance(got, viqa.ImageArray), "load_data returned a %s", type(got).__name__)
    else:
        x = viqa.ImageArray(a) if c["ia"] == "image" else a
        args = list(r)
        if c["form"] != "3D" and c["z"]:
            args.append(tuple(c["z"]))
        got = sut(viqa.crop_image, x, *args)
    want = cut(keep, r)
    check(got.dtype == want.dtype, "dtype %s, expected %s", got.dtype, want.dtype)
    same_array(got, want, "crop %s of a %s image" % (r, c["form"]))
    same_array(a, keep, "image after cropping")
    return c["form"] if want.shape != a.shape else False


@st.composite
def badcase(draw):
    c = draw(case())
    c.update(bad=draw(gen.pick("larger", "no z")), ax=draw(gen.ints(0, len(c["r"]) - 1)),
             by=draw(gen.ints(1, 5)))
    return c


@clause("C14", "rejection", badcase, 1500, thorough=20000, rule="every rejected case")
def rejection(c):
    """crops larger than the image and volumes without z-range are rejected"""
    import viqa

    a = gen.mk(c["img"])
    r = [tuple(x) for x in c["r"]]
    if c["bad"] == "no z":
        if c["form"] != "3D":
            return False
        must_raise(ValueError, "volume without z-range", viqa.crop_image, a, *r[:2])
        must_raise((ValueError, TypeError), "volume without z-range", viqa.load_data, a,
                   roi=r[:2])
    else:
        n = a.shape[c["ax"]]
        lo = r[c["ax"]][0]
        r[c["ax"]] = (lo, lo + n + c["by"])
        must_raise(ValueError, "crop %s of %s" % (r, a.shape), viqa.crop_image, a, *r)
        must_raise(ValueError, "roi %s of %s" % (r, a.shape), viqa.load_data, a, roi=r)
    return c["bad"] + " " + c["form"]


@st.composite
def metriccase(draw):
    c = draw(c01.case())
    sh = c["img"]["shape"]
    rgb = len(sh) == 3 and sh[2] == 3
    n = 2 if rgb else len(sh)
    pads = [[draw(gen.ints(0, 4)), draw(gen.ints(0, 4))] for _ in range(n)]
    c["r"] = [[p, p + s] for (p, _), s in zip(pads, sh)]
    new = [s + p + q for s, (p, q) in zip(sh, pads)] + ([3] if rgb else [])
    if len(new) == 3 and not rgb and new[2] == 3:
        new[2] = 4
    c["img"]["shape"] = new
    c["norm"] = draw(gen.pick(False, False, True))
    return c


@clause("C14", "metrics", metriccase, 900, thorough=24000, shards=8,
        rule="the roi leaves out part of the images, and the cropped images differ")
def metrics(c):
    """metrics with roi score exactly the cropped (normalized) images"""
    import viqa

    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    ka, kb = a.copy(), b.copy()
    name = c["name"]
    dr = gen.data_range(c["img"])
    if c["norm"]:
        dr = {1: 1, 255: 255, 65535: 65535}[dr]
        dr = 255 if dr == 65535 else 65535 if dr == 255 else 1
        if (b == b.flat[0]).all():
            return False
    r = [tuple(x) for x in c["r"]]
    kw = {"chromatic": True} if c["chromatic"] else {}
    k = c01.make(c)[1]
    m = getattr(viqa, name)(data_range=dr, normalize=c["norm"], roi=r, **kw)
    m0 = getattr(viqa, name)(data_range=dr, **kw)
    x, y = a, b
    if c["norm"]:
        x, y = (sut(viqa.normalize_data, v, (0, dr)) for v in (a, b))
    x, y = cut(x, r), cut(y, r)
    if c01.flat_planes(c, x) or c01.flat_planes(c, y):
        return False
    w = num(sut(m0.score, x, y, **k))
    v = num(sut(m.score, a, b, **k))
    t = 1e-4 if x.dtype == np.float32 or name in ("FSIM", "VSI", "MSSSIM", "VIFp") else 1e-8
    close(v, w, "%s with roi %s" % (name, r), t, t)
    same_array(a, ka, "image after scoring")
    same_array(b, kb, "image after scoring")
    return name if not np.array_equal(x, y) and x.size != a.size else False


@st.composite
def nrcase(draw):
    c = draw(c08.case(thin=False))
    sh = c["img"]["shape"]
    c["rad"] = c.pop("r")
    pads = [[draw(gen.ints(0, 4)), draw(gen.ints(0, 4))] for _ in sh]
    c["r"] = [[p, p + s] for (p, _), s in zip(pads, sh)]
    c["img"]["shape"] = [s + p + q for s, (p, q) in zip(sh, pads)]
    c["name"] = draw(gen.pick("CNR", "SNR"))
    return c


@clause("C14", "no-reference", nrcase, 1200, thorough=30000, shards=2,
        rule="the roi leaves out part of the image")
def nr(c):
    """CNR and SNR with roi score the cropped image, centers relative to it"""
    import viqa

    a = gen.mk(c["img"])
    r = [tuple(x) for x in c["r"]]
    kw = dict(signal_center=tuple(c["sc"]), radius=c["rad"], region_type=c["rt"])
    if c["name"] == "CNR":
        kw["background_center"] = tuple(c["bc"])
    cls = getattr(viqa, c["name"])
    w = num(sut(cls().score, cut(a, r), **kw))
    v = num(sut(cls(roi=r).score, a, **kw))
    t = 1e-3 if a.dtype == np.float32 else 1e-8
    close(v, w, "%s with roi %s" % (c["name"], r), t, t)
    return c["name"] if cut(a, r).size != a.size else False
