"""Automatic region detection."""
from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import clause, check, must_raise, num, same_array, sut
from . import c09

ASSUMPTIONS = ["volumes have a last extent other than 3", "at least one dilation iteration",
               "scores are compared when a region is found and at most 64 pairs of equally "
               "good centers exist"]


@st.composite
def binary(draw):
    nd = draw(gen.pick(2, 2, 3))
    lo = draw(gen.pick(0, 0, 0, 0, 2))  # some thin ones
    sh = [draw(gen.ints(5 - lo, 24) if nd == 2 else gen.ints(4 - lo, 11)) for _ in range(nd)]
    sh = draw(gen.grow(sh, cap=40000, n=60, top=600))
    if nd == 3 and sh[-1] == 3:
        sh[-1] = 4
    return dict(shape=sh, kind=draw(gen.pick("balls", "boxes", "noise", "holes", "dense")),
                seed=draw(gen.SEED), layout=draw(gen.pick("C", "F", "T", "neg")))


def mk_binary(s):
    rng = np.random.default_rng(s["seed"])
    sh = tuple(s["shape"])
    g = np.meshgrid(*[np.arange(n) for n in sh], indexing="ij")
    a = np.zeros(sh, bool)
    if s["kind"] in ("balls", "holes"):
        for _ in range(int(rng.integers(1, 4))):
            c = [rng.uniform(0, n) for n in sh]
            a |= sum((x - y) ** 2 for x, y in zip(g, c)) <= rng.uniform(1, 0.5 * max(sh)) ** 2
    if s["kind"] == "holes":
        a &= rng.random(sh) > 0.05
    if s["kind"] == "boxes":
        for _ in range(int(rng.integers(1, 4))):
            m = np.ones(sh, bool)
            for x, n in zip(g, sh):
                lo = int(rng.integers(0, n))
                hi = int(rng.integers(lo, n)) + 1
                m &= (x >= lo) & (x < hi)
            a |= m
    if s["kind"] == "noise":
        a = rng.random(sh) < rng.uniform(0.05, 0.6)
    if s["kind"] == "dense":
        a = rng.random(sh) < 0.97
    if not a.any():
        a.flat[a.size // 2] = True
    if a.all():
        a.flat[0] = False
    return gen.relayout(a, s["layout"])


RT = ref.CUBIC + ref.BALL + ("full", "original", "anything")


@clause("C10", "region", lambda: st.fixed_dictionaries(dict(
    b=binary(), it=gen.ints(1, 4), rt=gen.pick(*RT), omit=st.booleans())), 3000,
    thorough=80000, shards=6, rule="a region remains after the morphological cleaning")
def region(c):
    """find_largest_region against brute-force morphology and distances"""
    from viqa.utils import find_largest_region

    a = mk_binary(c["b"])
    keep = a.copy()
    kw = {}
    if not (c["omit"] and c["rt"] == "cubic"):
        kw["region_type"] = c["rt"]
    center, radius, reg = sut(find_largest_region, a, iterations=c["it"], **kw)
    same_array(a, keep, "input image")
    clean, d, centers, r = ref.largest(a, c["it"])
    check(len(center) == a.ndim and all(isinstance(v, int) for v in center),
          "center is not a tuple of integers: %r", center)
    check(isinstance(radius, int), "radius is not an integer: %r", radius)
    check(tuple(center) in centers, "distance of center %s is %s, the largest is %s", center,
          d[tuple(center)] ** 0.5, d.max() ** 0.5)
    check(radius == r, "radius %r, the distance is %s", radius, d.max() ** 0.5)
    got = ~np.ma.getmaskarray(reg)
    val = np.ma.getdata(reg).astype(bool)
    if c["rt"] == "original":
        same_array(got & val, a, "region")
        check(got.all(), "the original region is masked")
    elif c["rt"] == "anything":
        same_array(got & val, clean, "region")
    elif r > 0:
        if c["rt"] == "full":
            want = ref.erode(clean, 2)
        else:
            want = ref.region_mask(a.shape, center, radius, c["rt"])
        same_array(got, want, "region mask")
        same_array(val[got], clean[want], "region values")
    return c["rt"] if r > 0 else False


@clause("C10", "binary", lambda: st.fixed_dictionaries(dict(
    b=binary(), bad=gen.pick("uint8", "float64", "ones", "zeros", "values"),
    it=gen.ints(1, 3))), 400, thorough=6000, rule="every case is not a binary image")
def nonbinary(c):
    """input that is not binary is rejected"""
    from viqa.utils import find_largest_region

    a = mk_binary(c["b"])
    if c["bad"] in ("uint8", "float64"):
        a = a.astype(c["bad"])
    elif c["bad"] == "ones":
        a = np.ones(a.shape, bool)
    elif c["bad"] == "zeros":
        a = np.zeros(a.shape, bool)
    else:
        a = a.astype(np.int16) * 2 - 1
    must_raise(ValueError, c["bad"] + " image", find_largest_region, a, iterations=c["it"])
    return c["bad"]


@st.composite
def scene(draw):
    nd = draw(gen.pick(2, 2, 3))
    sh = [draw(gen.ints(22, 34) if nd == 2 else gen.ints(10, 14)) for _ in range(nd)]
    dt = draw(gen.pick("uint8", "uint16", "float32", "float64"))
    return dict(shape=sh, dtype=dt, seed=draw(gen.SEED),
                top=gen.top_of(dt) or draw(gen.pick(1.0, 255.0)),
                frac=draw(gen.pick(0.05, 0.1, 0.14, 0.2)), box=draw(st.booleans()),
                bg=draw(gen.pick(0.02, 0.1, 0.3)))


def mk_scene(s, rgb=False):
    rng = np.random.default_rng(s["seed"])
    sh = tuple(s["shape"])
    g = np.meshgrid(*[np.arange(n) for n in sh], indexing="ij")
    nd = len(sh)
    a = 0.2 + s["bg"] * rng.random(sh)
    half = 0.5 * (s["frac"] * np.prod(sh)) ** (1 / nd)
    c = [rng.uniform(0.35, 0.65) * n for n in sh]
    if s["box"]:
        m = np.logical_and.reduce([abs(x - y) <= half for x, y in zip(g, c)])
    else:
        m = sum((x - y) ** 2 for x, y in zip(g, c)) <= (1.2 * half) ** 2
    a[m] = 0.7 + 0.25 * rng.random(int(m.sum()))
    if rgb:
        a = np.stack([a * w for w in rng.uniform(0.5, 1.0, 3)], -1)
        a = a * (1 - 0.01 * rng.random(a.shape))
    return gen.quant(a, s["dtype"], s["top"])


def threshold(a, lo, hi):
    x = np.asarray(a)
    return (x > np.percentile(x, lo)) & (x <= np.percentile(x, hi))


def masks(binary_, it, rt, radius=None):
    """admissible regions around the equally good centers"""
    clean, d, centers, r = ref.largest(binary_, it)
    if r == 0:
        return 0, []
    if rt == "full":
        return r, [ref.erode(clean, 2)]
    if rt == "original":
        return r, [np.ones(clean.shape, bool)]
    return r, [ref.region_mask(clean.shape, c, radius or r, rt) for c in centers]


SC = st.fixed_dictionaries(dict(
    s=scene(), it=gen.ints(1, 3), omit_it=gen.pick(False, False, False, True),
    rt=gen.pick("cubic", "cube", "spherical", "circle", "full", "original"),
    wrong=gen.pick((1, 1), (0, 0), (900, 900)), lo=gen.pick(60, 80, 90), hi=gen.pick(95, 99, 100),
    defaults=st.booleans()))


@clause("C10", "cnr", lambda: SC, 700, thorough=20000, shards=4,
        rule="regions of signal and background are found")
def cnr(c):
    """CNR with auto_center scores the detected regions"""
    import viqa

    a = mk_scene(c["s"])
    it = 5 if c["omit_it"] else c["it"]
    fg, bg = threshold(a, 90, 100), threshold(a, 0, 90)
    if not (fg.any() and bg.any()):
        return False
    kw = dict(auto_center=True, region_type=c["rt"])
    if not c["omit_it"]:
        kw["iterations"] = it
    # centers are ignored, but have to be given
    kw.update(signal_center=tuple(c["wrong"]), background_center=tuple(c["wrong"]), radius=1)
    m = viqa.CNR(data_range=int(c["s"]["top"]))
    rf, _ = masks(fg, it, c["rt"])
    rb, _ = masks(bg, it, c["rt"])
    r = min(rf, rb)
    if r == 0:
        must_raise((TypeError, ValueError), "auto_center without a region", m.score, a, **kw)
        return False
    _, sm = masks(fg, it, c["rt"], r)
    _, bm = masks(bg, it, c["rt"], r)
    if not all(x.any() for x in sm + bm) or len(sm) * len(bm) > 64:
        return False
    got = num(sut(m.score, a, **kw), "CNR")
    want = [ref.cnr(a, x, y) for x in sm for y in bm]
    check(any(abs(got - v) <= e for v, e in want),
          "CNR with auto_center (%s): got %.12g, expected one of %s", c["rt"], got,
          [v for v, _ in want[:4]])
    return c["rt"]


@clause("C10", "snr", lambda: SC, 700, thorough=20000, shards=4, rule="a region is found")
def snr(c):
    """SNR with auto_center scores the detected region"""
    import viqa

    a = mk_scene(c["s"])
    it = 5 if c["omit_it"] else c["it"]
    lo, hi = (90, 99) if c["defaults"] else (c["lo"], c["hi"])
    fg = threshold(a, lo, hi)
    if not fg.any():
        return False
    kw = dict(auto_center=True, region_type=c["rt"], signal_center=tuple(c["wrong"]), radius=1)
    if not c["omit_it"]:
        kw["iterations"] = it
    if not c["defaults"]:
        kw.update(lower_threshold=lo, upper_threshold=hi)
    m = viqa.SNR(data_range=int(c["s"]["top"]))
    r, sm = masks(fg, it, c["rt"])
    if r == 0:
        must_raise((TypeError, ValueError), "auto_center without a region", m.score, a, **kw)
        return False
    if not all(x.any() for x in sm) or len(sm) > 64:
        return False
    got = num(sut(m.score, a, **kw), "SNR")
    e0 = ref.err_scale(a, a.size)
    want = []
    for x in sm:
        y = a[x].astype(np.float64)
        want.append(ref.ratio(y, y, e0))
    check(any(abs(got - v) <= e for v, e in want),
          "SNR with auto_center (%s): got %.12g, expected one of %s", c["rt"], got,
          [v for v, _ in want[:4]])
    return c["rt"]


@clause("C10", "snr-rgb", lambda: st.fixed_dictionaries(dict(
    s=scene(), it=gen.ints(1, 3), rt=gen.pick("cubic", "square", "sphere"),
    lo=gen.pick(60, 80, 90), hi=gen.pick(95, 99, 100))), 300, thorough=8000, shards=2,
    rule="a region is found")
def snr_rgb(c):
    """SNR of RGB images with auto_center, region detected in the luminance"""
    import viqa

    s = dict(c["s"], dtype="float64", top=255.0)
    if len(s["shape"]) == 3:
        s["shape"] = [2 * s["shape"][0], 2 * s["shape"][1]]
    a = mk_scene(s, rgb=True)
    fg = threshold(gen.gray_ref(a), c["lo"], c["hi"])
    if not fg.any():
        return False
    r, sm = masks(fg, c["it"], c["rt"])
    if r == 0 or len(sm) > 64:
        return False
    m = viqa.SNR(data_range=255)
    got = sut(m.score, a, auto_center=True, region_type=c["rt"], iterations=c["it"],
              lower_threshold=c["lo"], upper_threshold=c["hi"], signal_center=(1, 1), radius=1)
    want = []
    for x in sm:
        t = a[x] @ c09.YUV.T
        want.append([t[:, 0].mean() / t[:, i].std() for i in range(3)])
    ok = any(np.allclose([num(g) for g in got], w, rtol=1e-7) for w in want)
    check(ok, "SNR of an RGB image with auto_center (%s): got %s, expected one of %s", c["rt"],
          [num(g) for g in got], want[:3])
    return c["rt"]
