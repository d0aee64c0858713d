"""SNR over exactly the requested region, gray and per color channel."""
import functools

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import clause, check, must_raise, num, same_array, sut
from . import c08

ASSUMPTIONS = ["volumes have a last extent other than 3 (those count as RGB images)",
               "a ball touches the last voxel of an axis at most",
               "YUV and luminance ratios are compared when the deviation is above rounding"]
YUV = np.array([[0.2126, 0.7152, 0.0722], [-0.09991, -0.33609, 0.436],
                [0.615, -0.55861, -0.05639]])


@st.composite
def case(draw, rgb=False, rts=c08.TYPES, thin=True):
    sh = draw(c08.region_img(2 if rgb else None, thin=thin))
    rt = draw(gen.pick(*c08.types_for(sh, rts)))
    r = draw(gen.ints(1, max(1, (min(sh) - 1) // 2)))
    sc = draw(c08.center_for(sh, r, rt))
    return dict(img=draw(gen.image(st.just(sh + [3] if rgb else sh), dtypes=c08.DT,
                                   kinds=c08.K)),
                rt=rt, r=r, sc=sc, bc=sc, flat=draw(gen.pick(0, 0, 0, 1, 2) if rgb else gen.pick(0, 0, 0, 1)),
                yuv=draw(gen.pick(True, False, None)), omit=draw(st.booleans()))


def kws(c):
    kw = dict(signal_center=tuple(c["sc"]), radius=c["r"])
    if not (c["omit"] and c["rt"] == "cubic"):
        kw["region_type"] = c["rt"]
    return kw


@clause("C09", "gray", case, 3500, thorough=150000, shards=4,
        rule="the expected SNR is not 0, or the region is constant by construction")
def gray(c):
    """SNR of 2D images and volumes against the definition"""
    import viqa

    a = c08.mk(c)
    keep = a.copy()
    m = viqa.SNR(data_range=gen.data_range(c["img"]))
    got = sut(m.score, a, **kws(c))
    check(isinstance(got, float), "score is a %s, expected one number", type(got).__name__)
    check(m.score_val == got, "score_val %r, score %r", m.score_val, got)
    x = a[ref.region_mask(a.shape, c["sc"], c["r"], c["rt"])].astype(np.float64)
    v, e = ref.ratio(x, x, ref.err_scale(a, a.size))
    check(abs(num(got) - v) <= e, "SNR over a %s region: got %.15g, expected %.15g",
          c["rt"], num(got), v)
    same_array(a, keep, "image after scoring")
    if c["flat"]:
        return "constant region"
    return c["rt"] if v != 0 else False


@functools.lru_cache(None)
def zero_chroma():
    k = np.arange(1, 64, dtype=np.float64)
    t = np.stack([k] * 3, -1) @ YUV.T
    sets = [np.concatenate([[0.0], k[z], 2 * k[z], 4 * k[z]])
            for z in (t[:, 1] == 0, t[:, 2] == 0)]
    return [s for s in sets if s.size > 1] or [np.array([0.0, 1, 2])]


@clause("C09", "rgb", lambda: case(rgb=True), 3500, thorough=150000, shards=4,
        rule="at least one channel has a nonzero expected SNR")
def rgb(c):
    """per channel SNR of RGB images, in YUV or RGB"""
    import viqa

    a = gen.mk(c["img"])
    msk = ref.region_mask(a.shape[:2], c["sc"], c["r"], c["rt"])
    if c["flat"]:
        a = a.copy()
        if c["flat"] == 1:
            a[msk, c["r"] % 3] = a[tuple(c["sc"])][c["r"] % 3]
        else:  # gray levels with U or V exactly 0 in floating point
            rng = np.random.default_rng(c["img"]["seed"])
            s = zero_chroma()
            g = rng.choice(s[c["r"] % len(s)], int(msk.sum()))
            a[msk] = g[:, None].astype(a.dtype)
    keep = a.copy()
    m = viqa.SNR(data_range=gen.data_range(c["img"]))
    kw = kws(c)
    if c["yuv"] is not None:
        kw["yuv"] = c["yuv"]
    got = sut(m.score, a, **kw)
    yuv = c["yuv"] is not False
    check(isinstance(got, (tuple, list)) and len(got) == (3 if yuv else 4),
          "SNR of an RGB image: %r", str(got)[:100])
    check(tuple(m.score_val) == tuple(got), "score_val %r, score %r", m.score_val, got)
    x = a[msk].astype(np.float64)
    n = a.shape[0] * a.shape[1]
    e0 = ref.err_scale(a, n)
    # deviation below this is rounding of the color transform
    tiny = 1e-9 * float(np.abs(x).max())
    some = False
    if yuv:
        t = x @ YUV.T
        chans = [("YUV"[i], t[:, 0], t[:, i], True) for i in range(3)]
        e0 = max(e0, 1e-13 * float(np.abs(x).max()))
        if a.dtype == np.float32:
            e0 *= 2
    else:
        lum = gen.gray_ref(x)
        chans = [("luminance", lum, lum, True)]
        chans += [("RGB"[i], x[:, i], x[:, i], False) for i in range(3)]
    for (nm, mv, sv, derived), g in zip(chans, got):
        if derived and sv.std() <= max(tiny, 20 * e0 if a.dtype == np.float32 else 0):
            continue
        v, e = ref.ratio(mv, sv, e0)
        check(abs(num(g) - v) <= e, "SNR of %s over a %s region: got %.12g, expected %.12g",
              nm, c["rt"], num(g), v)
        some |= v != 0
    same_array(a, keep, "image after scoring")
    return ("yuv" if yuv else "rgb") if some else False


@st.composite
def badcase(draw):
    rgb_ = draw(st.booleans())
    c = draw(case(rgb=rgb_, rts=ref.CUBIC + ref.BALL, thin=False))
    bad = draw(gen.pick(*c08.BAD))
    sh = c["img"]["shape"][:2] if rgb_ else c["img"]["shape"]
    c.update(bad=bad, which="sc", ax=draw(gen.ints(0, len(sh) - 1)), by=draw(gen.ints(1, 3)),
             sc=draw(c08.center_for(sh, c["r"], "sphere")), rgb=rgb_)
    return c


@clause("C09", "rejection", badcase, 2500, thorough=60000, shards=2,
        rule="every case has exactly one defect")
def rejection(c):
    """regions over a border, wrong types and dimensions are rejected"""
    import viqa

    a = gen.mk(c["img"])
    kw, exc = c08.spoil(c, {"signal_center": "sc"})
    m = viqa.SNR(data_range=gen.data_range(c["img"]))
    must_raise(exc, "SNR with %s (%s)" % (c["bad"], kw), m.score, a, **kw)
    check(m.score_val is None, "score_val after a rejected call: %r", m.score_val)
    return c["bad"]


@st.composite
def history(draw):
    h = draw(c08.history())
    return h


@clause("C09", "memory", history, 1200, thorough=60000, shards=2,
        rule="a call without center follows a construction or call with center")
def memory(c):
    """center and radius of the construction or last call serve later calls"""
    import viqa

    def kw(d):
        return dict(signal_center=tuple(d["sc"]), radius=d["r"])

    cur = c["init"]
    m = viqa.SNR(data_range=gen.data_range(c["img"]), **(kw(cur) if cur else {}))
    used = False
    for op in c["ops"]:
        a = gen.mk(dict(c["img"], seed=op["seed"]))
        if "r" in op:
            cur = op
            got = sut(m.score, a, region_type=op["rt"], **kw(op))
        elif cur is None:
            must_raise(ValueError, "SNR without center", m.score, a, region_type=op["rt"])
            continue
        else:
            used = True
            got = sut(m.score, a, region_type=op["rt"])
        x = a[ref.region_mask(a.shape, cur["sc"], cur["r"], op["rt"])].astype(np.float64)
        v, e = ref.ratio(x, x, ref.err_scale(a, a.size))
        check(abs(num(got) - v) <= e, "SNR: got %.15g, expected %.15g", num(got), v)
    return used
