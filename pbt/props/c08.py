"""CNR over exactly the requested regions."""
from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import clause, check, must_raise, num, same_array, sut

ASSUMPTIONS = ["volumes have a last extent other than 3 (those count as RGB images)",
               "a ball touches the last voxel of an axis at most"]
TYPES = ref.CUBIC + ref.BALL + ref.WHOLE
DT = ("uint8", "uint16", "int16", "float32", "float64", "int64")
K = gen.KINDS + ["lowcon"]


@st.composite
def center_for(draw, shape, r, rtype):
    over = 0 if rtype in ref.CUBIC else 1
    return [draw(gen.ints(r, s - r - over)) for s in shape]


@st.composite
def region_img(draw, nd=None, thin=False):
    """shape of an image with room for a region; thin: also for cubes only (extent 2)"""
    nd = nd or draw(gen.pick(2, 2, 3))
    hi = 20 if nd == 2 else 11
    sh = draw(gen.grow([draw(gen.ints(3, hi)) for _ in range(nd)], cap=200000))
    if thin and draw(gen.pick(0, 0, 0, 0, 1)):
        sh[-1] = 2
    if nd == 3 and sh[-1] == 3:
        sh[-1] = 4
    return sh


def types_for(sh, rts=TYPES):
    """the region types that fit into the shape"""
    return rts if min(sh) > 2 else [t for t in rts if t in ref.CUBIC]


@st.composite
def case(draw, thin=True):
    sh = draw(region_img(thin=thin))
    rt = draw(gen.pick(*types_for(sh)))
    r = draw(gen.ints(1, max(1, (min(sh) - 1) // 2)))
    return dict(img=draw(gen.image(st.just(sh), dtypes=DT, kinds=K)), rt=rt, r=r,
                sc=draw(center_for(sh, r, rt)), bc=draw(center_for(sh, r, rt)),
                omit=draw(st.booleans()), flat=draw(gen.pick(0, 0, 0, 1)),
                via=draw(gen.pick("metric", "metric", "function")))


def mk(c):
    """image, with a constant background region if asked for"""
    a = gen.mk(c["img"])
    if c["flat"]:
        a = a.copy()
        m = ref.region_mask(a.shape, c["bc"], c["r"], c["rt"])
        a[m] = a[tuple(c["bc"])]
    return a


def judge(a, c, got, what="CNR"):
    sig = ref.region_mask(a.shape, c["sc"], c["r"], c["rt"])
    bg = ref.region_mask(a.shape, c["bc"], c["r"], c["rt"])
    v, e = ref.cnr(a, sig, bg)
    got = num(got, what)
    check(abs(got - v) <= e, "%s over %s regions: got %.15g, expected %.15g", what,
          c["rt"], got, v)
    return v


@clause("C08", "definition", case, 4000, thorough=200000, shards=6,
        rule="the expected CNR is not 0, or the background is constant by construction")
def definition(c):
    """CNR of generated images and regions against the definition"""
    import viqa
    from viqa.nr_metrics.cnr import contrast_to_noise_ratio as fn

    a = mk(c)
    keep = a.copy()
    kw = dict(signal_center=tuple(c["sc"]), background_center=tuple(c["bc"]), radius=c["r"])
    if not (c["omit"] and c["rt"] == "cubic"):
        kw["region_type"] = c["rt"]
    if c["via"] == "metric":
        m = viqa.CNR(data_range=gen.data_range(c["img"]))
        got = sut(m.score, a, **kw)
        check(num(m.score_val) == num(got), "score_val %r, score %r", m.score_val, got)
    else:
        got = sut(fn, a, **kw)
    v = judge(a, c, got)
    same_array(a, keep, "image after scoring")
    if c["flat"]:
        return "constant background"
    return c["rt"] if v != 0 else False


BAD = ("float center", "str center", "float radius", "radius 0", "radius -1", "low", "high",
       "dims", "type", "nothing")


@st.composite
def badcase(draw):
    c = draw(case(thin=False))
    c.update(bad=draw(gen.pick(*BAD)), which=draw(gen.pick("sc", "bc")),
             ax=draw(gen.ints(0, len(c["sc"]) - 1)), by=draw(gen.ints(1, 3)), flat=0,
             rt=draw(gen.pick(*(ref.CUBIC + ref.BALL))))
    sh = c["img"]["shape"]
    c["sc"] = draw(center_for(sh, c["r"], "sphere"))
    c["bc"] = draw(center_for(sh, c["r"], "sphere"))
    return c


def spoil(c, names):
    """keyword arguments with one defect, and the exceptions that have to follow"""
    kw = {n: tuple(c[k]) for n, k in names.items()}
    kw.update(radius=c["r"], region_type=c["rt"])
    n = [x for x, k in names.items() if k == c["which"]] or list(names)
    n = n[0]
    cc = list(kw[n])
    bad, ax, r = c["bad"], c["ax"], c["r"]
    sh = c["img"]["shape"]
    exc = ValueError
    if bad == "float center":
        cc[ax] = float(cc[ax])
        exc = TypeError
    elif bad == "str center":
        cc[ax] = str(cc[ax])
        exc = TypeError
    elif bad == "float radius":
        kw["radius"] = float(r)
        exc = TypeError
    elif bad == "radius 0":
        kw["radius"] = 0
        exc = (TypeError, ValueError)
    elif bad == "radius -1":
        kw["radius"] = -1
        exc = (TypeError, ValueError)
    elif bad == "low":
        cc[ax] = max(0, r - c["by"])
    elif bad == "high":
        cc[ax] = sh[ax] - r + c["by"]
    elif bad == "dims":
        cc = cc + [cc[0]] if c["by"] == 1 else cc[:-1]
    elif bad == "type":
        kw["region_type"] = ("cubical", "ball", "", "FULL")[c["by"] % 4]
    elif bad == "nothing":
        kw = {"region_type": c["rt"]}
        return kw, ValueError
    kw[n] = tuple(cc)
    return kw, exc


@clause("C08", "rejection", badcase, 2500, thorough=60000, shards=2,
        rule="every case has exactly one defect")
def rejection(c):
    """regions over a border, wrong types and dimensions are rejected"""
    import viqa

    a = gen.mk(c["img"])
    kw, exc = spoil(c, {"signal_center": "sc", "background_center": "bc"})
    m = viqa.CNR(data_range=gen.data_range(c["img"]))
    must_raise(exc, "CNR with %s (%s)" % (c["bad"], kw), m.score, a, **kw)
    check(m.score_val is None, "score_val after a rejected call: %r", m.score_val)
    return c["bad"]


@st.composite
def history(draw):
    sh = draw(region_img())
    img = draw(gen.image(st.just(sh), dtypes=DT, kinds=K))
    r0 = draw(gen.ints(1, max(1, (min(sh) - 1) // 2)))

    def reg():
        r = draw(gen.ints(1, r0))
        return dict(r=r, sc=draw(center_for(sh, r, "sphere")),
                    bc=draw(center_for(sh, r, "sphere")))

    ops = []
    for _ in range(draw(gen.ints(1, 5))):
        op = reg() if draw(st.booleans()) else {}
        op["seed"] = draw(gen.SEED)
        op["rt"] = draw(gen.pick("cubic", "sphere", "full"))
        ops.append(op)
    return dict(img=img, init=reg() if draw(st.booleans()) else None, ops=ops)


@clause("C08", "memory", history, 1500, thorough=60000, shards=2,
        rule="a call without centers follows a construction or call with centers")
def memory(c):
    """centers and radius of the construction or last call serve later calls"""
    import viqa

    def kws(d):
        return dict(signal_center=tuple(d["sc"]), background_center=tuple(d["bc"]),
                    radius=d["r"])

    cur = c["init"]
    m = viqa.CNR(data_range=gen.data_range(c["img"]), **(kws(cur) if cur else {}))
    used = False
    for op in c["ops"]:
        a = gen.mk(dict(c["img"], seed=op["seed"]))
        if "r" in op:
            cur = op
            got = sut(m.score, a, region_type=op["rt"], **kws(op))
        elif cur is None:
            must_raise(ValueError, "CNR without centers", m.score, a, region_type=op["rt"])
            continue
        else:
            used = True
            got = sut(m.score, a, region_type=op["rt"])
        judge(a, dict(cur, rt=op["rt"]), got)
    return used
