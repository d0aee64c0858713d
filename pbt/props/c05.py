"""MAD against an independent implementation of the detection/appearance model."""
from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import clause, close, check, must_raise, sut, num

ASSUMPTIONS = [
    "float32 images are filtered in single precision by SciPy; they are compared within 2 %",
    "images are larger than two blocks in both directions (otherwise no interior remains)",
    "float images hold values for which the luminance model is defined (>= 0)",
]


@st.composite
def params(draw):
    k = {}
    bs = draw(gen.pick(None, 2, 3, 4, 5, 6, 7, 8, 8, 10, 12, 16, 24))
    if bs:
        k["block_size"] = bs
    if draw(st.booleans()):
        k["block_overlap"] = draw(gen.pick(0, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.99))
    if draw(gen.ints(0, 3)) == 0:
        k["beta_1"] = draw(gen.pick(0.1, 0.467, 2.0))
        if draw(st.booleans()):
            k["beta_2"] = draw(gen.pick(0.05, 0.5, 1.0))
    if draw(gen.ints(0, 3)) == 0:
        k["thresh_1"] = draw(gen.pick(1.0, 2.55, 6.0))
        if draw(gen.ints(0, 3)):
            k["thresh_2"] = draw(gen.pick(0.7, 3.35, 9.0))
    if draw(gen.ints(0, 3)) == 0:
        k["ms_scale"] = draw(gen.pick(0.5, 2, 13.5))
    if draw(gen.ints(0, 3)) == 0:
        k["orientations_num"] = draw(gen.ints(1, 8))
    if draw(gen.ints(0, 3)) == 0:
        k["scales_num"] = draw(gen.ints(1, 5))
        k["weights"] = [draw(gen.pick(0, 0.5, 1, 2, 6)) for _ in range(k["scales_num"])]
        k["weights"][draw(gen.ints(0, k["scales_num"] - 1))] = draw(gen.pick(1, 3))
    elif draw(gen.ints(0, 3)) == 0:
        k["weights"] = [draw(gen.pick(0.5, 1, 2, 6)) for _ in range(5)]
    if draw(gen.ints(0, 3)) == 0:
        k["csf_function"] = {"lambda_csf": draw(gen.pick(0.05, 0.114, 0.3)),
                             "f_peak": draw(gen.pick(3.0, 7.8909, 15.0))}
    if draw(gen.ints(0, 3)) == 0:
        k["luminance_function"] = draw(gen.pick(
            {"k": 0.05, "gamma": 2.2}, {"k": 0.02874, "gamma": 1.8}, {"b": 0.7},
            {"b": 0.2, "k": 0.04, "gamma": 2.4}))
    mon = draw(gen.ints(0, 5))
    if mon == 0:
        k["account_monitor"] = True
        k["display_function"] = {"disp_res": draw(gen.pick(20.0, 38.0, 96)),
                                 "view_dis": draw(gen.pick(20.0, 60.0, 100))}
    elif mon == 1:
        k["account_monitor"] = False
    k["_weights_as"] = draw(gen.pick("list", "array", "tuple"))
    return k


@st.composite
def case(draw):
    k = draw(params())
    bs = k.get("block_size", 16)
    sh = (2 * bs + draw(gen.ints(1, 2 * bs + 4)), 2 * bs + draw(gen.ints(1, 2 * bs + 4)))
    sh = draw(gen.grow(sh, cap=15000, top=300))
    c = draw(gen.pair_case(st.just(sh), dtypes=("uint8", "uint8", "uint16", "float64", "float32"),
                           kinds=["lowcon", "lowcon", "lowcon", "offset", "noise", "smooth",
                                  "blocks", "ramp", "extreme"],
                           modes=["noise", "noise", "indep", "indep", "indep", "indep",
                                  "invert", "invert", "noise", "shift", "blur", "roll",
                                  "pixel", "scale"]))
    if c["img"]["dtype"].startswith("float") and c["img"]["top"] == 1.0:
        c["img"]["top"] = 255.0
    c["k"] = k
    c["dr"] = draw(st.one_of(st.none(), gen.ints(0, 500)))
    c["via"] = draw(gen.pick("class", "function"))
    return c


def real_kwargs(k):
    k = dict(k)
    how = k.pop("_weights_as", "list")
    if "weights" in k:
        k["weights"] = {"list": list, "tuple": tuple,
                        "array": lambda w: np.array(w, float)}[how](k["weights"])
    return k


@clause("C05", "model", case, 1200, thorough=30000,
        rule="the images differ and both detection and appearance are positive", shards=8)
def model(c):
    """MAD of a 2D pair equals the model, for all block geometries and parameters"""
    import viqa
    from viqa.fr_metrics.mad import most_apparent_distortion

    a, b = gen.mk(c["img"]), gen.mod(c["img"], c["d"])
    dr = gen.data_range(c["img"]) + (c["dr"] or 0)
    k = real_kwargs(c["k"])
    combine, det, app, margin = ref.mad(a, b, data_range=dr, **k)
    if c["via"] == "class":
        m = viqa.MAD(data_range=gen.number(c["img"], dr))
        v = sut(m.score, a, b, **k)
        close(m.score_val, v, "score_val", 0, 0)
    else:
        v = sut(most_apparent_distortion, a, b, data_range=dr, **k)
    if margin < 1e-7:
        return False
    tol = 2e-2 if c["img"]["dtype"] == "float32" else 1e-5
    if c["img"]["dtype"] == "float32" and margin < 1e-4:
        return False
    # the combination may be steep: bound it over the rounding error of both indices
    top = float(max(a.max(), b.max()))
    f32 = c["img"]["dtype"] == "float32"
    diff = float(np.abs(a.astype(float) - b).max())
    ed = tol * det + 1e-12 * 200 * diff**2
    ea = tol * app + (1e-4 * top if f32 else 1e-11 * top)
    vals = [combine(det + i * ed, app + j * ea) for i in (-1, 0, 1) for j in (-1, 0, 1)]
    v = num(v, "MAD")
    check(min(vals) <= v <= max(vals), "MAD: got %.12g, expected %.12g (detection %.6g, "
          "appearance %.6g)", v, combine(det, app), det, app)
    if not (det > 0 and app > 0):
        return False
    return "square" if a.shape[0] == a.shape[1] else "nonsq"


@st.composite
def bad(draw):
    sh = draw(gen.shape2(33, 40))
    return {
        "img": draw(gen.image(st.just(sh), dtypes=("uint8",))),
        "what": draw(gen.pick("big", "zero", "neg", "over1", "overneg", "weights", "monitor",
                              "weights_long")),
        "n": draw(gen.ints(1, 30)),
    }


@clause("C05", "rejects", bad, 120, rule="every case")
def rejects(c):
    """invalid block sizes, overlaps, weights and display settings raise ValueError"""
    import viqa

    a = gen.mk(c["img"])
    n = c["n"]
    k = {
        "big": {"block_size": min(a.shape) + n}, "zero": {"block_size": 0},
        "neg": {"block_size": -n}, "over1": {"block_overlap": 1 + (n - 1) / 10},
        "overneg": {"block_overlap": -n / 40},
        "weights": {"weights": [1.0] * (1 + n % 4)},
        "weights_long": {"weights": [1.0] * (6 + n), "scales_num": 5 if n % 2 else 3},
        "monitor": {"account_monitor": True},
    }[c["what"]]
    m = viqa.MAD(data_range=255)
    must_raise((ValueError,), "MAD with %s" % k, m.score, a, a, **k)
    check(m.score_val is None, "score_val set by a failing call")
    return c["what"]


def known_findings():
    """block_size=1 is documented as 'no blocks' but never sees a distortion"""
    import viqa

    rng = np.random.default_rng(0)
    a = rng.integers(0, 255, (32, 32)).astype(np.uint8)
    b = rng.integers(0, 255, (32, 32)).astype(np.uint8)
    v = num(sut(viqa.MAD(data_range=255).score, a, b, block_size=1))
    yield ("mad-block1", "MAD(block_size=1), documented as 'Use 1 for no blocks', returns %g "
           "for two unrelated 32x32 images (single pixels have no standard deviation)" % v,
           not v > 0)
