"""Log-Gabor bank, derivative kernels, absolute correlation."""
from hypothesis import strategies as st
import numpy as np
from numpy.lib.stride_tricks import sliding_window_view

from .. import gen, ref
from ..core import clause, close, check, must_raise, same_array, sut


@st.composite
def gab(draw):
    c = {"img": draw(gen.image(
        st.just(draw(gen.grow(draw(gen.shape2(4, 40))))),
        dtypes=("uint8", "uint16", "float64", "float32"))),
         "scales": draw(gen.ints(1, 5)), "orient": draw(gen.ints(1, 6)), "k": {}}
    if draw(st.booleans()):
        c["k"]["min_wavelength"] = draw(gen.pick(3, 4, 6.5))
    if draw(st.booleans()):
        c["k"]["wavelength_scaling"] = draw(gen.pick(1.3, 2.1, 3, 4))
    if draw(st.booleans()):
        c["k"]["bandwidth_param"] = draw(gen.pick(0.41, 0.55, 0.74, 0.85))
    if draw(st.booleans()):
        c["k"]["d_theta_on_sigma"] = draw(gen.pick(1.0, 1.5, 2.3))
    return c


@clause("C24", "gabor", gab, 600, rule="non-constant image", shards=4)
def gabor_(c):
    """every filter response of the bank equals the frequency domain definition"""
    from viqa.utils import gabor_convolve

    a = gen.mk(c["img"])
    got = sut(gabor_convolve, a, c["scales"], c["orient"], **c["k"])
    want = ref.gabor(a, c["scales"], c["orient"], **c["k"])
    got = np.asarray(got, dtype=object)
    check(got.shape[:2] == (c["scales"], c["orient"]), "bank shape %s", got.shape)
    top = float(np.abs(a.astype(float)).max())
    tol = (2e-5 if a.dtype == np.float32 else 1e-10) * top
    for (s, o), w in want.items():
        g = np.asarray(got[s, o])
        g = g.astype(complex)
        check(g.shape == w.shape, "response shape %s", g.shape)
        check(bool(np.all(np.abs(g - w) <= tol)),
              "response of scale %s, orientation %s deviates by %.3g (image maximum %.3g)", s, o,
              float(np.abs(g - w).max()), top)
    return "odd" if a.shape[0] % 2 or a.shape[1] % 2 else "even"


@st.composite
def lin(draw):
    sh = draw(gen.grow(draw(gen.shape2(5, 24))))
    return {"a": draw(gen.image(st.just(sh), dtypes=("float64",))),
            "b": draw(gen.image(st.just(sh), dtypes=("float64",))),
            "f": [draw(gen.pick(-2.5, 0.5, 3.0)), draw(gen.pick(-1.0, 0.25, 4.0))],
            "dc": draw(gen.pick(0.0, 10.0, -300.0))}


@clause("C24", "gabor_linear", lin, 150, rule="every case")
def gabor_linear(c):
    """linear in the image and blind to a constant offset"""
    from viqa.utils import gabor_convolve

    a, b = gen.mk(c["a"]), gen.mk(c["b"])
    p, q = c["f"]
    ra, rb = sut(gabor_convolve, a, 2, 3), sut(gabor_convolve, b, 2, 3)
    rc = sut(gabor_convolve, p * a + q * b + c["dc"], 2, 3)
    t = 1e-11 * (abs(p) * a.max() + abs(q) * b.max() + abs(c["dc"]) + 1)
    for s in range(2):
        for o in range(3):
            same_array(rc[s][o], p * ra[s][o] + q * rb[s][o], "linear combination", 0, t)
    return True


BORDERS = {"constant": "constant", "reflect": "reflect", "nearest": "edge",
           "mirror": "symmetric", "wrap": "wrap"}


@st.composite
def corr(draw):
    nd = draw(gen.pick(2, 2, 3))
    ks = draw(gen.pick(3, 5, 3, 7 if nd == 2 else 3))
    sh = [draw(gen.ints(max(ks, 4), 12 if nd == 2 else 8)) for _ in range(nd)]
    c = {"img": draw(gen.image(st.just(sh), dtypes=("float64", "float32", "int32", "uint8"))),
         "ks": ks, "kseed": draw(gen.SEED), "mode": draw(gen.pick("correlate", "convolve")),
         "named": draw(st.booleans()), "border": draw(gen.pick(*BORDERS)),
         "value": draw(gen.pick(0, 0, 1, 7))}
    return c


def the_kernel(c, nd):
    rng = np.random.default_rng(c["kseed"])
    if c["named"]:
        names = [k for k, v in ref.kernel_table().items() if v.ndim == nd and v.shape[0] == c["ks"]]
        if names:
            return ref.kernel_table()[sorted(names)[int(rng.integers(0, len(names)))]]
    return rng.integers(-5, 6, (c["ks"],) * nd).astype(float) / 4


@clause("C24", "correlate_abs", corr, 500, rule="kernel not all zero", shards=2)
def correlate_abs(c):
    """mean(|kernel * window|) with the window centred on every pixel"""
    from viqa.utils import correlate_convolve_abs

    a = gen.mk(c["img"])
    k = the_kernel(c, a.ndim)
    k0 = k.copy()
    got = sut(correlate_convolve_abs, a, k, mode=c["mode"], border_mode=c["border"],
              value=c["value"])
    same_array(k, k0, "kernel argument after the call")
    r = c["ks"] // 2
    kw = {"constant_values": c["value"]} if c["border"] == "constant" else {}
    p = np.pad(a.astype(np.float64), r, mode=BORDERS[c["border"]], **kw)
    kk = np.flip(k) if c["mode"] == "convolve" else k
    w = sliding_window_view(p, kk.shape) * kk
    want = np.abs(w).mean(tuple(range(-a.ndim, 0)))
    top = float(np.abs(want).max())
    got = np.asarray(got)
    check(got.shape == a.shape, "result shape %s", got.shape)
    if got.dtype.kind in "iu":
        same_array(got, np.trunc(want), "integer result", 0, 1.0)
    else:
        same_array(got, want, "mean absolute response", 2e-5, 2e-6 * top)
    return bool(np.any(k))


@st.composite
def bad(draw):
    return {"img": draw(gen.image(gen.shape2(5, 9))), "what": draw(gen.pick("border", "dims")),
            "s": draw(gen.pick("foo", "", "Constant", "edge"))}


@clause("C24", "correlate_rejects", bad, 40, rule="every case")
def correlate_rejects(c):
    """unknown border modes and dimensions raise ValueError"""
    from viqa.utils import correlate_convolve_abs

    a = gen.mk(c["img"])
    if c["what"] == "border":
        must_raise((ValueError,), "border mode %r" % c["s"], correlate_convolve_abs, a,
                   np.ones((3, 3)), border_mode=c["s"])
    else:
        must_raise((ValueError,), "4D image", correlate_convolve_abs, a[None, None],
                   np.ones((3, 3, 3, 3)))
    return True


AXIS3 = {"x": 0, "y": 1, "z": 2}


@st.composite
def kern(draw):
    return {"name": draw(gen.pick(*sorted(ref.kernel_table()))),
            "dir": [draw(gen.ints(-4, 4)) for _ in range(3)], "off": draw(gen.ints(-1000, 1000)),
            "mutate": draw(st.booleans())}


@clause("C24", "kernels", kern, 400, rule="ramp direction not zero")
def kernels(c):
    """derivative kernels: blind to constants, antisymmetric, directional on linear ramps"""
    import viqa.kernels as K

    k = np.asarray(sut(getattr(K, c["name"])))
    t = ref.kernel_table()[c["name"]]
    check(k.shape == t.shape, "%s has shape %s", c["name"], k.shape)
    nd = k.ndim
    g = np.meshgrid(*[np.arange(s) - s // 2 for s in k.shape], indexing="ij")
    check((k * c["off"]).sum() == 0, "%s responds to a constant image", c["name"])
    same_array(k, -np.flip(k), c["name"] + " antisymmetry")
    d = c["dir"][:nd]
    resp = float((k * sum(d[i] * g[i] for i in range(nd))).sum())
    n = c["name"].split("_")[-1]
    want = float((t * sum(d[i] * g[i] for i in range(nd))).sum())
    check(resp == want, "%s: response to the ramp %s is %g, expected %g", c["name"], d, resp, want)
    patch = np.random.default_rng(abs(c["off"])).integers(0, 256, k.shape)
    check((k * patch).sum() == (t * patch).sum(), "%s: response to a random patch is %d, "
          "expected %d", c["name"], (k * patch).sum(), (t * patch).sum())
    if n in ("x", "y", "z"):
        ax = AXIS3[n] if nd == 3 else {"x": 1, "y": 0}[n]
        if d[ax] == 0:
            check(resp == 0, "%s responds to a ramp along other axes", c["name"])
    if n in ("xy", "yx") and nd == 2:
        dd = d[0] - d[1] if n == "xy" else d[0] + d[1]
        if dd == 0:
            check(resp == 0, "%s responds across its diagonal", c["name"])
    if c["mutate"]:  # the returned kernel is the caller's
        k[...] = 99
        same_array(sut(getattr(K, c["name"])), t, c["name"] + " after changing a returned kernel")
    return any(d)
