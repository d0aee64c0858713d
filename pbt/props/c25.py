"""Figures show the requested slices, regions and values."""
import contextlib
import io
import os
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import Violation, check, clause, must_raise, scratch_dir, sut

ASSUMPTIONS = ["figures are inspected as matplotlib objects (Agg backend), not as pixels",
               "the orientation of 2D images in export_image and visualize_2d is not judged"]
SMALL = dict(figsize=(2, 1.5), dpi=25)


@contextlib.contextmanager
def recorded():
    """the figures created meanwhile, closed or not"""
    from matplotlib.figure import Figure

    out, real = [], Figure.__init__

    def init(self, *a, **k):
        out.append(self)
        real(self, *a, **k)

    Figure.__init__ = init
    try:
        yield out
    finally:
        Figure.__init__ = real


def figures(fn, *a, **k):
    """figures created by the call"""
    import matplotlib.pyplot as plt

    plt.close("all")
    with recorded() as out:
        sut(fn, *a, **k)
    check(len(out) == 1, "%d figures instead of one", len(out))
    return out[0]


def closed():
    import matplotlib.pyplot as plt

    plt.close("all")


def data(ax, i=0):
    check(len(ax.images) > i, "a panel shows %d images", len(ax.images))
    return np.ma.asarray(ax.images[i].get_array())


def upright(ax):
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    check(x0 < x1 and y0 < y1, "axes run from %s to %s", (x0, y0), (x1, y1))
    e = ax.images[0].get_extent()
    n = ax.images[0].get_array().shape
    check(sorted(e[:2]) == [-0.5, n[1] - 0.5] and sorted(e[2:]) == [-0.5, n[0] - 0.5],
          "panel of shape %s is drawn over %s", n[:2], e)


def panel(ax, want, what, labels=None):
    """want[i, j] has to be drawn at x=i, y=j"""
    got = data(ax)
    check(got.shape == want.T.shape, "%s: panel shape %s, expected %s", what, got.shape,
          want.T.shape)
    check(np.array_equal(np.asarray(got), np.asarray(want).T), "%s: panel shows other values",
          what)
    upright(ax)
    if labels:
        check((ax.get_xlabel(), ax.get_ylabel()) == labels, "%s: axes labelled %s, expected %s",
              what, (ax.get_xlabel(), ax.get_ylabel()), labels)


def crosshair(ax, x, y, what):
    xs, ys = [], []
    for ln in ax.lines:
        px, py = [np.ravel(np.asarray(v, float)) for v in ln.get_data()]
        if len(set(px)) == 1:
            xs.append(px[0])
        elif len(set(py)) == 1:
            ys.append(py[0])
    check(xs == [x] and ys == [y], "%s: lines at x=%s, y=%s, expected %s, %s", what, xs, ys, x, y)


def title(ax, n, what):
    t = ax.get_title()
    digits = "".join(ch if ch.isdigit() or ch == "-" else " " for ch in t).split()
    check(str(n) in digits, "%s: title %r does not name slice %d", what, t, n)


LAB = {0: ("y", "z"), 1: ("x", "z"), 2: ("x", "y")}


def three(axs, img, pos, what, lines=True):
    """the x-, y- and z-plane through pos"""
    for k, ax in enumerate(axs):
        w = "%s, %s-plane" % (what, "xyz"[k])
        panel(ax, np.take(np.asarray(img), pos[k], axis=k), w, LAB[k])
        title(ax, pos[k], w)
        if lines:
            a, b = [p for j, p in enumerate(pos) if j != k]
            crosshair(ax, a, b, w)


def outline(ax, c, r, round_, what):
    import matplotlib.patches as mp

    ps = list(ax.patches)
    check(len(ps) == 1, "%s: %d outlines", what, len(ps))
    p = ps[0]
    if round_:
        check(isinstance(p, mp.Circle), "%s: outline is a %s", what, type(p).__name__)
        check(tuple(p.center) == tuple(c) and p.radius == r, "%s: circle %s radius %s, expected "
              "%s, %s", what, p.center, p.radius, c, r)
    else:
        check(isinstance(p, mp.Rectangle), "%s: outline is a %s", what, type(p).__name__)
        got = (p.get_x(), p.get_y(), p.get_width(), p.get_height())
        check(got == (c[0] - r, c[1] - r, 2 * r, 2 * r), "%s: rectangle %s, expected around %s "
              "with %s", what, got, c, r)
    check(p.get_visible() and not p.get_fill() or p.get_facecolor()[3] == 0,
          "%s: outline hides the image", what)


def written(path, want, d, before):
    now = set(os.listdir(d))
    if want:
        check(os.path.isfile(path), "%s was not written", os.path.basename(path))
        import matplotlib.image as mi

        a = mi.imread(path)
        check(a.ndim == 3 and a.shape[0] > 5 and a.shape[1] > 5, "picture of shape %s", a.shape)
        check(float(np.ptp(a[..., :3])) > 0, "the exported picture is blank")
        now.discard(os.path.basename(path))
    check(now == before, "files %s were written", sorted(now - before))


@st.composite
def volcase(draw):
    sh = tuple(draw(gen.grow([draw(gen.ints(2, 9)) for _ in range(3)], n=20)))
    img = draw(gen.image(st.just(sh), kinds=["noise", "blocks", "smooth"],
                         dtypes=("uint8", "uint16", "float32", "float64", "int16")))
    bad = draw(gen.pick(None, None, None, None, "high", "edge", "low", "two", "four", "float",
                        "2d", "4d"))
    pos = [draw(gen.ints(-n, n - 1)) for n in sh]
    return dict(img=img, pos=pos, bad=bad, ax=draw(gen.ints(0, 2)), save=draw(st.booleans()),
                via=draw(gen.pick("function", "method")), off=draw(gen.ints(1, 5)))


@clause("C25", "volume", volcase, 260, thorough=5000, shards=6,
        rule="a figure was drawn and inspected, or a wrong request rejected")
def volume(c):
    """visualize_3d and ImageArray.visualize of volumes"""
    import viqa
    from viqa.utils import visualize_3d

    a = gen.mk(c["img"])
    pos = list(c["pos"])
    if a.shape[-1] == 3:
        c["via"] = "function"
    with scratch_dir() as d:
        path = os.path.join(d, "f.png") if c["save"] else None

        def draw(img, p):
            if c["via"] == "method":
                return viqa.ImageArray(img).visualize, (tuple(p), path)
            return visualize_3d, (img, tuple(p), path)

        bad, k = c["bad"], c["ax"]
        if bad:
            img = a
            if bad == "high":
                pos[k] = a.shape[k] + c["off"]
            elif bad == "edge":
                pos[k] = a.shape[k]
            elif bad == "low":
                pos[k] = -a.shape[k] - c["off"]
            elif bad == "two":
                pos = pos[:2]
            elif bad == "four":
                pos = pos + [0]
            elif bad == "float":
                pos[k] = 0.5
            elif bad == "2d":
                img, c["via"] = a[0], "function"
            elif bad == "4d":
                img, c["via"] = a[None], "function"
            fn, args = draw(img, pos)
            must_raise(ValueError, "slices %s of %s (%s)" % (pos, img.shape, bad), fn, *args,
                       **SMALL)
            check(os.listdir(d) == [], "a rejected request wrote a file")
            closed()
            return True
        fn, args = draw(a, pos)
        keep = a.copy()
        fig = figures(fn, *args, **SMALL)
        check(len(fig.axes) == 3, "%d panels", len(fig.axes))
        three(fig.axes, a, pos, "slices %s of %s" % (pos, a.shape),
              lines=all(p >= 0 for p in pos))
        check(np.array_equal(a, keep), "the image was modified")
        written(path, c["save"], d, set())
    closed()
    return True


def symmetric(got, want):
    """equal up to flips and transposition of the first two axes"""
    for t in (False, True):
        w = np.swapaxes(want, 0, 1) if t else want
        if w.shape == got.shape:
            for fx in (1, -1):
                for fy in (1, -1):
                    v = w[::fx, ::fy]
                    if np.array_equal(got, v) or (got.dtype.kind == "f" and np.allclose(
                            got, v, rtol=1e-5, atol=1e-5 * np.abs(v).max())):
                        return True
    return False


@clause("C25", "plane", lambda: st.fixed_dictionaries(dict(
    img=gen.image(st.one_of(gen.shape2(2, 9), st.tuples(gen.ints(2, 8), gen.ints(2, 8),
                                                        st.just(3))),
                  kinds=["noise", "blocks"], dtypes=("uint8", "float32")),
    save=st.booleans(), via=gen.pick("function", "method"))),
    120, thorough=2500, shards=2, rule="every case")
def plane(c):
    """visualize_2d and ImageArray.visualize of 2D and RGB images"""
    import viqa
    from viqa.utils import visualize_2d

    img = c["img"]
    if img["dtype"] == "float32":
        img["top"] = 1.0
    a = gen.mk(img)
    with scratch_dir() as d:
        path = os.path.join(d, "f.png") if c["save"] else None
        if c["via"] == "method":
            fig = figures(viqa.ImageArray(a).visualize, export_path=path, **SMALL)
        else:
            fig = figures(visualize_2d, a, path, **SMALL)
        check(len(fig.axes) == 1, "%d panels", len(fig.axes))
        check(symmetric(np.asarray(data(fig.axes[0])), a), "another image is shown")
        check({fig.axes[0].get_xlabel(), fig.axes[0].get_ylabel()} == {"x", "y"}, "axis labels")
        written(path, c["save"], d, set())
    closed()
    return True


@st.composite
def regions(draw):
    which = draw(gen.pick("CNR", "SNR"))
    nd = draw(gen.pick(2, 3, 3))
    r = draw(gen.ints(1, 3))
    sh = [2 * r + 3 + draw(gen.ints(0, 6)) for _ in range(nd)]
    rgb = nd == 2 and draw(gen.ints(0, 3)) == 0

    def center():
        return [draw(gen.ints(r + 1, n - r - 1)) for n in sh]

    return dict(which=which, r=r, sh=sh, rgb=rgb, s=center(), b=center(), seed=draw(gen.SEED),
                rt=draw(gen.pick("cubic", "spherical", "cube", "sphere", "square", "circle", None)),
                stored=draw(gen.pick("no", "no", "score", "init")), save=draw(st.booleans()),
                bad=draw(gen.pick(None, None, None, None, None, "dim", "radius", "border",
                                  "missing")),
                set=draw(gen.ints(0, 4)) == 0)


@clause("C25", "regions", regions, 260, thorough=5000, shards=6,
        rule="a figure was drawn and inspected, or a wrong request rejected")
def region_plots(c):
    """CNR/SNR.visualize_centers: slices through the centers with the region outlines"""
    import viqa

    sh = c["sh"] + ([3] if c["rgb"] else [])
    spec = {"shape": sh, "dtype": "uint8", "top": 255.0, "kind": "noise", "seed": c["seed"],
            "layout": "C"}
    a = gen.mk(spec)
    if len(c["sh"]) == 2 and not c["rgb"] and a.shape[-1] == 3:
        return False
    g = gen.gray_ref(a) if c["rgb"] else a
    cnr = c["which"] == "CNR"
    kw = dict(signal_center=tuple(c["s"]), radius=c["r"])
    if cnr:
        kw["background_center"] = tuple(c["b"])
    rt = c["rt"]
    draw_kw = dict(SMALL)
    if rt:
        draw_kw["region_type"] = rt
    elif not cnr:
        draw_kw["region_type"] = rt = "cubic"
    round_ = rt in ("spherical", "sphere", "circle")
    cls = getattr(viqa, c["which"])
    with scratch_dir() as d:
        path = os.path.join(d, "f.png") if c["save"] else None
        m = cls(data_range=255)
        bad = c["bad"]
        if bad:
            kw = dict(kw)
            exc = ValueError
            if bad == "dim":
                kw["signal_center"] = kw["signal_center"] + (c["r"] + 1,)
            elif bad == "radius":
                kw["radius"] = -c["r"]
                exc = (TypeError, ValueError)
            elif bad == "border":
                kw["signal_center"] = (c["r"] - 1,) + kw["signal_center"][1:]
            else:
                kw.pop("signal_center")
            must_raise(exc, "%s.visualize_centers with wrong %s" % (c["which"], bad),
                       m.visualize_centers, a, export_path=path, **kw, **draw_kw)
            check(os.listdir(d) == [], "a rejected request wrote a file")
            closed()
            return True
        def show(m, **k):
            if c["set"]:  # outside IPython set_centers draws the regions
                k["export_path"] = path
                return figures(m.set_centers, a, **(k if cnr else {"vis_kwargs": k}))
            return figures(m.visualize_centers, a, export_path=path, **k)

        if c["stored"] == "no":
            fig = show(m, **kw, **draw_kw)
        else:
            if c["stored"] == "score":
                # CNR does not score RGB images
                sut(m.score, a[..., 0] if cnr and c["rgb"] else a, region_type="cubic", **kw)
            else:
                m = cls(data_range=255, **kw)
            fig = show(m, **draw_kw)
        axs = fig.axes
        rows = [("background", c["b"]), ("signal", c["s"])] if cnr else [("signal", c["s"])]
        if len(c["sh"]) == 3:
            check(len(axs) == 3 * len(rows), "%d panels", len(axs))
            for i, (nm, p) in enumerate(rows):
                part = axs[3 * i:3 * i + 3]
                three(part, g, p, "%s %s" % (c["which"], nm))
                for k, ax in enumerate(part):
                    outline(ax, [q for j, q in enumerate(p) if j != k], c["r"], round_,
                            "%s %s, %s-plane" % (c["which"], nm, "xyz"[k]))
        else:
            check(len(axs) == len(rows), "%d panels", len(axs))
            for ax, (nm, p) in zip(axs, rows):
                what = "%s %s" % (c["which"], nm)
                got = np.asarray(data(ax), float)
                check(got.shape == g.T.shape and np.allclose(got, g.T, rtol=1e-5, atol=1e-3),
                      "%s: the panel does not show the image with x along the first axis", what)
                upright(ax)
                check((ax.get_xlabel(), ax.get_ylabel()) == ("x", "y"), "%s: axis labels", what)
                outline(ax, p, c["r"], round_, what)
                if cnr:
                    check(nm in ax.get_title().lower(), "%s panel titled %r", nm, ax.get_title())
        written(path, c["save"], d, set())
    closed()
    return True


@st.composite
def fullcase(draw):
    nd = draw(gen.pick(2, 3))
    sh = [draw(gen.ints(4, 9)) for _ in range(nd)]
    return dict(sh=sh, seed=draw(gen.SEED), rt=draw(gen.pick("full", "original")),
                sig=draw(gen.pick("mask", "mask", "none", "shape")),
                c=[draw(gen.ints(0, n - 1)) for n in sh], give=draw(st.booleans()))


@clause("C25", "overlay", fullcase, 120, thorough=2000, shards=2,
        rule="a region was laid over the image")
def overlay(c):
    """SNR region plots of whole regions overlay the given signal"""
    import viqa

    a = gen.mk({"shape": c["sh"], "dtype": "uint8", "top": 255.0, "kind": "noise",
                "seed": c["seed"], "layout": "C"})
    if a.shape[-1] == 3:
        return False
    rng = np.random.default_rng(c["seed"])
    sig = None
    if c["sig"] == "mask":
        sig = np.ma.array(a, mask=rng.random(a.shape) < 0.5)
    elif c["sig"] == "shape":
        sig = a[..., :-1]
    m = viqa.SNR(data_range=255)
    kw = dict(region_type=c["rt"], **SMALL)
    if c["give"]:
        kw["signal_center"] = tuple(c["c"])
    pos = c["c"] if c["give"] else [n // 2 for n in a.shape]
    if c["sig"] == "shape" and c["rt"] == "full":
        must_raise(ValueError, "signal of shape %s for %s" % (sig.shape, a.shape),
                   m.visualize_centers, a, signal=sig, **kw)
        closed()
        return True
    fig = figures(m.visualize_centers, a, signal=sig, **kw)
    with_sig = c["sig"] == "mask" and c["rt"] == "full"
    if a.ndim == 3:
        three(fig.axes, a, pos, "SNR " + c["rt"])
    else:
        panel(fig.axes[0], a, "SNR " + c["rt"], ("x", "y"))
    for k, ax in enumerate(fig.axes):
        check(not ax.patches, "an outline is drawn for region_type %s", c["rt"])
        check(len(ax.images) == 1 + with_sig, "%d images in a panel", len(ax.images))
        if with_sig:
            w = (np.ma.take(sig, pos[k], axis=k) if a.ndim == 3 else sig).T
            got = data(ax, 1)
            same = got.shape == w.shape and np.array_equal(
                np.ma.getmaskarray(got), np.ma.getmaskarray(w)) and np.array_equal(
                got.filled(0), w.filled(0))
            check(same, "the overlay of panel %d is not the signal slice", k)
    closed()
    return with_sig


NAMES = ("PSNR", "RMSE", "SSIM", "UQI", "MS-SSIM", "FSIM", "VIFp", "VSI", "GSM", "MAD", "PSNRc",
         "RMSEc", "FSIMc", "SSIM_uniform", "SSIM_gauss", "r_PSNR", "m")
NRN = ("CNR", "SNR", "Q-Measure")


@st.composite
def compcase(draw):
    kind = draw(gen.pick("3d", "3d", "2d", "rgb"))
    sh = {"3d": [draw(gen.ints(2, 8)), draw(gen.ints(2, 8)), draw(gen.ints(4, 8))],
          "2d": [draw(gen.ints(4, 9)), draw(gen.ints(4, 9))],
          "rgb": [draw(gen.ints(4, 8)), draw(gen.ints(4, 8)), 3]}[kind]
    n = 2 if kind != "3d" else 3
    roi = None
    if draw(gen.ints(0, 2)) == 0:
        roi = []
        for s in sh[:n]:
            lo = draw(gen.ints(0, s - 2))
            roi.append([lo, draw(gen.ints(lo + 2, s))])
        if kind == "3d" and roi[2][1] - roi[2][0] == 3:
            roi[2] = [0, sh[2]]
        if kind == "2d" and roi[1][1] - roi[1][0] == 3:
            roi[1] = [0, sh[1]]
    fr = draw(st.lists(gen.pick(*NAMES), unique=True, max_size=13))
    nr = draw(st.lists(gen.pick(*NRN), unique=True, max_size=3))
    keys = fr + [k + e for k in nr for e in ("_r", "_m")]
    if draw(st.booleans()):
        keys = draw(st.permutations(keys))
    val = st.one_of(st.floats(-1e4, 1e4), st.floats(0, 1), gen.pick(0.005, 12.345, 0.0, 1e6))
    res = [[k, draw(val)] for k in keys]
    size = [(roi[i][1] - roi[i][0]) if roi else sh[i] for i in range(n)]
    ax = draw(gen.ints(0, 2))
    return dict(kind=kind, sh=sh, roi=roi, res=res, ax=ax,
                k=draw(gen.ints(0, size[ax] - 1)) if kind == "3d" else 0,
                dtype=draw(gen.pick("uint8", "uint16", "float64")), seed=draw(gen.SEED),
                save=draw(st.booleans()), show=draw(st.booleans()),
                files=draw(gen.ints(0, 3)) == 0,
                name=draw(gen.pick(None, "a.png", "b c.png")),
                more=[draw(gen.ints(0, 3)) for _ in range(n)] if draw(gen.ints(0, 3)) == 0 else None,
                order=draw(gen.pick(None, 0, 1, 2)),
                bad=draw(gen.pick(None, None, None, None, None, None, "none", "two", "same",
                                  "three", "ext", "ndim", "range")))


@clause("C25", "comparison", compcase, 320, thorough=6000, shards=8,
        rule="a figure was drawn and inspected, or a wrong request rejected")
def comparison(c):
    """export_image: both slices side by side, every value once with two decimals"""
    import viqa

    top = {"uint8": 255.0, "uint16": 65535.0, "float64": 1.0}[c["dtype"]]
    specs = [{"shape": c["sh"], "dtype": c["dtype"], "top": top, "kind": "noise",
              "seed": c["seed"] + i, "layout": "C"} for i in (0, 1)]
    if c.get("more"):  # the modified image is resized
        specs[1]["shape"] = [s + k for s, k in zip(c["sh"], c["more"])] + c["sh"][len(c["more"]):]
        if c["kind"] != "rgb" and specs[1]["shape"][-1] == 3:
            specs[1]["shape"][-1] = 4
    a, b = (gen.mk(s) for s in specs)
    res = {k: v for k, v in c["res"]}
    kw = dict(dpi=25, figsize=(3, 2))
    b0 = b
    if a.shape != b.shape:
        import skimage.transform as tr

        if c["order"] is not None:
            kw["scaling_order"] = c["order"]
        b0 = tr.resize(b, a.shape, preserve_range=True,
                       order=kw.get("scaling_order", 1)).astype(a.dtype)
    if c["roi"]:
        kw["roi"] = [tuple(r) for r in c["roi"]]
    at = {"xyz"[c["ax"]]: c["k"]} if c["kind"] == "3d" else {}
    with scratch_dir() as d:
        cwd = os.getcwd()
        out = os.path.join(d, "out")
        os.makedirs(out)
        os.chdir(out)
        try:
            if c["save"]:
                kw["file_path"] = out
                kw["show_image"] = c["show"]
            if c["name"]:
                kw["file_name"] = c["name"]
            bad = c["bad"]
            if c["kind"] != "3d" and bad in ("none", "two", "same", "three", "range"):
                bad = None
            args = (a, b)
            exc = ValueError
            if bad:
                if bad == "none":
                    at = {}
                elif bad == "two":
                    at = {"xyz"[c["ax"]]: 0, "xyz"[(c["ax"] + 1) % 3]: 1}
                elif bad == "same":
                    at = {"xyz"[c["ax"]]: 1, "xyz"[(c["ax"] + 1) % 3]: 1}
                elif bad == "three":
                    at = {"x": 0, "y": 1, "z": 1}
                elif bad == "ext":
                    kw["file_name"] = "a.jpg"
                elif bad == "ndim":
                    args = (a, b[..., 0]) if c["kind"] != "2d" else (a, b[..., None])
                elif bad == "range":
                    at = {"xyz"[c["ax"]]: 50}
                    exc = (ValueError, IndexError)
                must_raise(exc, "export_image %s, axes %s" % (bad, at), viqa.export_image, res,
                           *args, **at, **kw)
                check(os.listdir(out) == [], "a rejected request wrote %s", os.listdir(out))
                closed()
                return True
            if c["files"] and c["kind"] == "3d" and c["dtype"] != "float64":
                args = []
                for i, z in enumerate((a, b)):
                    p = os.path.join(d, "v%d_%dx%dx%d_%sbit.raw" % (
                        i, *z.shape, {"uint8": "8", "uint16": "16"}[c["dtype"]]))
                    np.asfortranarray(z).T.tofile(p)
                    args.append(p)
            keep = dict(res)
            fig = figures(viqa.export_image, res, *args, **at, **kw)
            check(res == keep, "the results were modified")
            written(os.path.join(out, c["name"] or "image_comparison.png"), c["save"], out, set())
        finally:
            os.chdir(cwd)
        inspect(fig, (a, b0), res, c["kind"], c["roi"], c["ax"], c["k"])
    closed()
    return True


def inspect(fig, pair, res, kind, roi, ax, k):
    check(len(fig.axes) == 2, "%d panels", len(fig.axes))
    for i, (p, z) in enumerate(zip(fig.axes, pair)):
        nm = ("reference", "modified")[i]
        check(nm in p.get_title().lower(), "panel %d is titled %r", i, p.get_title())
        if roi:
            z = z[tuple(slice(*r) for r in roi)]
        if kind == "3d":
            panel(p, np.take(z, k, axis=ax), "%s image, %s=%d" % (nm, "xyz"[ax], k))
        else:
            w = gen.gray_ref(z) if kind == "rgb" else z
            check(symmetric(np.asarray(data(p)), w), "the %s panel shows another image", nm)
    texts = [t.get_text() for t in fig.texts if t.get_visible()]
    for name, v in res.items():
        hit = [t for t in texts if t.split(":")[0].strip() == name]
        check(len(hit) == 1, "%s is printed %d times", name, len(hit))
        check(hit[0].split(":", 1)[1].strip() == "%.2f" % v, "%s = %r is printed as %r", name, v,
              hit[0])
    extra = [t for t in texts if ":" in t]
    check(len(extra) == len(res), "%d values are printed for %d metrics", len(extra), len(res))
    pos = [tuple(np.round(t.get_position(), 6)) for t in fig.texts if ":" in t.get_text()]
    check(len(set(pos)) == len(pos), "two values are printed at the same place")


@st.composite
def reports(draw):
    n = draw(gen.ints(1, 3))
    pairs = [[draw(gen.ints(0, 1)), draw(gen.ints(2, 4))] for _ in range(n)]
    return dict(pairs=pairs, sh=[draw(gen.ints(5, 8)) for _ in range(3)], seed=draw(gen.SEED),
                roi=draw(gen.pick("no", "pair", "global")), ax=draw(gen.ints(0, 2)),
                k=draw(gen.ints(0, 1)), name=draw(gen.pick(None, "proj")),
                kind=draw(gen.pick("batch", "batch", "single")), exp=draw(st.booleans()),
                cut=[draw(gen.ints(0, 1)) for _ in range(9)])


@clause("C25", "report", reports, 100, thorough=1500, shards=4,
        rule="every case")
def report(c):
    """report(image=True) draws every pair with its own slices, roi and values"""
    import csv

    import matplotlib.pyplot as plt
    import viqa

    sh = c["sh"]
    rois = [[[c["cut"][3 * i + j], sh[j]] for j in range(3)] for i in range(3)]
    with scratch_dir() as d:
        out = os.path.join(d, "out")
        os.makedirs(out)
        imgs, names = [], []
        for i in range(5):
            z = gen.mk({"shape": sh, "dtype": "uint8", "top": 255.0, "kind": "noise",
                        "seed": c["seed"] + i, "layout": "C"})
            imgs.append(z)
            names.append("i%d_%dx%dx%d_8bit.raw" % (i, *sh))
            np.asfortranarray(z).T.tofile(os.path.join(d, names[-1]))
        ms = [viqa.PSNR(data_range=255), viqa.SNR(data_range=255)]
        ps = [{}, {"signal_center": (2, 2, 2), "radius": 1, "region_type": "cubic"}]
        at = {"xyz"[c["ax"]]: c["k"]}
        plt.close("all")
        if c["kind"] == "single":
            r, m = c["pairs"][0]
            mm = viqa.MultipleMetrics(ms, ps)
            sut(mm.calculate, imgs[r], imgs[m])
            fig = figures(mm.report, csv=False, metadata=False, text=False, image=True,
                          file_path=out, project_name=c["name"], img_r=imgs[r], img_m=imgs[m],
                          export_image=c["exp"], dpi=25, figsize=(3, 2), **at)
            inspect(fig, (imgs[r], imgs[m]), mm.results, "3d", None, c["ax"], c["k"])
            pre = c["name"] + "_" if c["name"] else ""
            written(os.path.join(out, pre + "image_comparison.png"), c["exp"], out, set())
            must_raise(ValueError, "report(image=True) without images", mm.report, csv=False,
                       metadata=False, text=False, image=True, file_path=out)
            closed()
            return True
        with open(os.path.join(d, "pairs.csv"), "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["reference_image", "modified_image"])
            w.writerows([[names[r], names[m]] for r, m in c["pairs"]])
        per = [[tuple(x) for x in rois[i]] for i in range(len(c["pairs"]))]
        b = sut(viqa.BatchMetrics, d, os.path.join(d, "pairs.csv"), ms, ps,
                per if c["roi"] == "pair" else None)
        kw = {"roi": per[0]} if c["roi"] == "global" else {}
        sut(b.calculate, **kw)
        old = plt.rcParams["figure.max_open_warning"]
        plt.rcParams["figure.max_open_warning"] = 0
        size = plt.rcParams["figure.figsize"]
        plt.rcParams["figure.figsize"] = (2, 1.5)
        try:
            with recorded() as figs:
                sut(b.report, csv=False, metadata=False, image=True, file_path=out,
                    project_name=c["name"], dpi=30, **at)
        finally:
            plt.rcParams["figure.max_open_warning"] = old
            plt.rcParams["figure.figsize"] = size
        check(not plt.get_fignums(), "report leaves %d figures open", len(plt.get_fignums()))
        pre = c["name"] + "_" if c["name"] else ""
        want = sorted(pre + "image_comparison_%d.png" % i for i in range(len(c["pairs"])))
        check(sorted(os.listdir(out)) == want, "report wrote %s, expected %s",
              sorted(os.listdir(out)), want)
        if len(figs) == len(c["pairs"]):
            for i, (fig, (r, m)) in enumerate(zip(figs, c["pairs"])):
                check(fig.dpi == 30, "figure drawn with dpi %r, 30 was given", fig.dpi)
                roi = {"no": None, "pair": rois[i], "global": rois[0]}[c["roi"]]
                inspect(fig, (imgs[r], imgs[m]), b.results[str(i)], "3d", roi, c["ax"], c["k"])
        elif figs:
            raise Violation("%d figures for %d pairs" % (len(figs), len(c["pairs"])))
    closed()
    return True


SHOWN = ("image", "2d", "3d", "snr", "cnr", "picreport", "multireport", "volimage", "visualize",
         "snr3", "cnr3", "shown", "shown3")
HIDDEN = ("image", "picreport", "multireport", "volimage")  # asked not to show the figure


@st.composite
def shows(draw):
    return dict(out=draw(gen.pick(*SHOWN)), seed=draw(gen.SEED), n=draw(gen.ints(1, 3)))


@clause("C25", "shown", shows, 160, thorough=4000, shards=8, rule="the figure is shown, or asked not to be shown")
def shown(c):
    """the exported figure is the one drawn, also where showing it closes it; none stays open"""
    import matplotlib.pyplot as plt
    import viqa

    from . import c31

    rng = np.random.default_rng(c["seed"])
    vol = rng.integers(0, 256, (12, 11, 10)).astype(np.uint8)
    pic = rng.integers(0, 256, (20, 16)).astype(np.uint8)
    kind, at = c["out"], "xyz"[c["seed"] % 3]

    def path(o):
        return os.path.join(o, "f.png")

    given = dict(signal_center=(5, 6, 4), radius=1 + c["seed"] % 3, dpi=20)
    own = {
        "snr3": lambda o: viqa.SNR(data_range=255).visualize_centers(
            vol, region_type="cubic", export_path=path(o), **given),
        "cnr3": lambda o: viqa.CNR(data_range=255).visualize_centers(
            vol, background_center=(6, 4, 5), export_path=path(o), **given),
        "shown": lambda o: viqa.export_image({"RMSE": 1.0}, pic, pic // 2, file_path=o, dpi=20),
        "shown3": lambda o: viqa.export_image({"RMSE": 1.0, "SNR_r": 2.0}, vol, vol // 2,
                                              file_path=o, dpi=20, **{at: c["seed"] % 9}),
    }
    got, calls = [], []
    real = plt.show
    with scratch_dir() as d, warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        fn = own[kind] if kind in own else c31.outputs(c, d)
        try:
            for how in ("stays open", "closes"):
                o = os.path.join(d, how)
                os.makedirs(o)
                plt.close("all")

                def show(*a, **k):
                    calls.append(how)
                    if how == "closes":  # like the notebook, or the user
                        plt.close("all")

                plt.show = show
                sut(fn, o)
                if how == "closes" and ("closes" in calls or kind in HIDDEN):
                    check(not plt.get_fignums(), "%s: %d figures stay open", kind,
                          len(plt.get_fignums()))
                if how == "stays open":  # and a second one next to it
                    first = len(plt.get_fignums())
                    sut(fn, o)
                    check(len(plt.get_fignums()) == 2 * first, "%s: the second call left %d "
                          "figures, the first %d", kind, len(plt.get_fignums()) - first, first)
                got.append({f: open(os.path.join(o, f), "rb").read() for f in
                            sorted(os.listdir(o)) if f.endswith(".png")})
        finally:
            plt.show = real
            plt.close("all")
        check(got[0] and list(got[0]) == list(got[1]), "%s: exported %s, and %s where showing the "
              "figure closes it", kind, list(got[0]), list(got[1]))
        for f in got[0]:
            check(got[0][f] == got[1][f], "%s: %s has %d bytes, but %d where showing the figure "
                  "closes it", kind, f, len(got[0][f]), len(got[1][f]))
            px = plt.imread(io.BytesIO(got[0][f]))
            check(len(np.unique(px)) > 2, "%s: %s is empty", kind, f)
    return kind if calls or kind in HIDDEN else False
