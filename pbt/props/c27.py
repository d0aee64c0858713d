"""Interactive region selection: histories of slider moves, clicks and several panels."""
import builtins
import contextlib
import io

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import check, clause, close, must_raise, num, sut
from . import c10, c25

ASSUMPTIONS = ["the widgets are driven without a browser: slider values and button clicks are "
               "set on the ipywidgets objects, found by their labels",
               "the figure last drawn for an event is inspected as matplotlib object"]
SIZE = {"2D": 2, "RGB": 2, "3D": 3}
AX = "XYZ"


@contextlib.contextmanager
def notebook():
    """pretend to be IPython; all widgets are closed at the end"""
    import ipywidgets as W

    had = hasattr(builtins, "__IPYTHON__")
    builtins.__IPYTHON__ = True
    try:
        yield W
    finally:
        if not had:
            del builtins.__IPYTHON__
        W.Widget.close_all()
        c25.closed()


def instances():
    from ipywidgets.widgets import widget

    return dict(widget._instances)


class Panel:
    """one opened user interface"""

    def __init__(self, W, m, img, **kw):
        self.m, self.kw = m, kw
        old = set(instances())
        self.fig = event(m.set_centers, img, **kw)
        new = [w for i, w in instances().items() if i not in old]
        self.by = {}
        for w in new:
            if isinstance(w, W.Box) and len(w.children) == 2 and isinstance(
                    w.children[0], W.Label):
                self.by[w.children[0].value] = w.children[1]
            elif isinstance(w, (W.Button, W.Dropdown)) or getattr(w, "description", ""):
                self.by[w.description.rstrip(":")] = w

    def __getitem__(self, k):
        check(k in self.by, "the panel has no %r, only %s", k, sorted(self.by))
        return self.by[k]

    def center(self, nd, what):
        return tuple(self["%s Coordinate (%s)" % (a, what)].value for a in AX[:nd])


def event(fn, *a, **k):
    """run a user action; returns the last figure it drew (or None)"""
    import matplotlib.pyplot as plt

    plt.close("all")
    with contextlib.redirect_stdout(io.StringIO()):
        sut(fn, *a, **k)
    n = plt.get_fignums()
    return plt.figure(n[-1]) if n else None


def move(w, v):
    w.value = v


@st.composite
def history(draw):
    imgs = []
    for _ in range(draw(gen.ints(1, 2))):
        form = draw(gen.pick("2D", "2D", "RGB", "3D", "3D"))
        sh = [draw(gen.ints(8, 15)) for _ in range(SIZE[form])]
        imgs.append(dict(form=form, sh=sh, seed=draw(gen.SEED),
                         dtype=draw(gen.pick("uint8", "uint16", "float32"))))
    ms = draw(st.lists(gen.pick("CNR", "SNR", "SNR"), min_size=1, max_size=2))
    ops = []
    for i in range(draw(gen.ints(2, 8))):
        kind = "open" if i == 0 else draw(gen.pick(
            "open", "center", "center", "center", "radius", "radius", "type", "sliders",
            "calculate", "save", "save", "score"))
        op = {"op": kind, "m": draw(gen.ints(0, len(ms) - 1)),
              "i": draw(gen.ints(0, len(imgs) - 1)), "p": draw(gen.ints(0, 3))}
        if kind == "open":
            n = len(imgs[op["i"]]["sh"])
            r = draw(gen.ints(1, 3))
            op["give"] = draw(gen.opt(
                signal_center=st.just([draw(gen.ints(r, s - r - 1))
                                       for s in imgs[op["i"]]["sh"]]),
                background_center=st.just([draw(gen.ints(r, s - r - 1))
                                           for s in imgs[op["i"]]["sh"]]),
                radius=st.just(r),
                region_type=gen.pick("cubic", "spherical", "full", "original"),
                iterations=gen.ints(1, 4), lower_threshold=gen.ints(50, 80),
                upper_threshold=gen.ints(85, 100)))
            op["bad"] = draw(gen.pick(None, None, None, None, "dim", "radius", "type", "border"))
            op["n"] = n
        elif kind in ("center", "sliders"):
            op.update(ax=draw(gen.ints(0, 2)), what=draw(gen.pick("Signal", "Background")),
                      f=draw(gen.pick(0, 0.25, 0.5, 0.8, 1)))
        elif kind == "radius":
            op["f"] = draw(gen.pick(0, 0.3, 0.6, 1))
        elif kind == "type":
            op["t"] = draw(gen.pick("cubic", "spherical", "full", "original"))
        ops.append(op)
    return dict(imgs=imgs, ms=ms, ops=ops)


def mk(s):
    """a bright blob on noise"""
    rng = np.random.default_rng(s["seed"])
    sh = tuple(s["sh"])
    g = np.meshgrid(*[np.arange(n) for n in sh], indexing="ij")
    a = 0.4 * rng.random(sh)
    a[sum((x - n // 2) ** 2 for x, n in zip(g, sh)) <= (min(sh) / 3) ** 2] += 0.5
    if s["form"] == "RGB":
        a = np.stack([a, 0.9 * a, 0.8 * a], -1)
    return gen.quant(a, s["dtype"], gen.top_of(s["dtype"]) or 1.0)


def params(m):
    return {k: v for k, v in m.parameters.items()}


def limits(p, nd, sh, what):
    """center sliders only offer regions inside the image"""
    r = p["Radius"].value
    for a, n in zip(AX, sh):
        w = p["%s Coordinate (%s)" % (a, what)]
        check(r <= w.min <= w.value <= w.max <= n - r,
              "radius %d: the %s %s slider runs from %d to %d (value %d) in an extent of %d", r,
              what, a, w.min, w.max, w.value, n)
        check(w.min <= r + 1 and w.max >= n - r - 1, "radius %d: the %s slider of an extent of "
              "%d only runs from %d to %d", r, a, n, w.min, w.max)


def drawn(st_, p, fig):
    """the figure shows the values of the panel"""
    if fig is None:
        return
    nd, g = st_["nd"], st_["gray"]
    cnr = st_["cnr"]
    rows = [("background", p.center(nd, "Background"))] if cnr else []
    rows.append(("signal", p.center(nd, "Signal")))
    rt = p.kw.get("region_type", "cubic") if cnr else p["Region Type"].value
    r = p["Radius"].value
    axs = fig.axes
    check(len(axs) == len(rows) * (3 if nd == 3 else 1), "%d panels drawn", len(axs))
    for i, (nm, c) in enumerate(rows):
        part = axs[3 * i:3 * i + 3] if nd == 3 else [axs[i]]
        if nd == 3:
            c25.three(part, g, c, nm)
        else:
            got = np.asarray(c25.data(part[0]), float)
            check(got.shape == g.T.shape and np.allclose(got, g.T, rtol=1e-5, atol=1e-3),
                  "%s: another image is drawn", nm)
        for k, ax in enumerate(part):
            if rt in ("cubic", "spherical"):
                cc = [q for j, q in enumerate(c) if j != k] if nd == 3 else c
                c25.outline(ax, cc, r, rt == "spherical", "%s outline" % nm)
            else:
                check(not ax.patches, "an outline is drawn for region type %s", rt)
                over = rt == "full" and st_["mask"] is not None
                check(len(ax.images) == 1 + over, "%d images drawn for region type %s",
                      len(ax.images), rt)
                if over:
                    w = np.take(st_["mask"], c[k], axis=k) if nd == 3 else st_["mask"]
                    check(np.array_equal(~np.ma.getmaskarray(c25.data(ax, 1)), w.T),
                          "the overlay is not the calculated region")


def saved(st_, p, par):
    """the parameters an SNR or CNR metric has to hold after saving the panel"""
    nd = st_["nd"]
    want = {"signal_center": p.center(nd, "Signal"), "radius": p["Radius"].value}
    if st_["cnr"]:
        want["background_center"] = p.center(nd, "Background")
    else:
        rt = p["Region Type"].value
        want["region_type"] = rt
        want["auto_center"] = rt == "full"
        if rt in ("full", "original"):
            want.update(signal_center=None, radius=None)
        if rt == "full":
            want.update(st_["calc"] or {})
    for k, v in want.items():
        check(k in par and par[k] == v, "saved %s = %r, the panel shows %r", k, par.get(k), v)


@clause("C27", "panels", history, 500, thorough=12000, shards=8,
        rule="values were saved, or drawn after a move")
def panels(c):
    """every panel stores, draws and limits exactly its own values"""
    import viqa

    arr = [mk(s) for s in c["imgs"]]
    if any(s["form"] == "3D" and s["sh"][2] == 3 for s in c["imgs"]):
        return False
    ms = [getattr(viqa, n)(data_range=255) for n in c["ms"]]
    ps, label = [], set()
    with notebook() as W:
        for op in c["ops"]:
            kind = op["op"]
            before = [params(m) for m in ms]
            touched = None
            if kind == "open":
                touched = op["m"]
                s = c["imgs"][op["i"]]
                st_ = open_panel(W, op, c["ms"][touched], ms[touched], s, arr[op["i"]], ps)
                if st_ is None:
                    label.add("rejected")
                else:
                    label.add("open")
            else:
                if not ps:
                    continue
                st_, p = ps[op["p"] % len(ps)]
                views = [[(k, w.value) for k, w in q.by.items() if hasattr(w, "value")]
                         for _, q in ps]
                done = act(op, st_, p, ms, arr)
                if done == "save":
                    touched = st_["m"]
                    saved(st_, p, ms[touched].parameters)
                if done:
                    label.add(done)
                for (s2, q), v in zip(ps, views):
                    if q is not p:
                        now = [(k, w.value) for k, w in q.by.items() if hasattr(w, "value")]
                        check(now == v, "%s in one panel changed another: %s, before %s", kind,
                              now, v)
            for j, (m, b) in enumerate(zip(ms, before)):
                if j != touched:
                    check(params(m) == b, "%s changed the parameters of %s metric to %s, "
                          "before %s", kind, "its" if ps and st_ and j == st_["m"] else
                          "another", params(m), b)
    return ",".join(sorted(label)) if label - {"rejected", "open"} else False


def open_panel(W, op, cls, m, s, a, ps):
    cnr = cls == "CNR"
    nd = len(s["sh"])
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in op["give"].items()}
    if cnr:
        for k in ("iterations", "lower_threshold", "upper_threshold"):
            kw.pop(k, None)
        if kw.get("region_type") in ("full", "original"):
            kw["region_type"] = "spherical"
    else:
        kw.pop("background_center", None)
    # starting points have to be given together here, the radius bounds the centers
    if "radius" not in kw:
        kw.pop("signal_center", None)
        kw.pop("background_center", None)
    stored = params(m)
    names = ("signal_center", "radius") + (("background_center",) if cnr else ())
    mid = tuple(n // 2 for n in s["sh"])
    start = {"signal_center": mid, "background_center": mid, "radius": 1}
    if cnr:
        start.update({k: kw[k] for k in names if k in kw})
        if set(names) <= set(stored):
            start = {k: stored[k] for k in names}
    else:
        for k in names:
            v = kw.get(k)
            start[k] = v if v is not None else stored[k] if stored.get(k) is not None else start[k]
    if len(start["signal_center"]) != nd or any(
            not start["radius"] <= x < n - start["radius"]
            for k in names if k != "radius" for x, n in zip(start[k], s["sh"])):
        return None  # stored for another image
    bad = op["bad"]
    if cnr and set(names) <= set(stored):
        bad = None  # the stored values take precedence
    if bad:
        exc = ValueError
        if bad == "dim":
            kw["signal_center"] = start["signal_center"] + (3,)
        elif bad == "radius":
            kw["radius"], exc = 1.5, TypeError
        elif bad == "border":
            kw["signal_center"] = (0,) + start["signal_center"][1:]
        elif cnr:
            return None
        else:
            kw["region_type"] = "triangle"
        with contextlib.redirect_stdout(io.StringIO()):
            must_raise(exc, "set_centers with wrong " + bad, m.set_centers, a, **kw)
        return None
    gray = gen.gray_ref(a) if s["form"] == "RGB" else a
    st_ = dict(m=op["m"], i=op["i"], nd=nd, sh=s["sh"], cnr=cnr, gray=gray, mask=None, calc=None)
    vis = dict(c25.SMALL)
    if cnr:
        kw.update(vis)
    else:
        kw["vis_kwargs"] = vis
    p = Panel(W, m, a, **kw)
    ps.append((st_, p))
    for what in ("Signal", "Background")[:1 + cnr]:
        limits(p, nd, s["sh"], what)
        w0 = start[what.lower() + "_center"]
        got = p.center(nd, what)
        r = start["radius"]
        want = tuple(min(max(x, r + 1), n - r - 1) for x, n in zip(w0, s["sh"]))
        check(got in (w0, want), "%s starts at %s, given %s", what, got, w0)
    check(p["Radius"].value == start["radius"], "radius starts at %s, given %s",
          p["Radius"].value, start["radius"])
    if not cnr:
        for k, lab, d in (("region_type", "Region Type", "cubic"), ("iterations", "Iterations", 2),
                          ("lower_threshold", "Lower Threshold", 90),
                          ("upper_threshold", "Upper Threshold", 99)):
            v = kw.get(k)
            v = v if v is not None else stored[k] if stored.get(k) is not None else d
            check(p[lab].value == v, "%s starts at %r, expected %r", k, p[lab].value, v)
    par = m.parameters
    for k in names:
        if cnr or p["Region Type"].value in ("cubic", "spherical"):
            check(par[k] == start[k], "%s is %r after opening, given %r", k, par[k], start[k])
    drawn(st_, p, p.fig)
    check(p.fig is not None, "nothing was drawn")
    return st_


def act(op, st_, p, ms, arr):
    kind, nd, cnr = op["op"], st_["nd"], st_["cnr"]
    if kind == "center":
        what = op["what"] if cnr else "Signal"
        w = p["%s Coordinate (%s)" % (AX[op["ax"] % nd], what)]
        v = int(w.min + op["f"] * (w.max - w.min))
        others = {k: x.value for k, x in p.by.items() if x is not w and hasattr(x, "value")}
        fig = event(move, w, v)
        check(w.value == v, "the slider went to %s instead of %s", w.value, v)
        now = {k: x.value for k, x in p.by.items() if x is not w and hasattr(x, "value")}
        check(now == others, "moving a center slider changed %s to %s", others, now)
    elif kind == "radius":
        w = p["Radius"]
        check(w.min <= 1 and w.max >= (min(st_["sh"]) - 2) // 2, "radius slider from %s to %s",
              w.min, w.max)
        v = int(w.min + op["f"] * (w.max - w.min))
        fig = event(move, w, v)
        check(w.value == v, "the slider went to %s instead of %s", w.value, v)
        for what in ("Signal", "Background")[:1 + cnr]:
            limits(p, nd, st_["sh"], what)
    elif kind == "type":
        if cnr:
            return None
        fig = event(move, p["Region Type"], op["t"])
    elif kind == "sliders":
        if cnr:
            return None
        w = p[("Lower Threshold", "Upper Threshold", "Iterations")[op["ax"]]]
        v = int(w.min + op["f"] * (w.max - w.min))
        event(move, w, v)
        check(w.value == v, "the slider went to %s instead of %s", w.value, v)
        return None
    elif kind == "calculate":
        if cnr:
            return None
        lo, hi = p["Lower Threshold"].value, p["Upper Threshold"].value
        it = p["Iterations"].value
        g = np.asarray(st_["gray"])
        if arr[st_["i"]].ndim == 3 and nd == 2:
            return None  # percentiles of the luminance depend on its rounding
        fg = c10.threshold(g, lo, hi)
        if lo >= hi or not fg.any():
            return None
        r, sm = c10.masks(fg, it, "full")
        if r == 0:
            return None
        st_["mask"] = sm[0]
        st_["calc"] = dict(iterations=it, lower_threshold=lo, upper_threshold=hi)
        fig = event(p["Calculate Full Region"].click)
        check(p["Region Type"].value == "full", "region type %r after calculating the full region",
              p["Region Type"].value)
    elif kind == "save":
        event(p["Save Current Values"].click)
        return "save"
    else:  # score with the stored center and radius
        m = ms[st_["m"]]
        par = m.parameters
        a = arr[st_["i"]]
        if a.ndim != nd or par.get("signal_center") is None or len(par["signal_center"]) != nd:
            return None
        names = ("signal_center", "radius") + (("background_center",) if cnr else ())
        kw = {k: par[k] for k in names}
        r = kw["radius"]
        if any(not r <= x <= n - r for k in names if k != "radius"
               for x, n in zip(kw[k], a.shape)):
            return None
        old = dict(par)
        fresh = type(m)(data_range=255)
        want = num(sut(fresh.score, a, **kw))
        close(sut(m.score, a), want, "score with the saved region", 1e-9)
        for k in names:
            check(par[k] == old[k], "scoring changed %s", k)
        return "score"
    if fig is not None:
        drawn(st_, p, fig)
        return "draw"
    return None
