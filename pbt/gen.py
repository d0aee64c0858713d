"""Generators: every drawn object is a JSON-able dict, mk()/mod() build the arrays."""
import numpy as np
from hypothesis import strategies as st

KINDS = ["noise", "smooth", "blocks", "extreme", "sparse", "ramp", "offset"]
LAYOUTS = ["C", "F", "neg", "strided", "T"]
SEED = st.integers(0, 2**31 - 1)


def ints(a, b):
    return st.integers(a, b)


def pick(*xs):
    return st.sampled_from(list(xs))


def top_of(dtype):
    return {"uint8": 255.0, "uint16": 65535.0, "uint32": 2.0**32 - 1, "int16": 32767.0,
            "int32": 2.0**31 - 1, "int8": 127.0}.get(dtype)


@st.composite
def dtype_top(draw, dtypes=("uint8", "uint16", "float32", "float64")):
    """(dtype, value range, data_range argument)."""
    dt = draw(pick(*dtypes))
    if dt.startswith("float"):
        top = draw(pick(1.0, 255.0, 65535.0, 1.0))
        if dt == "float16":
            top = draw(pick(1.0, 255.0))
    elif dt in ("int64", "uint64"):  # the default integer type of arrays
        top = draw(pick(255.0, 65535.0, 2.0**40))
    else:
        top = top_of(dt)
    return dt, top


@st.composite
def image(draw, shape, dtypes=("uint8", "uint16", "float32", "float64"), kinds=KINDS,
          layouts=LAYOUTS, top=None):
    """shape: tuple or strategy of tuples."""
    if hasattr(shape, "example"):
        shape = draw(shape)
    dt, tp = draw(dtype_top(dtypes))
    return {
        "shape": [int(s) for s in shape], "dtype": dt, "top": top if top else tp,
        "kind": draw(pick(*kinds)), "seed": draw(SEED), "layout": draw(pick(*layouts)),
    }


MODS = ["noise", "blur", "shift", "scale", "pixel", "indep", "invert", "roll"]


@st.composite
def distortion(draw, modes=MODS):
    return {"mode": draw(pick(*modes)), "seed": draw(SEED),
            "amt": draw(pick(0.02, 0.1, 0.4))}


def base(shape, kind, rng):
    """values in [0, 1], float64"""
    shape = tuple(shape)
    nd = len(shape)
    grids = np.meshgrid(*[np.arange(s, dtype=float) for s in shape], indexing="ij")
    if kind == "noise":
        a = rng.random(shape)
    elif kind == "smooth":
        a = np.zeros(shape)
        for _ in range(3):
            k = rng.uniform(0.05, 0.9, nd)
            ph = rng.uniform(0, 6.3)
            a += np.sin(sum(k[i] * grids[i] for i in range(nd)) + ph)
        a += 0.05 * rng.random(shape)
    elif kind == "blocks":
        a = rng.random(shape) * 0.02
        for _ in range(6):
            sl = []
            for s in shape:
                lo = int(rng.integers(0, max(1, s)))
                hi = int(rng.integers(lo, s)) + 1
                sl.append(slice(lo, hi))
            a[tuple(sl)] += rng.random()
    elif kind == "extreme":
        a = (rng.random(shape) < rng.uniform(0.2, 0.8)).astype(float)
    elif kind == "sparse":
        a = np.where(rng.random(shape) < 0.1, rng.random(shape), 0.0)
    elif kind == "ramp":
        k = rng.uniform(-1, 1, nd)
        a = sum(k[i] * grids[i] for i in range(nd)) + 0.01 * rng.random(shape)
    elif kind == "offset":
        a = 0.8 + 0.1 * rng.random(shape)
        a.flat[0], a.flat[-1] = 0.0, 1.0
    elif kind == "lowcon":
        a = np.zeros(shape)
        for _ in range(2):
            k = rng.uniform(0.1, 0.9, nd)
            a += np.sin(sum(k[i] * grids[i] for i in range(nd)) + rng.uniform(0, 6.3))
        return rng.uniform(0.4, 0.8) + rng.choice([0.01, 0.04, 0.08]) * a
    elif kind == "zero":
        return np.zeros(shape)
    elif kind == "const":
        return np.full(shape, rng.random())
    else:
        raise ValueError(kind)
    lo, hi = a.min(), a.max()
    if kind in ("offset", "extreme"):
        return a
    if hi > lo:
        a = (a - lo) / (hi - lo)
        if rng.random() < 0.5:  # use only part of the range
            w = rng.uniform(0.3, 1.0)
            a = a * w + rng.uniform(0, 1 - w)
    else:
        a = np.zeros(shape)
        a.flat[0] = 1.0
    return a


def quant(a, dtype, top):
    a = np.clip(a, 0, 1) * top
    if dtype.startswith("float"):
        return a.astype(dtype)
    if top > 2**31:
        return np.minimum(np.round(a), top).astype(dtype)
    return np.round(a).astype(dtype)


def relayout(a, layout):
    """Same values, other memory layout."""
    if layout == "C":
        return np.ascontiguousarray(a)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "neg":
        rev = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[rev])[rev]
    if layout == "strided":
        big = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
        sl = tuple(slice(1, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if layout == "T":
        ax = tuple(reversed(range(a.ndim)))
        return np.ascontiguousarray(a.transpose(ax)).transpose(ax)
    raise ValueError(layout)


def raw01(spec):
    return base(spec["shape"], spec["kind"], np.random.default_rng(spec["seed"]))


def mk(spec, layout=None):
    a = quant(raw01(spec), spec["dtype"], spec["top"])
    if a.size > 1 and spec["kind"] not in ("const", "zero") and (a == a.flat[0]).all():
        a = a.copy()
        a.flat[-1] = 0 if a.flat[0] else spec["top"]
    return relayout(a, layout or spec["layout"])


def mod(spec, d, layout=None):
    """A distorted version of the image."""
    rng = np.random.default_rng(d["seed"])
    a = raw01(spec)
    m, amt = d["mode"], d["amt"]
    if m == "same":
        return mk(spec, layout)
    if m == "noise":
        b = a + rng.normal(0, amt, a.shape)
    elif m == "blur":
        b = a.copy()
        for ax in range(min(a.ndim, 2) if a.shape[-1] == 3 else a.ndim):
            b = (np.roll(b, 1, ax) + 2 * b + np.roll(b, -1, ax)) / 4
    elif m == "shift":
        b = a + amt
    elif m == "scale":
        b = a * (1 - amt)
    elif m == "invert":
        b = 1 - a
    elif m == "roll":
        b = np.roll(a, 1, axis=0)
    elif m == "pixel":
        b = a.copy()
        i = int(rng.integers(0, b.size))
        b.flat[i] = 1.0 - b.flat[i] if abs(b.flat[i] - 0.5) > 0.1 else 0.0
    elif m == "tiny":
        # one pixel or all of them changed by (nearly) the least amount that counts
        q = quant(a, spec["dtype"], spec["top"])
        one = rng.random() < 0.5
        sel = rng.integers(0, q.size) if one else slice(None)
        fl = q.reshape(-1).copy()
        if spec["dtype"].startswith("float"):
            e = {"float16": 2e-3, "float32": 1e-6, "float64": 1e-9}[spec["dtype"]]
            e = fl.dtype.type(e * spec["top"])
            fl[sel] = np.where(fl[sel] > spec["top"] / 2, fl[sel] - e, fl[sel] + e)
        else:
            t = fl.dtype.type(spec["top"])
            fl[sel] = np.where(fl[sel] == t, fl[sel] - (fl[sel] == t), fl[sel] + (fl[sel] != t))
        return relayout(fl.reshape(q.shape), layout or spec["layout"])
    elif m == "indep":
        b = base(spec["shape"], KINDS[int(rng.integers(0, 3))], rng)
    else:
        raise ValueError(m)
    return relayout(quant(b, spec["dtype"], spec["top"]), layout or spec["layout"])


def data_range(spec):
    t = spec["top"]
    return int(t)


def number(spec, v):
    """the number as Python or numpy scalar (as e.g. img.max() gives it), chosen by the seed"""
    k = spec["seed"] % 6
    if k < 2 or v != int(v):
        return v
    if k == 2:
        return float(v)
    if k == 3:
        return np.int64(v)
    if k == 4:
        return np.float64(v)
    return np.min_scalar_type(int(v)).type(int(v))


@st.composite
def shape2(draw, lo, hi):
    return (draw(ints(lo, hi)), draw(ints(lo, hi)))


@st.composite
def shape3(draw, lo, hi):
    return (draw(ints(lo, hi)), draw(ints(lo, hi)), draw(ints(lo, hi)))


@st.composite
def grow(draw, sh, cap=60000, n=40, top=1100):
    """now and then a much larger shape (extents beyond 8 bits, pixel counts beyond 16 bits)"""
    sh = [int(s) for s in sh]
    if draw(ints(0, n - 1)) != n - 1:
        return sh
    ax = draw(ints(0, len(sh)))
    if ax < len(sh):  # one long axis
        room = max(1, cap // max(1, int(np.prod(sh)) // sh[ax]))
        hi = min(top, room)
        if hi > sh[ax]:
            sh[ax] = draw(ints(max(sh[ax], int(0.6 * hi)), hi))
    else:
        side = int(cap ** (1 / len(sh)))
        sh = [draw(ints(max(s, int(0.7 * side)), max(s, side))) for s in sh]
    return sh


LUMA = (0.2125, 0.7154, 0.0721)


def gray_ref(rgb):
    """Luminance of an RGB image in double precision."""
    r = np.asarray(rgb, dtype=np.float64)
    return LUMA[0] * r[..., 0] + LUMA[1] * r[..., 1] + LUMA[2] * r[..., 2]


def pair_case(shape, dtypes=("uint8", "uint16", "float32", "float64"), kinds=KINDS,
              layouts=LAYOUTS, modes=MODS, **extra):
    """dict(img=, d=, **extra)"""
    return st.fixed_dictionaries(dict(
        img=image(shape, dtypes=dtypes, kinds=kinds, layouts=layouts),
        d=distortion(modes), **extra))


def opt(**kw):
    """dict with a random subset of the given optional keys"""
    return st.fixed_dictionaries({}, optional=kw)
