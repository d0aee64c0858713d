"""Scores are pure: histories of calls against single calls in fresh processes."""
import contextlib
import io

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import Violation, clause, check, in_child, num, scratch_dir
from . import c12

ASSUMPTIONS = ["a forked copy of an interpreter that has imported viqa but never called it "
               "stands for a fresh process", "centers and radius are passed with every call"]

FR = ("PSNR", "RMSE", "SSIM", "UQI", "MSSSIM", "FSIM", "VIFp", "VSI", "GSM", "MAD")
VOL = ("PSNR", "RMSE", "SSIM", "UQI", "GSM", "GSM", "MAD", "MAD", "CNR", "SNR")
RGB = FR + ("SNR", "SSIM", "SSIM", "SNR")
SIZES = {"gray": ([44, 47], [47, 44], [42, 42]),
         "rgb": ([44, 47, 3], [47, 44, 3], [42, 42, 3]),
         "vol": ([13, 14, 12], [14, 12, 13], [12, 12, 12])}
ROI = {"gray": [[0, 42], [0, 41]], "rgb": [[0, 42], [0, 41]], "vol": [[1, 12], [0, 11], [1, 12]]}


@st.composite
def kwargs(draw, name, form="gray", chromatic=False):
    """JSON-able keyword arguments; arrays and dictionaries are marked"""
    k = draw(params(name, form))
    if name == "SSIM" and chromatic:
        k["color_weights"] = {"arr": [draw(gen.pick(0.5, 1.0, 2.0)) for _ in range(3)],
                              "as": "array"}
    if form == "vol" and name in ("GSM", "MAD"):
        k["dim"] = draw(gen.ints(0, 2))
        if draw(gen.ints(0, 3)):
            k["im_slice"] = draw(gen.ints(-5, 9))
    return k


@st.composite
def params(draw, name, form):
    if name == "MAD":
        k = {"block_size": draw(gen.pick(4, 5) if form == "vol" else gen.pick(4, 6, 8))}
        k.update(draw(gen.opt(
            csf_function=st.fixed_dictionaries({"dict": st.fixed_dictionaries(dict(
                lambda_csf=gen.pick(0.08, 0.114, 0.2), f_peak=gen.pick(5.0, 7.8909)))}),
            luminance_function=st.fixed_dictionaries({"dict": st.fixed_dictionaries(dict(
                k=gen.pick(0.02874, 0.05), gamma=gen.pick(1.8, 2.2)))}))))
        if draw(gen.ints(0, 3)) == 0:
            k.update(account_monitor=True, display_function={"dict": {
                "disp_res": draw(gen.pick(24, 32, 48)), "view_dis": draw(gen.pick(40, 60.0))}})
        k.update(draw(gen.opt(
            block_overlap=gen.pick(0, 0.5, 0.75), beta_1=gen.pick(0.2, 0.467),
            scales_num=gen.pick(2, 3), orientations_num=gen.pick(2, 4), ms_scale=gen.pick(1, 2))))
        if "scales_num" in k or draw(st.booleans()):
            k["weights"] = {"arr": [draw(gen.pick(0.5, 1.0, 2.0, 6.0))
                                    for _ in range(k.get("scales_num", 5))],
                            "as": draw(gen.pick("array", "list"))}
        return k
    if name == "GSM":
        return draw(gen.opt(c=gen.pick(50, 200), p=gen.pick(0.05, 0.3)))
    if name == "SSIM":
        return draw(gen.opt(win_size=gen.pick(5, 7), gaussian_weights=st.booleans(),
                            K1=gen.pick(0.01, 0.1), alpha=gen.pick(1, 2), sigma=gen.pick(1.0, 1.5)))
    if name == "MSSSIM":
        k = {"scale_weights": {"arr": draw(gen.pick([0.5, 0.5], [0.3, 0.7], [1.0])),
                               "as": "tensor"}}
        k.update(draw(gen.opt(kernel_size=gen.pick(7, 11), k1=gen.pick(0.01, 0.05))))
        return k
    if name == "FSIM":
        return draw(gen.opt(scales=gen.pick(2, 4), orientations=gen.pick(2, 4),
                            min_length=gen.pick(3, 6)))
    if name == "VIFp":
        return draw(gen.opt(sigma_n_sq=gen.pick(1.0, 3.0)))
    if name == "VSI":
        return draw(gen.opt(c1=gen.pick(1.0, 1.27), omega_0=gen.pick(0.01, 0.021)))
    return {}


@st.composite
def nrkw(draw, name, form="gray"):
    def center():
        if form == "vol":
            return [draw(gen.ints(3, 8)) for _ in range(3)]
        return [draw(gen.ints(9, 30)), draw(gen.ints(9, 30))]

    r = draw(gen.ints(1, 3) if form == "vol" else gen.ints(2, 8))
    k = {"radius": r, "signal_center": center()}
    if form == "rgb" and draw(st.booleans()):
        k["yuv"] = draw(st.booleans())
    if name == "CNR":
        k["background_center"] = center()
    if draw(gen.ints(0, 3)):
        k["region_type"] = draw(gen.pick("cubic", "spherical", "full"))
    if draw(gen.ints(0, 3)) == 0:
        k.update(auto_center=True, iterations=draw(gen.ints(1, 3)))
    return k


@st.composite
def history(draw):
    # image files: few slots, so that one is read again after it was rewritten
    files = draw(gen.ints(0, 4)) == 0
    ni = draw(gen.ints(1, 2) if files else gen.ints(2, 4))
    dt = draw(gen.pick("uint8", "uint8", "uint16", "float64", "float32"))
    top = gen.top_of(dt) or 255.0
    slots = []
    form = draw(gen.pick("gray", "gray", "rgb", "vol"))
    for _ in range(ni):
        slots.append({"shape": draw(gen.pick(*SIZES[form])), "dtype": dt, "top": top,
                      "kind": draw(gen.pick("noise", "noise", "smooth", "lowcon", "blocks",
                                            "blocks", "zero", "sparse")),
                      "seed": draw(gen.SEED), "layout": draw(gen.pick("C", "F", "neg"))})
        if draw(gen.ints(0, 2)) == 0:
            slots[-1]["shape"] = slots[0]["shape"]
    pool = {"gray": FR + ("CNR", "SNR", "MAD", "SSIM"), "rgb": RGB, "vol": VOL}[form]
    names = []
    for _ in range(draw(gen.ints(1, 3))):
        n, ctor = draw(gen.pick(*pool)), {}
        if form == "rgb" and n not in ("UQI", "GSM", "MAD", "SNR"):
            ctor["chromatic"] = draw(st.booleans())
        if draw(gen.ints(0, 4)) == 0:
            ctor["normalize"] = True
        if draw(gen.ints(0, 4)) == 0:
            ctor["roi"] = ROI[form]
        names.append([n, ctor])
    ops = []
    for _ in range(draw(gen.ints(2, 6))):
        kind = draw(gen.pick("score", "score", "score", "score", "refill",
                             *(["refill"] if files else ["bad", "print", "chrom"])))
        op = {"op": kind, "m": draw(gen.ints(0, len(names) - 1)), "a": draw(gen.ints(0, ni - 1)),
              "d": draw(gen.distortion(["noise", "blur", "shift", "indep", "pixel"]))}
        op["file"] = files or draw(gen.ints(0, 5)) == 0
        if kind in ("score", "bad"):
            n, ctor = names[op["m"]]
            op["k"] = draw(nrkw(n, form) if n in ("CNR", "SNR")
                           else kwargs(n, form, ctor.get("chromatic", False)))
            op["alias"] = draw(gen.ints(0, 7)) == 0
            op["bad"] = draw(gen.pick("shape", "dtype", "ndim", "param"))
        if kind == "refill":
            op["seed"] = draw(gen.SEED)
        ops.append(op)
    return dict(slots=slots, names=names, ops=ops, form=form)


def real(k):
    """keyword arguments with arrays"""
    import torch

    out = {}
    for n, v in k.items():
        if isinstance(v, dict) and "dict" in v:
            v = dict(v["dict"])
        elif isinstance(v, dict):
            v = {"array": np.array, "list": list, "tensor": torch.tensor}[v["as"]](v["arr"])
        elif isinstance(v, list):
            v = tuple(v)
        out[n] = v
    return out


def unchanged(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    return agree(simplify(a), simplify(b), 0)


def same(a, b):
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b))


def pair(slot, d):
    return gen.mk(slot), gen.mod(slot, d)


def call(m, slot, d, k, a=None, path=None, alias=False):
    import warnings

    x, y = pair(slot, d)
    if a is not None:
        x = a
    if alias:
        y = x
    kx, ky = np.array(x), np.array(y)
    kw = real(k)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            z = path or x
            v = m.score(z, **kw) if m.type == "no-reference" else m.score(z, y, **kw)
        except Exception as e:  # noqa: BLE001
            v = e
    check(np.array_equal(np.asarray(x), kx) and np.array_equal(np.asarray(y), ky),
          "%s.score modified an image", type(m).__name__)
    check(same(kw, real(k)), "%s.score modified its keyword arguments: %s, passed %s",
          type(m).__name__, kw, k)
    return v


def make(spec, slot):
    import viqa

    name, ctor = spec
    ctor = dict(ctor)
    if "roi" in ctor:
        ctor["roi"] = [tuple(r) for r in ctor["roi"]]
    return getattr(viqa, name)(data_range=gen.data_range(slot), **ctor)


def simplify(v):
    if isinstance(v, Exception):
        return ("raised", type(v).__name__)
    if isinstance(v, (tuple, list)):
        return tuple(num(x) for x in v)
    return num(v)


def single(name, slot, d, k, alias, file):
    """one call in an otherwise unused process"""
    with scratch_dir() as t:
        path = c12.as_file(gen.mk(slot, "C"), t, "s") if file else None
        return simplify(call(make(name, slot), slot, d, k, alias=alias, path=path))


def run(c):
    """the whole history in one process; returns [(op index, slot, value)]"""
    with scratch_dir() as d:
        return run_in(c, d)


def run_in(c, d):
    slots = [dict(s) for s in c["slots"]]
    paths = [c12.as_file(gen.mk(s, "C"), d, "s%d" % i) for i, s in enumerate(slots)]
    bufs = [gen.mk(s) for s in slots]
    ms = [make(n, slots[0]) for n in c["names"]]
    out = []
    for i, op in enumerate(c["ops"]):
        m, s = ms[op["m"]], slots[op["a"]]
        before = [x.score_val for x in ms]
        kind = op["op"]
        if kind == "refill":
            s["seed"] = op["seed"]
            bufs[op["a"]][...] = gen.mk(s)
            c12.as_file(gen.mk(s, "C"), d, "s%d" % op["a"])
            continue
        if kind == "print":
            import warnings

            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m.print_score()
                repr(m)
        elif kind == "chrom":
            # an unrelated RGB call of another instance
            big = dict(s, shape=s["shape"][:2] + [3])
            import viqa

            o = viqa.PSNR(data_range=gen.data_range(s))
            call(o, big, op["d"], {})
        elif kind == "bad":
            bad(m, s, op)
        if kind != "score":
            for x, v in zip(ms, before):
                check(unchanged(x.score_val, v),
                      "score_val of %s changed by %s", type(x).__name__, kind)
            continue
        v = call(m, s, op["d"], op["k"], a=bufs[op["a"]],
                 path=paths[op["a"]] if op["file"] else None, alias=op["alias"])
        for j, (x, w) in enumerate(zip(ms, before)):
            if j != op["m"] or isinstance(v, Exception):
                check(unchanged(x.score_val, w),
                      "score_val of %s changed by scoring with %s", type(x).__name__,
                      type(m).__name__)
        if not isinstance(v, Exception):
            check(agree(simplify(m.score_val), simplify(v), 0),
                  "score_val %r, score %r", m.score_val, v)
        out.append((i, dict(s), simplify(v)))
    return out


def bad(m, s, op):
    """a call that has to fail"""
    x, y = pair(s, op["d"])
    k = real(op["k"])
    b = op["bad"]
    nr = m.type == "no-reference"
    if b != "param" and (m.parameters["roi"] or m.parameters["normalize"]):
        b = "ndim"  # other pairs may fit after cropping and normalizing
    if b == "ndim":
        x, y = x[None, None], y[None, None]
    elif b == "param" or nr:
        if nr:
            k["signal_center"] = (1000,) * x.ndim
            k["auto_center"] = False
        elif type(m).__name__ == "MAD":
            k["block_size"] = 0.5
        elif type(m).__name__ == "SSIM":
            k["win_size"] = 4
        elif m.parameters["roi"]:
            x, y = x[None, None], y[None, None]
        else:
            y = y[:-1]
    elif b == "shape":
        y = y[:, :-1]
    else:
        y = y.astype(np.int64)
    import warnings

    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            m.score(x, **k) if nr else m.score(x, y, **k)
        except Exception:  # noqa: BLE001
            return
    raise Violation("%s accepted a call with wrong %s" % (type(m).__name__, b))


def agree(a, b, tol):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        if a and a[0] == "raised":
            return a == b
        return all(agree(x, y, tol) for x, y in zip(a, b))
    if a != a or b != b:
        return a != a and b != b
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1 + abs(b))


@clause("C15", "history", history, 900, thorough=20000, shards=8,
        rule="at least two score calls in the history")
def purity(c):
    """every call of a history equals the same call in a fresh process"""
    out = in_child(run, c)
    for i, slot, v in out:
        op = c["ops"][i]
        w = in_child(single, c["names"][op["m"]], slot, op["d"], op["k"], op["alias"],
                     op["file"])
        check(agree(v, w, 1e-6),
              "call %d (%s %s): %r in the history, %r alone", i, c["names"][op["m"]], op["k"],
              v, w)
    return c["form"] if len(out) > 1 else False
