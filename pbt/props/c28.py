"""Concurrent calls do not influence each other: generated interleavings of threads."""
import contextlib
import io
import os
import sys
import threading
import time
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import Violation, check, clause, num, scratch_dir
from . import c12, c15

ASSUMPTIONS = ["every thread uses metric objects of its own; images and parameters may be shared",
               "the scheduler switches at line boundaries of the Python code; native code runs "
               "undivided (the free-running clause lets it overlap)",
               "figures are not drawn concurrently (matplotlib is not thread safe)"]
LIMIT = 1500  # switches per case; afterwards the threads run one after the other
OTHER = ("load", "normalize", "crop", "statistics", "gabor", "region", "multiple", "batch",
         "export", "fusion")


@st.composite
def task(draw, form, ni):
    t = {"a": draw(gen.ints(0, ni - 1)),
         "d": draw(gen.distortion(["noise", "blur", "shift", "indep", "pixel"]))}
    kind = draw(gen.pick("score", "score", "score", *OTHER[:3 if form == "rgb" else None]))
    t["kind"] = kind
    pool = {"gray": c15.FR + ("CNR", "SNR", "MAD", "MAD", "SSIM"), "rgb": c15.RGB,
            "vol": c15.VOL}[form]

    def metric():
        n, ctor = draw(gen.pick(*pool)), {}
        if form == "rgb" and n not in ("UQI", "GSM", "MAD", "SNR"):
            ctor["chromatic"] = draw(st.booleans())
        if draw(gen.ints(0, 4)) == 0:
            ctor["normalize"] = True
        if draw(gen.ints(0, 4)) == 0:
            ctor["roi"] = c15.ROI[form]
        k = draw(c15.nrkw(n, form) if n in ("CNR", "SNR")
                 else c15.kwargs(n, form, ctor.get("chromatic", False)))
        return [n, ctor, k]

    if kind in ("multiple", "batch", "export", "fusion"):
        t["ms"] = [metric() for _ in range(draw(gen.ints(1, 2)))]
    else:
        t["ms"] = [metric()]
    t["file"] = draw(gen.ints(0, 3)) == 0
    t["n"] = draw(gen.ints(1, 3))
    return t


@st.composite
def threads(draw, free=False):
    form = draw(gen.pick("gray", "gray", "gray", "rgb", "vol"))
    dt = draw(gen.pick("uint8", "uint16", "float64", "float32"))
    slots = [{"shape": draw(gen.pick(*c15.SIZES[form])), "dtype": dt,
              "top": gen.top_of(dt) or 255.0,
              "kind": draw(gen.pick("noise", "smooth", "lowcon", "blocks", "sparse")),
              "seed": draw(gen.SEED), "layout": draw(gen.pick("C", "F", "neg"))}
             for _ in range(draw(gen.ints(1, 3)))]
    n = draw(gen.ints(2, 3))
    ts = [draw(task(form, len(slots))) for _ in range(n)]
    if draw(st.booleans()):  # the same call with other parameters
        ts[1]["kind"] = ts[0]["kind"]
        nm, ct, _ = ts[0]["ms"][0]
        ts[1]["ms"] = [[nm, ct, draw(c15.nrkw(nm, form) if nm in ("CNR", "SNR") else
                                     c15.kwargs(nm, form, ct.get("chromatic", False)))]]
    steps = draw(st.lists(st.tuples(gen.ints(0, 2), gen.pick(1, 1, 2, 3, 5, 8, 13, 25, 60, 150)),
                          min_size=2, max_size=40))
    return dict(form=form, slots=slots, tasks=ts, steps=[list(s) for s in steps])


class Baton:
    """lets one thread run at a time and hands over after a number of lines"""

    def __init__(self, n, steps):
        self.cv = threading.Condition()
        self.alive = set(range(n))
        self.steps, self.pos = steps, -1
        self.turn, self.left = 0, 0
        self.free = False
        self.lines, self.switches = 0, 0
        self.waiting = set()
        self.advance(first=True)

    def advance(self, first=False):
        if not self.alive:
            return
        self.pos = (self.pos + 1) % len(self.steps)
        who, self.left = self.steps[self.pos]
        al = sorted(self.alive)
        new = al[who % len(al)] if first or len(al) == 1 or al[who % len(al)] != self.turn \
            else al[(who + 1) % len(al)]
        if not first and new != self.turn:
            self.switches += 1
        self.turn = new

    def line(self, me):
        if self.free:
            return
        with self.cv:
            self.lines += 1
            self.left -= 1
            if self.turn == me and self.left <= 0 and self.switches < LIMIT:
                self.advance()
                self.cv.notify_all()
            self.wait(me)

    def wait(self, me):
        self.waiting.add(me)
        while not (self.free or self.turn == me):
            self.cv.wait(0.5)
        self.waiting.discard(me)

    def done(self, me):
        with self.cv:
            self.alive.discard(me)
            if self.turn == me or not self.alive:
                self.advance()
            self.cv.notify_all()

    def release(self):
        with self.cv:
            self.free = True
            self.cv.notify_all()


def repo_code():
    import viqa

    return os.path.dirname(os.path.abspath(viqa.__file__)) + os.sep


def interleave(jobs, steps):
    """run the jobs in threads as the schedule says; [(result or exception)], the baton"""
    root = repo_code()
    b = Baton(len(jobs), steps)
    out = [None] * len(jobs)

    def body(i):
        def local(frame, event, arg):
            if event == "line":
                b.line(i)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None

        with b.cv:
            b.wait(i)
        sys.settrace(trace)
        try:
            out[i] = jobs[i]()
        except BaseException as e:  # noqa: BLE001
            out[i] = e
        finally:
            sys.settrace(None)
            b.done(i)

    th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in th:
        t.start()
    last, since, end = -1, time.time(), time.time() + 120
    while any(t.is_alive() for t in th):
        for t in th:
            t.join(0.05)
        if b.lines != last:
            last, since = b.lines, time.time()
        elif time.time() - since > 2:
            b.release()  # a thread waits for something another one holds: let all run
        check(time.time() < end, "the concurrent calls do not come to an end")
    return out, b


def overlap(jobs, rounds):
    """run the jobs in free-running threads that start together"""
    out = [None] * len(jobs)
    bar = threading.Barrier(len(jobs))

    def body(i):
        try:
            bar.wait(30)
            for _ in range(rounds):
                out[i] = jobs[i]()
        except BaseException as e:  # noqa: BLE001
            out[i] = e

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in th:
            t.start()
        for t in th:
            t.join(120)
            check(not t.is_alive(), "the concurrent calls do not come to an end")
    finally:
        sys.setswitchinterval(old)
    return out


def flat(v):
    """a comparable form of a result"""
    if isinstance(v, BaseException):
        return ("raised", type(v).__name__)
    if isinstance(v, dict):
        return tuple((k, flat(x)) for k, x in v.items())
    if isinstance(v, np.ndarray) and v.ndim:
        return (str(v.dtype), v.shape, np.ascontiguousarray(np.asarray(v)).tobytes())
    if isinstance(v, (tuple, list)):
        return tuple(flat(x) for x in v)
    if v is None or isinstance(v, str):
        return v
    return num(v)


def agree(a, b, rtol=1e-6):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(agree(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b) or abs(a - b) <= rtol * (1e-6 + abs(b))
    return a == b


def job(t, c, arrs, mods, paths, d, tag):
    """a callable that does the task with objects of its own"""
    import viqa
    from viqa.fusion import fuse_metrics_linear_combination
    from viqa.utils import crop_image, find_largest_region, gabor_convolve, normalize_data

    s = c["slots"][t["a"]]
    kind = t["kind"]
    x, y = arrs[t["a"]], mods[tag]
    src = paths[t["a"]] if t["file"] and c["form"] != "rgb" else x
    kws = [c15.real(m[2]) for m in t["ms"]]
    sh = s["shape"]

    def mk():
        return [c15.make(m[:2], s) for m in t["ms"]]

    def go(where):
        out = os.path.join(d, "%s%d" % (where, tag))
        os.makedirs(out, exist_ok=True)
        if kind == "load":
            return np.array(viqa.load_data(paths[t["a"]] if c["form"] != "rgb" else x))
        if kind == "normalize":
            return np.array(normalize_data(x, (0, (1, 255, 65535)[t["n"] - 1])))
        if kind == "crop":
            return np.array(crop_image(x, *[(t["n"], n - 1) for n in sh[:3]])) \
                if c["form"] != "rgb" else np.array(crop_image(x, (t["n"], sh[0] - 1), (1, sh[1])))
        if kind == "statistics":
            a = viqa.ImageArray(np.array(x))
            a.calculate_statistics()
            return [num(getattr(a, k)) for k in ("mean_value", "median", "variance", "skewness",
                                                 "kurtosis", "minimum", "maximum")] + [
                np.array(a.histogram[0]), np.array(a.histogram[1])]
        if kind == "gabor":
            z = np.asarray(x if x.ndim == 2 else x[..., 0], float)
            return [np.abs(v) for v in gabor_convolve(z, 2 + t["n"] % 2, t["n"]).ravel()]
        if kind == "region":
            z = np.asarray(x) > np.median(np.asarray(x))
            ce, r, m = find_largest_region(z, iterations=t["n"])
            return [list(map(int, ce)), int(r), np.array(np.ma.getmaskarray(m))]
        ms = mk()
        if kind == "score":
            m = ms[0]
            v = m.score(src, **kws[0]) if m.type == "no-reference" else m.score(src, y, **kws[0])
            return [v, m.score_val]
        mm = viqa.MultipleMetrics(ms, [dict(k) for k in kws])
        if kind == "batch":
            c12.as_file(x, out, "r")
            c12.as_file(y, out, "m")
            names = sorted(os.listdir(out), key=lambda n: n[0], reverse=True)
            rn = [n for n in names if n[0] == "r" and "data" not in n][0]
            mn = [n for n in names if n[0] == "m" and "data" not in n][0]
            with open(os.path.join(out, "pairs.csv"), "w") as f:
                f.write("reference_image,modified_image\n%s,%s\n%s,%s\n" % (rn, mn, rn, rn))
            bm = viqa.BatchMetrics(out, os.path.join(out, "pairs.csv"), ms,
                                   [dict(k) for k in kws])
            return bm.calculate()
        res = mm.calculate(src, y)
        if kind == "fusion":
            for m, k in zip(ms, kws):
                if m.type == "no-reference":
                    return res
            return [res, fuse_metrics_linear_combination(ms, [1.0 + i for i in range(len(ms))])]
        if kind == "export":
            mm.export_results(out, "r.csv")
            with open(os.path.join(out, "r.csv")) as f:
                return [res, f.read()]
        return res

    return go


def play(c, d, how):
    arrs = [gen.mk(s) for s in c["slots"]]
    mods = [gen.mod(c["slots"][t["a"]], t["d"]) for t in c["tasks"]]
    paths = [c12.as_file(gen.mk(s, "C"), d, "s%d" % i) for i, s in enumerate(c["slots"])]
    keep = [np.array(a) for a in arrs + mods]
    jobs = [job(t, c, arrs, mods, paths, d, i) for i, t in enumerate(c["tasks"])]
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        alone = []
        for j in jobs:
            try:
                alone.append(flat(j("alone")))
            except Exception as e:  # noqa: BLE001
                alone.append(flat(e))
        calls = [lambda j=j: j("both") for j in jobs]
        if how == "free":
            got, b = overlap(calls, 2), None
        else:
            got, b = interleave(calls, c["steps"])
    for i, (g, a) in enumerate(zip(got, alone)):
        t = c["tasks"][i]
        f = flat(g)
        check(agree(f, a), "%s %s: %s next to %s, %s alone", t["kind"],
              [m[0] for m in t["ms"]], brief(g, f),
              [(u["kind"], u["ms"][0][0]) for j, u in enumerate(c["tasks"]) if j != i], brief(a, a))
    for x, k in zip(arrs + mods, keep):
        check(np.array_equal(np.asarray(x), k), "an image was modified")
    ok = sum(not (isinstance(a, tuple) and a and a[0] == "raised") for a in alone)
    return b, ok


def brief(v, f):
    if isinstance(v, BaseException):
        return "%s: %s" % (type(v).__name__, str(v)[:80])
    return repr(f)[:120]


@clause("C28", "interleaving", threads, 1200, thorough=30000, shards=8,
        rule="at least two tasks succeed and the threads were switched at least twice")
def interleaving(c):
    """calls in threads that are switched at generated lines equal the calls alone"""
    with scratch_dir() as d:
        b, ok = play(c, d, "steps")
    if ok < 2 or b.switches < 2:
        return False
    return "%s, %d threads%s" % (c["form"], len(c["tasks"]), ", released" if b.free else "")


@clause("C28", "parallel", lambda: threads(True), 250, thorough=6000, shards=8,
        rule="at least two tasks succeed")
def parallel(c):
    """calls in free-running threads equal the calls alone"""
    with scratch_dir() as d:
        _, ok = play(c, d, "free")
    return c["form"] if ok > 1 else False
