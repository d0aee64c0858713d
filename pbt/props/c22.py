"""Native block statistics under AddressSanitizer and UBSan, against NumPy."""
import os
import pickle
import select
import struct
import subprocess
import sys
import tempfile

from hypothesis import strategies as st
import numpy as np

from .. import core, gen, ref
from ..asan_worker import build
from ..core import HarnessError, Violation, check, clause

ASSUMPTIONS = [
    "gcc's AddressSanitizer/UBSan report every out-of-bounds access they instrument",
    "within the first half block of rows and columns minstd may report the smaller deviation "
    "of a neighbouring block (minimum search)",
    "complex and extended precision input, block sizes and strides below 1 are left out",
]

SO = None


def prepare():
    global SO
    d = os.path.join(core.scratch_root(), "asan")
    os.makedirs(d, exist_ok=True)
    SO = core.build_ext(d, flags=("-O1", "-g", "-fno-omit-frame-pointer",
                                  "-fsanitize=address,undefined", "-fno-sanitize-recover=all"))


class Worker:
    def __init__(self):
        self.owner = os.getpid()
        self.err = tempfile.TemporaryFile(dir=core.scratch_root())
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                             text=True).stdout.strip()
        env = dict(os.environ, LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:"
                   "allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(core.VERIF, "pbt", "asan_worker.py"), SO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)

    def ask(self, msg, timeout=120):
        data = pickle.dumps(msg)
        try:
            self.p.stdin.write(struct.pack("<Q", len(data)) + data)
            self.p.stdin.flush()
        except BrokenPipeError:
            raise HarnessError("sanitized process ended: " + self.tail()) from None
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            raise Violation("%s %s did not return within %d s" % (msg["fn"], msg["args"], timeout))
        head = self.p.stdout.read(8)
        if len(head) < 8:
            self.p.wait()
            raise Violation("%s(%s, %s): the process died: %s" % (
                msg["fn"], msg["img"], msg["args"], self.tail()))
        return pickle.loads(self.p.stdout.read(struct.unpack("<Q", head)[0]))

    def tail(self):
        self.err.seek(0)
        t = self.err.read().decode(errors="replace")
        lines = [x for x in t.splitlines() if "ERROR" in x or "runtime error" in x
                 or x.strip().startswith(("#0", "#1", "#2")) or "Error" in x]
        return " | ".join(lines[:6])[:600] or t[-300:]


_W = None


def ask(msg):
    global _W
    if _W is None or _W.owner != os.getpid() or _W.p.poll() is not None:
        _W = Worker()
        r = _W.ask({"fn": "minstd", "img": SANE, "args": [4, 2]})
        if "out" not in r:
            raise Violation("minstd rejects a plain array: %s" % r)
    return _W.ask(msg)


SANE = {"shape": [8, 8], "dtype": "<f8", "kind": "noise", "seed": 1, "layout": "C"}
DTYPES = ("<f8", "<f8", "<f8", "<f4", "<f2", "|u1", "|i1", "<u2", "<i2", "<i4", "<u4", "<i8",
          "|b1", ">f8", ">u2", ">i4", ">f4")


@st.composite
def arr(draw, lo=1, hi=40, nan=False):
    return {"shape": draw(gen.grow([draw(gen.ints(lo, hi)), draw(gen.ints(lo, hi))], cap=40000,
                                   n=60)),
            "dtype": draw(gen.pick(*DTYPES)),
            "kind": draw(gen.pick("noise", "noise", "noise", "noise", "noise", "const", "zeros",
                                  "step", "offset", "offset", "scaled", "scaled", "flat", *(["nan"] if nan else []))),
            "seed": draw(gen.SEED), "readonly": draw(st.booleans()), "sub": draw(st.booleans()),
            "layout": draw(gen.pick("C", "F", "neg", "strided", "unaligned", "bcast", "real"))}


@st.composite
def call(draw, nan=False):
    img = draw(arr(nan=nan))
    top = min(img["shape"])
    b = draw(gen.ints(min(2, top), top)) if draw(gen.ints(0, 9)) else 1
    return {"img": img, "fn": draw(gen.pick("minstd", "getstatistics")),
            "args": [b, draw(gen.ints(1, b))]}


def expected(a, block, stride):
    """maps, painted, of the blocks on the grid"""
    return ref.block_maps(a, block, stride, ref.moments)


def judge(c, out, a):
    a = np.asarray(a, np.float64)
    block, stride = c["args"]
    if block < 2 or not np.isfinite(a).all():
        return False
    big = np.abs(a).max() or 1.0
    sd, sk, ku = expected(a, block, stride)
    names = ("standard deviation",) if c["fn"] == "minstd" else (
        "standard deviation", "skewness", "kurtosis")
    for nm, got, want in zip(names, out, (sd, sk, ku)):
        check(got.shape == a.shape, "%s map has shape %s, image %s", nm, got.shape, a.shape)
        if nm == "standard deviation":
            t = 1e-9 * sd + 1e-12 * big
        else:  # an error of the mean counts relative to the deviation
            t = (1e-9 + 1e-11 * big / np.where(sd > 0, sd, np.inf)) * (1 + np.abs(want))
        ok = np.abs(got - want) <= t
        if nm != "standard deviation":
            # shape of rounding noise is arbitrary
            ok |= (sd > 0) & (sd < 1e-12 * big)
        if c["fn"] == "minstd":
            h = -(-(block // 2) // stride) * stride  # cells starting in the first half block
            g, w = got[:h, :h], want[:h, :h]
            near = np.abs(g.reshape(-1, 1) - want.reshape(1, -1)).min(1).reshape(g.shape)
            ok[:h, :h] |= (g <= w + t[:h, :h]) & (near <= 1e-9 * g + 1e-12 * big)
        if not ok.all():
            i = tuple(int(x) for x in np.argwhere(~ok)[0])
            raise Violation("%s %s of a %s image at %s: got %r, expected %r" % (
                c["fn"], nm, a.shape, i, float(got[i]), float(want[i])))
    return bool(sd.max() > 0)


@clause("C22", "sanitized", lambda: call(nan=True), 2400, thorough=60000, shards=6,
        rule="a block of the image is not constant and all values are finite")
def sanitized(c):
    """no memory error, new double arrays, input unchanged, values as NumPy's"""
    r = ask(c)
    check("raised" not in r, "%s%s of %s: unexpected %s: %s", c["fn"], tuple(c["args"]), c["img"],
          r.get("raised"), r.get("text"))
    check(r["tuple"] == (c["fn"] == "getstatistics"), "%s returned a %s", c["fn"],
          "tuple" if r["tuple"] else "single object")
    check(len(r["out"]) == (3 if r["tuple"] else 1), "%d results", len(r["out"]))
    for f in r["facts"]:
        check(f["ndarray"] and f["dtype"] == "float64" and f["writeable"] and not f["shares"],
              "result of %s: %s", c["fn"], f)
    for o in r["out"]:
        check(o.shape == tuple(c["img"]["shape"]), "result of shape %s for %s", o.shape,
              c["img"]["shape"])
    check(r["unchanged"], "%s changed its input", c["fn"])
    return judge(c, r["out"], r["seen"])


@clause("C22", "values", call, 4000, thorough=100000, shards=2,
        rule="a block of the image is not constant")
def values(c):
    """the optimized module against NumPy, repeated calls included"""
    from viqa.fr_metrics.stat_utils import statisticscalc

    a = build(c["img"])
    fn = getattr(statisticscalc, c["fn"])
    r1, r2 = core.sut(fn, a, *c["args"]), core.sut(fn, a, *c["args"])
    o1 = r1 if isinstance(r1, tuple) else (r1,)
    o2 = r2 if isinstance(r2, tuple) else (r2,)
    for p, q in zip(o1, o2):
        core.same_array(p, q, c["fn"] + " repeated")
    return judge(c, o1, a)


BADOBJ = ("list", "none", "float", "bytes", "0d", "1d", "3d", "4d", "str", "object", "noargs",
          "floatarg", "complex")


@st.composite
def odd(draw):
    b = draw(gen.pick(*BADOBJ))
    img = dict(SANE, seed=draw(gen.SEED))
    args = [draw(gen.ints(1, 6)), 1]
    if b in ("list", "none", "float", "bytes"):
        img["obj"] = b
    elif b in ("0d", "1d", "3d", "4d"):
        img["shape"] = [draw(gen.ints(1, 9)) for _ in range(int(b[0]))]
        img["layout"] = "C"
    elif b in ("str", "complex"):
        img["dtype"] = {"str": "<U8", "complex": "<c16"}[b]
    elif b == "noargs":
        args = args[:1]
    elif b == "floatarg":
        args = [4, 2.5]
    elif b == "object":
        args = ["4", 2]
    return {"img": img, "fn": draw(gen.pick("minstd", "getstatistics")), "args": args, "bad": b,
            "leak": draw(gen.pick(0, 0, 20))}


@clause("C22", "rejects", odd, 700, thorough=8000, shards=2,
        rule="every case: wrong objects, dimensions or arguments")
def rejects(c):
    """wrong input raises an exception and leaks nothing"""
    r = ask(c)
    if c["leak"]:
        check(r["grown"] < 8 * r["calls"], "%d rejected calls (%s) leave %d bytes", r["calls"],
              c["bad"], r["grown"])
        check(r["refs"] == 0 or c["img"].get("obj") in ("none", "float"),
              "%d rejected calls (%s) change the reference count by %d", r["calls"], c["bad"],
              r["refs"])
        return True
    check("raised" in r, "%s accepts %s", c["fn"], c["bad"])
    return True


@st.composite
def beyond(draw):
    c = draw(call())
    mode = draw(gen.pick("block", "stride", "empty", "thin"))
    h, w = c["img"]["shape"]
    if mode == "block":
        c["args"] = [max(h, w) + draw(gen.ints(1, 50)), draw(gen.ints(1, 20))]
    elif mode == "stride":
        c["args"] = [c["args"][0], c["args"][0]]
    elif mode == "empty":
        c["img"]["shape"] = draw(gen.pick([0, 5], [5, 0], [0, 0]))
        c["args"] = [draw(gen.ints(1, 4)), 1]
    else:
        b = draw(gen.ints(1, 6))
        c["img"]["shape"] = draw(gen.pick([b, 60], [60, b]))
        c["args"] = [b, draw(gen.ints(1, b))]
    return c


@clause("C22", "extremes", beyond, 600, thorough=10000, shards=2,
        rule="the image is not empty")
def extremes(c):
    """blocks larger than the image, largest strides, empty and thin images stay in bounds"""
    r = ask(c)
    if "raised" in r:
        return False
    for o in r["out"]:
        check(o.shape == tuple(c["img"]["shape"]), "result of shape %s for %s", o.shape,
              c["img"]["shape"])
    h, w = c["img"]["shape"]
    if c["args"][0] > min(h, w):
        for o in r["out"]:
            check(not o.any(), "values although no block fits")
    else:
        judge(c, r["out"], r["seen"])
    return h * w > 0


@clause("C22", "leaks", lambda: st.tuples(call(), gen.ints(10, 40)).map(
    lambda t: dict(t[0], leak=t[1])), 400, thorough=6000, shards=2,
    rule="every case")
def leaks(c):
    """repeated calls leave no memory and no references behind"""
    r = ask(c)
    check(r["grown"] < 8 * r["calls"], "%d calls of %s%s on %s leave %d bytes", r["calls"],
          c["fn"], tuple(c["args"]), c["img"]["shape"], r["grown"])
    check(r["refs"] == 0, "%d calls change the reference count of the image by %d", r["calls"],
          r["refs"])
    return True
