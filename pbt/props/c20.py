"""Comparison, printing and fusion of metrics."""
import contextlib
import io
import math
import operator
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, check, must_raise, num, sut

ASSUMPTIONS = ["the title printed by print_score is judged by containing the metric's name"]
NAMES = ("PSNR", "RMSE", "SSIM", "UQI", "MSSSIM", "FSIM", "VIFp", "VSI", "GSM", "MAD", "CNR",
         "SNR")
TITLE = {"MSSSIM": "MS-SSIM"}
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
       ">": operator.gt, ">=": operator.ge}

VALUE = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False, width=64, min_value=-1e6, max_value=1e6),
    st.sampled_from([0.0, -0.0, 1.0, 0.5, 100.0, 37.125, 0.005, 0.015, -2.675, 1e-9, 99.995]),
    st.integers(-1000, 1000),
    st.floats(0, 1),
)
WIDE = st.one_of(VALUE, st.sampled_from(["inf", "-inf", "nan"]))
SCALAR = st.sampled_from(["float", "np64", "np32"])


def val(v, kind="float"):
    v = float(v)
    return {"float": float, "np64": np.float64, "np32": np.float32}[kind](v)


def metric(name, v=None, kind="float"):
    import viqa

    m = sut(getattr(viqa, name), data_range=255)
    if v is not None:
        m.score_val = val(v, kind)
    return m


@clause("C20", "compare", lambda: st.fixed_dictionaries(dict(
    a=gen.pick(*NAMES), b=gen.pick(*NAMES), va=WIDE, vb=WIDE, ka=SCALAR, kb=SCALAR,
    eq=st.booleans(), tiny=st.booleans(), others=st.lists(VALUE, max_size=4))),
    4000, thorough=60000, shards=4, rule="the values are finite and differ, or are equal")
def compare(c):
    """every operator on metric/metric and metric/number is that of the scores"""
    va = val(c["va"], c["ka"])
    vb = va if c["eq"] else val(c["vb"], c["kb"])
    if c["tiny"] and math.isfinite(va):
        vb = np.nextafter(np.float64(va), np.inf)
    a, b = metric(c["a"]), metric(c["b"])
    a.score_val, b.score_val = va, vb
    x, y = float(va), float(vb)
    for s, op in OPS.items():
        want = op(x, y)
        for what, got in (("metric %s metric" % s, sut(op, a, b)),
                          ("metric %s number" % s, sut(op, a, vb)),
                          ("number %s metric" % s, sut(op, float(va), b))):
            check(bool(got) == want, "%s: %r, scores %r and %r of %s and %s", what, got, x, y,
                  c["a"], c["b"])
    ms = [a, b] + [metric(c["b"], v) for v in c["others"]]
    if all(math.isfinite(float(m.score_val)) for m in ms):
        got = [float(m.score_val) for m in sut(sorted, ms)]
        check(got == sorted(float(m.score_val) for m in ms), "sorted metrics: %r", got)
        check(float(sut(max, ms).score_val) == max(got), "max of metrics")
    check(a.score_val is va and (b.score_val is vb), "comparison changed a score")
    return math.isfinite(x) and (x != y or c["eq"])


@clause("C20", "repr", lambda: st.fixed_dictionaries(dict(
    name=gen.pick(*NAMES), v=st.one_of(st.none(), WIDE), kind=SCALAR)),
    1500, thorough=15000, rule="a score is set")
def representation(c):
    """repr names the class and the score"""
    m = metric(c["name"], c["v"], c["kind"])
    for r in (sut(repr, m), sut(str, m)):
        check(c["name"] in r, "repr %r does not name %s", r, c["name"])
        check(str(m.score_val) in r or ("%s" % format(m.score_val)) in r, "repr %r does not show the score %r", r, m.score_val)
    return c["v"] is not None


def printed(fn, *a, **k):
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        r = _call(fn, *a, **k)
    return r, out.getvalue(), [str(x.message) for x in w]


def _call(fn, *a, **k):
    from ..core import Violation

    try:
        return fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        raise Violation("unexpected %s: %s" % (type(e).__name__, e)) from e


def rounded(text, v, d, what):
    """the text shows v rounded to d decimals"""
    try:
        got = float(text)
    except ValueError:
        check(False, "%s: %r is not a number", what, text)
    v = float(v)
    if not math.isfinite(v):
        check(got == v or (math.isnan(v) and math.isnan(got)), "%s: %r for %r", what, text, v)
        return
    ulp = 4 * np.spacing(abs(v))
    check(abs(got - v) <= 0.5 * 10.0 ** -d * (1 + 1e-9) + ulp,
          "%s: %r for %r with %d decimals", what, text, v, d)
    frac = text.strip().split(".")[1] if "." in text and "e" not in text else ""
    check(len(frac.rstrip("0")) <= d, "%s: %r has more than %d decimals", what, text, d)


@clause("C20", "print", lambda: st.fixed_dictionaries(dict(
    name=gen.pick(*NAMES), v=st.one_of(st.none(), VALUE, VALUE, VALUE, gen.pick("inf")),
    d=st.one_of(st.none(), gen.ints(0, 6)), kw=st.booleans())),
    4000, thorough=60000, shards=2, rule="a score is set")
def print_score(c):
    """print_score shows name and rounded score, or reports the missing score"""
    m = metric(c["name"], c["v"])
    before = m.score_val
    args, kw = (), {}
    if c["d"] is not None:
        args, kw = ((), {"decimals": c["d"]}) if c["kw"] else ((c["d"],), {})
    _, out, warned = printed(m.print_score, *args, **kw)
    d = 2 if c["d"] is None else c["d"]
    title = TITLE.get(c["name"], c["name"])
    if c["v"] is None:
        text = out + " ".join(warned)
        check("score" in text.lower() and title in text, "no score: printed %r, warned %r", out,
              warned)
        check(not any(ch.isdigit() for ch in out), "no score, but printed %r", out)
        return False
    check(not warned, "warned %r although a score exists", warned)
    lines = [x for x in out.splitlines() if x.strip()]
    check(len(lines) == 1 and ":" in lines[0], "printed %r", out)
    k, v = lines[0].rsplit(":", 1)
    check(title in k, "printed %r for %s", out, title)
    rounded(v, before, d, "print_score of %s" % c["name"])
    check(m.score_val is before, "print_score changed the score")
    return True


METRICS = ("PSNR", "RMSE", "SSIM", "UQI", "GSM", "SNR", "CNR")


@clause("C20", "print_values", lambda: st.fixed_dictionaries(dict(
    pair=gen.pair_case(st.just((12, 13)), dtypes=("uint8", "float64"), layouts=["C"]),
    names=st.lists(gen.pick(*METRICS), min_size=1, max_size=4, unique=True),
    d=st.one_of(st.none(), gen.ints(0, 6)))),
    700, thorough=8000, shards=4, rule="at least two values were printed")
def print_values(c):
    """every result of MultipleMetrics is printed once with the requested decimals"""
    import viqa

    img, d = c["pair"]["img"], c["pair"]["d"]
    kw = {"SSIM": dict(win_size=5), "UQI": dict(), "SNR": dict(signal_center=(6, 6), radius=3),
          "CNR": dict(signal_center=(4, 4), background_center=(8, 8), radius=3)}
    ms = [getattr(viqa, n)(data_range=gen.data_range(img)) for n in c["names"]]
    mm = sut(viqa.MultipleMetrics, ms, [dict(kw.get(n, {})) for n in c["names"]])
    sut(mm.calculate, gen.mk(img), gen.mod(img, d))
    res = dict(mm.results)
    args = () if c["d"] is None else (c["d"],)
    _, out, _ = printed(mm.print_values, *args)
    dec = 2 if c["d"] is None else c["d"]
    lines = [x for x in out.splitlines() if x.strip()]
    check(len(lines) == len(res), "%d lines printed for %d results: %r", len(lines), len(res), out)
    for line, (k, v) in zip(lines, res.items()):
        name, _, text = line.rpartition(":")
        check(name.strip() == k, "printed %r for %r", line, k)
        rounded(text, num(v), dec, k)
        if math.isfinite(num(v)) and dec:
            check(len(text.strip().split(".")[-1]) == dec, "printed %r with %d decimals", line,
                  dec)
    check(list(mm.results.items()) == list(res.items()) or any(v != v for v in res.values()),
          "print_values changed the results")
    return len(res) > 1


@clause("C20", "fusion", lambda: st.fixed_dictionaries(dict(
    ms=st.lists(st.tuples(gen.pick(*NAMES), VALUE, SCALAR), min_size=1, max_size=6),
    ws=st.lists(VALUE, min_size=7, max_size=7),
    extra=gen.pick(0, 0, 0, 0, 1, -1), wt=gen.pick("list", "tuple", "array"),
    mt=gen.pick("list", "tuple"))),
    3000, thorough=40000, shards=2, rule="at least two metrics with differing weights")
def fusion(c):
    """linear fusion is sum(weight * score); the numbers have to agree"""
    from viqa.fusion import fuse_metrics_linear_combination as fuse

    ms = [metric(n, v, k) for n, v, k in c["ms"]]
    keep = [m.score_val for m in ms]
    ws = [float(w) for w in c["ws"][:len(ms) + c["extra"]]]
    con = {"list": list, "tuple": tuple, "array": np.array}[c["wt"]]
    w, m = con(ws), (list if c["mt"] == "list" else tuple)(ms)
    if c["extra"]:
        must_raise(ValueError, "%d metrics, %d weights" % (len(ms), len(ws)), fuse, m, w)
        return True
    got = num(sut(fuse, m, w), "fusion")
    terms = [float(v) * x for v, x in zip(keep, ws)]
    want = math.fsum(terms)
    tol = 1e-12 * sum(abs(t) for t in terms) + 1e-300
    if any(k == "np32" for _, _, k in c["ms"]):
        tol = 1e-6 * sum(abs(t) for t in terms) + 1e-30
    check(abs(got - want) <= tol, "fusion %r, expected %r for %r with %r", got, want, keep, ws)
    check(all(a.score_val is b for a, b in zip(ms, keep)), "fusion changed a score")
    check([float(x) for x in w] == ws, "fusion changed the weights")
    return len(ms) > 1 and len(set(ws)) > 1
