"""Copies and pickles of metrics, collections and images are equivalent and independent."""
import copy
import os
import pickle
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import check, clause, num, scratch_dir, sut
from . import c12, c15, c28, c30

ASSUMPTIONS = ["the statistics of an unpickled ImageArray are those of the original or not set",
               "copy.copy of a metric may share its parameters; deepcopy and pickle may not"]
HOW = ("deepcopy", "copy", "pickle0", "pickle2", "pickle4", "pickle5", "twice")
KINDS = ("score", "multiple", "batch", "export", "fusion")
STATS = ("mean_value", "median", "variance", "standarddev", "skewness", "kurtosis", "minimum",
         "maximum", "histogram")


def clone(x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "twice":
        return pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(x)))))
    return pickle.loads(pickle.dumps(x, int(how[6:])))


@st.composite
def copies(draw):
    c = draw(c28.threads())
    del c["steps"]
    c["tasks"] = c["tasks"][:draw(gen.ints(1, 2))]
    if all(t["kind"] not in KINDS for t in c["tasks"]):
        c["tasks"][0]["kind"] = "score"
    n = len(c["tasks"])
    c["shared"] = False
    c["extra"] = draw(gen.pick("no", "no", "roi", "order"))
    c["how"] = draw(gen.pick(*HOW))
    c["before"] = draw(st.lists(gen.ints(0, n - 1), max_size=2))
    c["after"] = draw(st.lists(st.tuples(st.booleans(), gen.ints(0, n - 1)), min_size=1,
                               max_size=4).map(lambda v: [list(x) for x in v]))
    return c


def state(ms):
    return [(repr(sorted(((k, str(v)) for k, v in m.parameters.items()))),
             None if m.score_val is None else c28.flat(m.score_val)) for m in ms]


@clause("C32", "objects", copies, 500, thorough=12000, shards=8,
        rule="a copied object gave a result")
def objects(c):
    """copied metrics and collections score as new ones, and do not change the original"""
    with scratch_dir() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        arrs = [gen.mk(s) for s in c["slots"]]
        mods = [gen.mod(c["slots"][t["a"]], t["d"]) for t in c["tasks"]]
        paths = [c12.as_file(gen.mk(s, "C"), d, "s%d" % i) for i, s in enumerate(c["slots"])]
        want = [c30.quiet(c30.attempt, c30.Work(c, arrs, mods, paths, d).go, i)
                for i in range(len(c["tasks"]))]
        w = c30.Work(c, arrs, mods, paths, d)
        for i in c["before"]:
            c30.quiet(c30.attempt, w.go, i)
        v = c30.Work(c, arrs, mods, paths, d)
        for i, (ms, box, kws, out) in enumerate(w.objs):
            if box is not None:
                b2 = sut(clone, box, c["how"])
                check(type(b2) is type(box), "a copy (%s) of %s is %s", c["how"],
                      type(box).__name__, type(b2).__name__)
                check(c28.agree(c28.flat(b2.results), c28.flat(box.results)),
                      "a copy (%s) of %s has other results", c["how"], type(box).__name__)
                m2 = list(b2.metrics)
            else:
                b2, m2 = None, [sut(clone, m, c["how"]) for m in ms]
            check([type(m) for m in m2] == [type(m) for m in ms], "a copy (%s) is of another type",
                  c["how"])
            check(c28.agree(tuple(state(m2)), tuple(state(ms))), "a copy (%s) of %s has %s, the "
                  "original %s", c["how"], [m._name for m in ms], state(m2), state(ms))
            check([(m._name, m.type, repr(m)) for m in m2] == [(m._name, m.type, repr(m))
                                                               for m in ms],
                  "a copy (%s) of %s has another name or type", c["how"], [m._name for m in ms])
            v.objs[i] = (m2, b2, kws, out)
        n = 0
        for first, i in c["after"]:
            t = c["tasks"][i]
            if t["kind"] not in KINDS:
                continue
            x, o = (v, w) if first else (w, v)
            keep = state(o.objs[i][0])
            got = c30.quiet(c30.attempt, x.go, i)
            check(c28.agree(got, want[i]), "%s %s of %s (%s): %s instead of %s", t["kind"],
                  [m[0] for m in t["ms"]], "a copy" if first else "an original", c["how"],
                  repr(got)[:150], repr(want[i])[:150])
            if c["how"] != "copy":
                check(c28.agree(tuple(state(o.objs[i][0])), tuple(keep)),
                      "%s of %s changed the %s (%s)", t["kind"], [m[0] for m in t["ms"]],
                      "original" if first else "copy", c["how"])
            n += first and not c30.raised(want[i])
    return "%s, %s" % (c["how"], c["form"]) if n else False


@st.composite
def images(draw):
    shape = draw(st.lists(gen.ints(1, 9), min_size=2, max_size=3))
    return dict(shape=shape, dtype=draw(gen.pick("uint8", "uint16", "float32", "float64")),
                top=255, kind=draw(gen.pick("noise", "smooth", "blocks")), seed=draw(gen.SEED),
                layout=draw(gen.pick(*gen.LAYOUTS)), how=draw(gen.pick(*HOW)),
                stats=draw(st.booleans()), part=draw(gen.pick("", "", "slice", "sum", "file")))


@clause("C32", "images", images, 1500, thorough=40000, shards=4, rule="every case")
def image(c):
    """a copied ImageArray has the same pixels and can be described, without the original"""
    import viqa

    with scratch_dir() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = gen.mk(c)
        if c["part"] == "file":
            p = c12.as_file(gen.mk(c, "C"), d, "v")
            x = sut(viqa.load_data, p) if p else viqa.ImageArray(a)
        else:
            x = viqa.ImageArray(np.array(a))
        if c["stats"]:
            c30.quiet(x.calculate_statistics)
        if c["part"] == "slice":
            x = x[:max(1, x.shape[0] - 1)]
        elif c["part"] == "sum":
            x = x + x
        y = sut(clone, x, c["how"])
        check(type(y) is viqa.ImageArray, "a copy (%s) is a %s", c["how"], type(y).__name__)
        check(y.dtype == x.dtype and np.array_equal(np.asarray(y), np.asarray(x)),
              "a copy (%s) has other pixels", c["how"])
        check(not np.shares_memory(x, y), "a copy (%s) shares its pixels", c["how"])
        for k in STATS:
            old, new = getattr(x, k), sut(getattr, y, k)
            check(isinstance(new, str) or c28.agree(c28.flat(new), c28.flat(old)),
                  "%s of a copy (%s) is %s, of the original %s", k, c["how"], new, old)
            if isinstance(old, str) or "copy" in c["how"]:
                check(isinstance(new, str) == isinstance(old, str),
                      "%s of a copy (%s) is %s, of the original %s", k, c["how"], new, old)
        out = sut(c30.quiet, y.describe)
        check(set(out) == set(c30.quiet(x.describe)), "describe of a copy (%s) gives %s",
              c["how"], sorted(out))
        before = np.array(x), [repr(getattr(x, k)) for k in STATS]
        sut(c30.quiet, y.calculate_statistics)
        z = viqa.ImageArray(np.array(x))
        c30.quiet(z.calculate_statistics)
        for k in STATS:
            check(c28.agree(c28.flat(getattr(y, k)), c28.flat(getattr(z, k))),
                  "%s of a copy (%s) is %s, should be %s", k, c["how"], getattr(y, k),
                  getattr(z, k))
        y += y.dtype.type(1)
        check(np.array_equal(np.asarray(x), before[0]) and before[1] == [
            repr(getattr(x, k)) for k in STATS], "changing a copy (%s) changed the original",
            c["how"])
    return "%s%s" % (c["how"], ", statistics" if c["stats"] else "")
