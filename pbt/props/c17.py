"""BatchMetrics results equal pairwise independent calculation."""
import os
import pathlib
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, check, must_raise, num, scratch_dir, sut
from . import c12, c16

ASSUMPTIONS = ["all images of a batch have one dtype (other pairs are rejected)",
               "MultipleMetrics is checked separately (C16)"]
NAMES = ("PSNR", "RMSE", "CNR", "SNR", "GSM")


@st.composite
def case(draw):
    nd = draw(gen.pick(2, 2, 3))
    base = [draw(gen.ints(9, 12)) for _ in range(nd)]
    shapes = [base, [s + draw(gen.ints(0, 3)) for s in base]]
    long = draw(gen.ints(0, 7)) == 7  # more pairs than digits
    n = draw(gen.ints(4, 9)) if long else draw(gen.ints(2, 4))
    dt = draw(gen.pick("uint8", "uint16", "float64"))
    files = [dict(shape=draw(gen.pick(*(shapes + [base]))), dtype=dt,
                  top=gen.top_of(dt) or 255.0,
                  kind=draw(gen.pick("noise", "smooth")), seed=draw(gen.SEED), layout="C")
             for _ in range(n)]
    if draw(st.booleans()):
        files[1] = dict(files[0], seed=draw(gen.SEED))
    small = [6] * nd
    names = draw(st.lists(gen.pick(*NAMES), min_size=1, max_size=3, unique=True))
    if not {"CNR", "SNR"} & set(names):
        names.append("CNR")
    ms = [[m, draw(c16.one(m, small))] for m in names]
    npairs = draw(gen.ints(9, 14)) if long else draw(gen.ints(1, 6))
    pairs = [[draw(gen.ints(0, n - 1)), draw(gen.ints(0, n - 1))] for _ in range(npairs)]
    for i in range(1, npairs):  # prefer repetitions of the previous pair
        r = draw(gen.pick("", "ref", "mod", "both"))
        if r in ("ref", "both"):
            pairs[i][0] = pairs[i - 1][0]
        if r in ("mod", "both"):
            pairs[i][1] = pairs[i - 1][1]

    def roi():
        out = []
        for s in base:
            a = draw(gen.ints(0, s - 6))
            out.append([a, draw(gen.ints(a + 6, s))])
        return out

    pool = [roi() for _ in range(2)]
    rois = [draw(gen.pick(*pool)) for _ in range(npairs)] if draw(st.booleans()) else None
    calls = []
    for _ in range(draw(gen.pick(1, 1, 2))):
        k = {}
        if draw(gen.ints(0, 3)) == 0:
            k["roi"] = draw(gen.pick(*pool))
        if draw(gen.ints(0, 3)) == 0:
            k["scaling_order"] = draw(gen.pick(0, 2))
        if draw(gen.ints(0, 5)) == 0:
            k.update(normalize=True, data_range=draw(gen.pick(255, 65535)))
        calls.append(k)
    cols = draw(st.permutations(["reference_image", "modified_image"]
                                + draw(st.lists(gen.pick("id", "comment", "roi_no"), unique=True,
                                                max_size=2))))
    return dict(files=files, ms=ms, pairs=pairs, rois=rois, calls=calls, cols=list(cols),
                sep=draw(gen.pick(",", ";", "\t")), nl=draw(gen.pick("\n", "\r\n")),
                last=draw(st.booleans()), dot=draw(gen.pick(None, None, 0, 1, 2)),
                dir=draw(gen.pick("str", "str", "path", "slash")), quote=draw(st.booleans()),
                sub=draw(gen.pick("", "odd", "same")))


def write_pairs(d, c, names):
    rows = [c["sep"].join(c["cols"])]
    for i, (r, m) in enumerate(c["pairs"]):
        pr, pm = names[r], names[m]
        if c.get("dot") is not None and i % 3 == c["dot"]:  # another spelling of the same path
            pr = os.path.join(".", pr)
        com = "text %d" % i
        if c.get("quote"):
            com = '"%s%s more"' % (com, c["sep"])
        v = {"reference_image": pr, "modified_image": pm, "id": str(i * 7),
             "comment": com, "roi_no": "r%d" % (i % 2)}
        rows.append(c["sep"].join(v[k] for k in c["cols"]))
    txt = c["nl"].join(rows) + (c["nl"] if c["last"] else "")
    p = os.path.join(d, "pairs.csv")
    with open(p, "w", newline="") as f:
        f.write(txt)
    return p


def write_files(d, c):
    names = []
    for i, s in enumerate(c["files"]):
        # the same file name in several folders
        sub = {"": "", "odd": "data" if i % 2 else "", "same": "scan%d" % i}[c["sub"]]
        os.makedirs(os.path.join(d, "img", sub), exist_ok=True)
        a = gen.mk(s)
        p = c12.as_file(a, os.path.join(d, "img", sub), "im" if c["sub"] == "same" else "im%d" % i)
        names.append(os.path.relpath(p, os.path.join(d, "img")))
    return names


@clause("C17", "batch", case, 700, thorough=20000, shards=8,
        rule="a pair repeats an image of its predecessor")
def batch(c):
    """every pair of a batch against MultipleMetrics on that pair alone"""
    import viqa

    dr = gen.data_range(c["files"][0])
    with scratch_dir() as d:
        names = write_files(d, c)
        pf = write_pairs(d, c, names)
        ms, ps = c16.make(c["ms"], dr)
        _, keep = c16.make(c["ms"], dr)
        rois = None if c["rois"] is None else [[tuple(x) for x in r] for r in c["rois"]]
        fd = os.path.join(d, "img")
        fd = {"path": pathlib.Path(fd), "slash": fd + os.sep}.get(c.get("dir"), fd)
        b = sut(viqa.BatchMetrics, fd, pf, ms, ps, rois)
        for call in c["calls"]:
            kw = dict(call)
            if "roi" in kw:
                kw["roi"] = [tuple(x) for x in kw["roi"]]

            def calculate():
                with warnings.catch_warnings(record=True) as said:
                    warnings.simplefilter("always")
                    return b.calculate(**kw), list(said)

            res, said = sut(calculate)
            told = [str(w.message) for w in said if issubclass(w.category, UserWarning)]
            both = rois is not None and "roi" in kw
            check(any("rois" in t for t in told) == both,
                  "roi %s with rois %s: the warnings are %s", kw.get("roi"), rois, told[:3])
            check(list(res) == [str(i) for i in range(len(c["pairs"]))],
                  "results of pairs %s, expected %d pairs", list(res), len(c["pairs"]))
            check(b.results is res or b.results == res, "returned results are not stored")
            memo = {}
            for i, (r, m) in enumerate(c["pairs"]):
                roi = kw.get("roi", rois[i] if rois else None)
                key = (r, m, str(roi))
                if key not in memo:
                    k1 = {k: v for k, v in kw.items() if k != "roi"}
                    if roi is not None:
                        k1["roi"] = roi
                    ms1, ps1 = c16.make(c["ms"], dr)
                    memo[key] = sut(viqa.MultipleMetrics(ms1, ps1).calculate,
                                    os.path.join(d, "img", names[r]),
                                    os.path.join(d, "img", names[m]), **k1)
                want = memo[key]
                got = res[str(i)]
                check(list(got) == list(want), "pair %d: metrics %s, expected %s", i, list(got),
                      list(want))
                for n in want:
                    x, y = num(got[n]), num(want[n])
                    check(x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * abs(y),
                          "pair %d (%s, %s, roi %s) of %s: %s is %.12g, alone %.12g", i,
                          names[r], names[m], roi, c["pairs"], n, x, y)
            check(c16.same_params(ps, keep), "parameters modified: %s", ps)
    return any(p[0] == q[0] or p[1] == q[1] for p, q in zip(c["pairs"], c["pairs"][1:]))


@st.composite
def badcase(draw):
    c = draw(case())
    c["bad"] = draw(gen.pick("no ref", "no mod", "rois", "lengths"))
    c["by"] = draw(gen.pick(-1, 1, 2))
    return c


@clause("C17", "rejection", badcase, 300, thorough=4000, rule="every case")
def rejection(c):
    """missing columns and a wrong number of rois are rejected"""
    import viqa

    with scratch_dir() as d:
        rois = None
        if c["bad"] == "no ref":
            c["cols"] = [k if k != "reference_image" else "reference" for k in c["cols"]]
        if c["bad"] == "no mod":
            c["cols"] = [k if k != "modified_image" else "image" for k in c["cols"]]
        c["pairs"] = c["pairs"]
        names = ["a%d.raw" % i for i in range(len(c["files"]))]
        rows = [c["sep"].join(c["cols"])] + [c["sep"].join("x%d" % j for j in range(len(c["cols"])))
                                             for _ in c["pairs"]]
        pf = os.path.join(d, "pairs.csv")
        with open(pf, "w", newline="") as f:
            f.write(c["nl"].join(rows) + c["nl"])
        ms, ps = c16.make(c["ms"], 255)
        if c["bad"] == "rois":
            n = len(c["pairs"]) + c["by"]
            if n < 1:
                return False
            rois = [[(0, 3), (0, 3)]] * n
        if c["bad"] == "lengths":
            ps = ps[1:]
        must_raise(ValueError, c["bad"], viqa.BatchMetrics, d, pf, ms, ps, rois)
        del names
    return c["bad"]
