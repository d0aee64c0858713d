"""Exported results and metadata reproduce the computed values."""
import contextlib
import csv
import io
import math
import os

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, check, must_raise, num, scratch_dir, sut
from . import c12

NAMES = ("PSNR", "RMSE", "SSIM", "UQI", "MSSSIM", "FSIM", "VIFp", "VSI", "GSM", "MAD", "CNR",
         "SNR")
TITLE = {"MSSSIM": "MS-SSIM"}
value = st.one_of(
    st.floats(allow_nan=False, width=64), st.floats(0, 1), gen.pick(math.inf, 0.0, 1.0, 1e-17),
    gen.ints(0, 5))
DR = {n: 255 for n in NAMES}


def read(p, **kw):
    with open(p, newline="") as f:
        return list(csv.reader(f, **kw))


def eq(txt, v):
    """the text reads back as exactly this value"""
    try:
        x = float(txt)
    except ValueError:
        return False
    return x == float(v) or (x != x and v != v)


def listing(d):
    return sorted(os.listdir(d))


@st.composite
def mcase(draw):
    n = draw(gen.ints(1, 5))
    return dict(ms=[[draw(gen.pick(*NAMES)), draw(st.one_of(value, value, value, st.none()))]
                    for _ in range(n)],
                fname=draw(gen.pick("res.csv", "res", "a.b", "my results", "R.CSV", "x.csv.csv",
                                    "res.txt")),
                np_=draw(st.booleans()), old=draw(st.booleans()),
                via=draw(gen.pick("function", "dict", "metric")))


@clause("C18", "metrics", mcase, 2000, thorough=60000, shards=2,
        rule="at least one metric has a score")
def metrics(c):
    """export_results of a list of metrics"""
    import viqa

    ms = []
    for n, v in c["ms"]:
        m = getattr(viqa, n)(data_range=255)
        m.score_val = np.float64(v) if c["np_"] and v is not None else v
        ms.append(m)
    if c["via"] == "metric":
        ms = ms[:1]
    vals = [m.score_val for m in ms]
    pars = [dict(m.parameters) for m in ms]
    want = c["fname"] if c["fname"].lower().endswith(".csv") else c["fname"] + ".csv"
    with scratch_dir() as d:
        if c["old"]:
            with open(os.path.join(d, want), "w") as f:
                f.write("old,content\n" * 50)
        ret = None
        if c["via"] == "metric":
            sut(ms[0].export_results, d, c["fname"])
        elif c["via"] == "dict":
            ret = sut(viqa.export_results, ms, d, c["fname"], return_dict=True)
        else:
            sut(viqa.export_results, ms, d, c["fname"])
        check(listing(d) == [want], "files %s, expected %s", listing(d), want)
        rows = read(os.path.join(d, want))
    check(rows and len(rows[0]) == 2, "header %s", rows[:1])
    scored = [(TITLE.get(type(m).__name__, type(m).__name__), v) for m, v in zip(ms, vals)
              if v is not None]
    body = [r for r in rows[1:] if r[1:] != ["n/a"]]
    check([r[0] for r in body] == [n for n, _ in scored], "exported metrics %s, expected %s",
          [r[0] for r in body], [n for n, _ in scored])
    for r, (n, v) in zip(body, scored):
        check(len(r) == 2 and eq(r[1], v), "exported %s, the score of %s is %r", r, n, v)
    if ret is not None:
        last = dict(scored)
        for n, v in last.items():
            if [x for x, _ in scored].count(n) == 1 and n in ret and not isinstance(ret[n], str):
                check(num(ret[n]) == v, "returned %r for %s, the score is %r", ret[n], n, v)
        for n in last:
            check(n in ret, "returned dictionary lacks %s", n)
    for m, v, p in zip(ms, vals, pars):
        check(m.score_val is v or m.score_val == v, "exporting changed the score to %r", m.score_val)
        check(m.parameters == p, "exporting changed the parameters")
    return bool(scored)


@st.composite
def multicase(draw):
    names = draw(st.lists(gen.pick("PSNR", "RMSE", "UQI", "CNR", "SNR"), min_size=1, max_size=4,
                          unique=True))
    return dict(names=names, seed=draw(gen.SEED), dt=draw(gen.pick("uint8", "float64")),
                proj=draw(gen.pick(None, "proj", "my project")), csv=draw(st.booleans()),
                meta=draw(st.booleans()), text=draw(st.booleans()), old=draw(st.booleans()),
                special=draw(gen.pick(None, None, math.inf, 1e-300, 123456789.123456789, -0.1)),
                pairs=draw(st.lists(st.tuples(gen.ints(0, 2), gen.ints(0, 2)), min_size=1,
                                    max_size=12)),
                fn=draw(gen.pick("a.csv", "b c.csv", "x.y.csv")),
                sep=draw(gen.pick(";", "\t")), calls=draw(gen.pick(1, 2)),
                par=draw(gen.opt(radius=gen.ints(1, 3), note=gen.pick("a, b", "x: y"))),
                bad=draw(gen.pick("a.txt", "a", "a.csv.bak", "a.CSVx")))


def mk_metrics(c):
    import viqa

    ms, ps = [], []
    for n in c["names"]:
        ms.append(getattr(viqa, n)(data_range=255))
        k = {}
        if n in ("CNR", "SNR"):
            k = dict(signal_center=(4, 4), radius=c["par"].get("radius", 2))
        if n == "CNR":
            k["background_center"] = (6, 5)
        ps.append(k)
    return ms, ps


def check_meta(p, ms, ps):
    """the metadata text lists version, metrics and parameters"""
    import importlib.metadata as md

    with open(p) as f:
        lines = [x.strip() for x in f.read().splitlines()]
    check(any(md.version("viqa") in x for x in lines[:2]), "no version in %s", lines[:3])
    at = 0
    for m, k in zip(ms, ps):
        n = type(m).__name__
        check(n in lines[at:], "metric %s is not listed (in order)", n)
        at = lines.index(n, at) + 1
        end = lines.index("", at) if "" in lines[at:] else len(lines)
        blk = lines[at:end]
        for key, v in [("data_range", m.parameters["data_range"])] + list(k.items()):
            check(("%s: %s" % (key, v)).strip() in blk, "%s: parameter %s = %s is not listed in %s", n, key,
                  v, blk)
        at = end


PV = st.one_of(gen.pick(0, 0.0, False, True, None, "", "abc", "a: b", -1, 1e-12, 1e300),
               st.floats(allow_nan=False), gen.ints(-5, 5),
               st.lists(gen.ints(0, 9), max_size=3), st.text("abc XYZ_-.", max_size=6))
KEYS = gen.pick("dim", "im_slice", "c", "p", "alpha", "win_size", "note", "radius", "mode",
                "block_size", "weights", "tuning")


@clause("C18", "metadata", lambda: st.fixed_dictionaries(dict(
    ms=st.lists(st.tuples(gen.pick(*NAMES), st.dictionaries(KEYS, PV, max_size=5)), min_size=1,
                max_size=5),
    dr=gen.pick(1, 255, 65535, 0.5), tup=st.booleans(), via=gen.pick("function", "multiple"),
    fn=gen.pick("m.txt", "a b.txt", None), old=st.booleans())), 1500, thorough=30000,
    rule="a metric has custom parameters")
def metadata(c):
    """every parameter of every metric is listed with its value"""
    import viqa

    ms, ps = [], []
    for n, p in c["ms"]:
        ms.append(getattr(viqa, n)(data_range=c["dr"]))
        ps.append({k: tuple(v) if c["tup"] and isinstance(v, list) else v for k, v in p.items()})
    keep, kp = [dict(p) for p in ps], [dict(m.parameters) for m in ms]
    with scratch_dir() as d:
        a = [d] + ([c["fn"]] if c["fn"] else [])
        fn = c["fn"] or "metadata.txt"
        if c["old"]:
            with open(os.path.join(d, fn), "w") as f:
                f.write("tuning: 5\n" * 200)
        if c["via"] == "function":
            sut(viqa.export_metadata, ms, ps, *a)
        else:
            sut(viqa.MultipleMetrics(ms, ps).export_metadata, *a)
        check(listing(d) == [fn], "files %s, expected %s", listing(d), fn)
        check_meta(os.path.join(d, fn), ms, ps)
        with open(os.path.join(d, fn)) as f:
            n = sum(x.startswith("tuning: ") for x in f)
        check(n == sum("tuning" in p for p in ps), "%d lines for %d parameters", n,
              sum("tuning" in p for p in ps))
    check(ps == keep and [m.parameters for m in ms] == kp, "exporting changed the parameters")
    return any(ps)


@clause("C18", "multiple", multicase, 500, thorough=15000, shards=3,
        rule="a file is exported")
def multiple(c):
    """MultipleMetrics: export_results, export_metadata and report"""
    import viqa

    rng = np.random.default_rng(c["seed"])
    ms, ps = mk_metrics(c)
    mm = viqa.MultipleMetrics(ms, ps)
    a, b = [(rng.random((11, 12)) * 255).astype(c["dt"]) for _ in range(2)]
    sut(mm.calculate, a, b)
    if c["special"] is not None:
        mm.results = dict(mm.results)
        mm.results[list(mm.results)[0]] = c["special"]
    keep = dict(mm.results)
    with scratch_dir() as d:
        pre = "" if c["proj"] is None else c["proj"] + "_"
        files = []
        if c["csv"]:
            files.append(pre + "results.csv")
        if c["meta"]:
            files.append(pre + "metadata.txt")
        if c["old"]:
            for f in files:
                with open(os.path.join(d, f), "w") as h:
                    h.write("old,content,1\n" * 90)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            sut(mm.report, csv=c["csv"], metadata=c["meta"], text=c["text"], image=False,
                file_path=d, project_name=c["proj"])
        check(listing(d) == sorted(files), "report wrote %s, expected %s", listing(d), files)
        if c["text"]:
            check(len(out.getvalue().splitlines()) == len(keep), "report printed %r",
                  out.getvalue()[:200])
        else:
            check(out.getvalue().strip() == "", "report printed %r without text",
                  out.getvalue()[:80])
        paths = [os.path.join(d, pre + "results.csv")] if c["csv"] else []
        sut(mm.export_results, d, c["fn"])
        paths.append(os.path.join(d, c["fn"]))
        for p in paths:
            rows = read(p)
            check(len(rows) == 2, "exported %d rows", len(rows))
            check(rows[0] == list(keep), "exported header %s, results %s", rows[0], list(keep))
            for t, (n, v) in zip(rows[1], keep.items()):
                check(eq(t, v), "exported %s = %s, the result is %r", n, t, v)
            check(len(rows[1]) == len(keep), "exported row %s", rows[1])
        if c["meta"]:
            check_meta(os.path.join(d, pre + "metadata.txt"), ms, ps)
        sut(mm.export_metadata, d, "m.txt")
        check_meta(os.path.join(d, "m.txt"), ms, ps)
        must_raise(ValueError, "export_results to " + c["bad"], mm.export_results, d, c["bad"])
        must_raise(ValueError, "export_metadata to m.csv", mm.export_metadata, d, "m.csv")
    check(mm.results == keep, "exporting changed the results")
    return c["csv"] or c["meta"]


@clause("C18", "batch", multicase, 400, thorough=10000, shards=3,
        rule="more than one pair")
def batch(c):
    """BatchMetrics: one row per pair"""
    import viqa

    rng = np.random.default_rng(c["seed"])
    ms, ps = mk_metrics(c)
    with scratch_dir() as d:
        os.makedirs(os.path.join(d, "img"))
        os.makedirs(os.path.join(d, "out"))
        files = []
        for i in range(3):
            a = (rng.random((11, 12)) * 255).astype(c["dt"])
            files.append(os.path.basename(c12.as_file(a, os.path.join(d, "img"),
                                                      ("im%d", "b, %d", "c d%d")[i] % i)))
        pf = os.path.join(d, "pairs.csv")
        with open(pf, "w") as f:
            f.write(c["sep"].join(["reference_image", "modified_image"]) + "\n")
            for r, m in c["pairs"]:
                f.write(files[r] + c["sep"] + files[m] + "\n")
        b = sut(viqa.BatchMetrics, os.path.join(d, "img"), pf, ms, ps)
        for _ in range(c["calls"]):
            sut(b.calculate)
        keep = {k: dict(v) for k, v in b.results.items()}
        out = os.path.join(d, "out")
        if c["old"]:
            with open(os.path.join(out, c["fn"]), "w") as f:
                f.write("1,2,3,4,5,6,7\n" * 99)
        sut(b.export_results, out, c["fn"])
        check(listing(out) == [c["fn"]], "files %s", listing(out))
        paths = [os.path.join(out, c["fn"])]
        pre = "" if c["proj"] is None else c["proj"] + "_"
        sut(b.report, csv=c["csv"], metadata=c["meta"], image=False, file_path=out,
            project_name=c["proj"])
        want = {c["fn"]} | ({pre + "results.csv"} if c["csv"] else set()) | (
            {pre + "metadata.txt"} if c["meta"] else set())
        check(set(listing(out)) == want, "report wrote %s, expected %s", listing(out), want)
        if c["csv"]:
            paths.append(os.path.join(out, pre + "results.csv"))
        if c["meta"]:
            check_meta(os.path.join(out, pre + "metadata.txt"), ms, ps)
        for p in paths:
            rows = read(p)
            check(len(rows) == len(c["pairs"]) + 1, "%d rows for %d pairs", len(rows),
                  len(c["pairs"]))
            head = rows[0]
            check(head[:3] == ["pair_num", "reference_image", "modified_image"]
                  and head[3:] == list(keep["0"]), "header %s", head)
            for i, ((r, m), row) in enumerate(zip(c["pairs"], rows[1:])):
                check(row[:3] == [str(i), files[r], files[m]], "row %d: %s, expected pair %s",
                      i, row[:3], (files[r], files[m]))
                check(len(row) == len(head) and all(
                    eq(t, v) for t, v in zip(row[3:], keep[str(i)].values())),
                    "row %d: %s, results %s", i, row, keep[str(i)])
        must_raise(ValueError, "export_results to " + c["bad"], b.export_results, out, c["bad"])
        check({k: dict(v) for k, v in b.results.items()} == keep, "exporting changed the results")
    return len(c["pairs"]) > 1
