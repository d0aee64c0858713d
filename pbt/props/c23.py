"""The command line scripts of src/scripts."""
import contextlib
import csv
import io
import os
import runpy
import sys

from hypothesis import strategies as st
import numpy as np

from .. import core, gen
from ..core import Violation, check, clause, same_array, scratch_dir, sut
from .c11 import RAW, expect, values

ASSUMPTIONS = ["the scripts are run in-process as __main__ with their command line",
               "one dimension token per file name; little-endian files"]
ELEMENT = {"u1": "MET_UCHAR", "u2": "MET_USHORT", "u4": "MET_UINT", "f4": "MET_FLOAT",
           "f8": "MET_DOUBLE"}


def script(name, *args, cwd=None):
    """Run a script; returns the exception it ended with or None."""
    path = os.path.join(core.SRC, "scripts", name)
    argv, old = sys.argv, os.getcwd()
    sys.argv = [path] + [str(a) for a in args]
    if cwd:
        os.chdir(cwd)
    import warnings

    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), \
                contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            runpy.run_path(path, run_name="__main__")
        return None
    except SystemExit as e:
        return e if e.code else None
    except Exception as e:  # noqa: BLE001
        return e
    finally:
        sys.argv = argv
        os.chdir(old)


def ok(name, *args, **k):
    e = script(name, *args, **k)
    if e is not None:
        raise Violation("%s %s ended with %s: %s" % (
            name, " ".join(map(str, args)), type(e).__name__, e)) from e


def fails(name, *args, **k):
    e = script(name, *args, **k)
    check(e is not None, "%s %s was accepted", name, " ".join(map(str, args)))


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        raise Violation("%s was not written; there is %s" % (
            os.path.basename(path), sorted(os.listdir(os.path.dirname(path)))
            if os.path.isdir(os.path.dirname(path)) else "no folder")) from None


def listing(d):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(r, f), d) for f in fs]
    return sorted(out)


SIZE = st.tuples(gen.ints(1, 7), gen.ints(1, 7)).map(list)


FOLDER = gen.pick("", "", "", " [1]", "[a-c]", "*", "?b", "[!x]")  # appended to a folder name


@st.composite
def stack(draw):
    names = draw(st.lists(st.one_of(
        gen.ints(0, 99).map(lambda i: "slice_%03d" % i),
        gen.ints(0, 20).map(lambda i: "s%d" % i),
        st.text("abAB09_- ", min_size=1, max_size=5).map(lambda t: "f" + t + "z")),
        min_size=1, max_size=12, unique=True))
    return dict(names=names, size=draw(SIZE) + [draw(gen.pick(1, 1, 1, 2, 3))],
                bits=draw(gen.pick(*RAW)), seed=draw(gen.SEED),
                order=draw(st.permutations(range(len(names)))), old=draw(st.booleans()),
                tin=draw(gen.pick("raw", "raw", "bin")), tout=draw(gen.pick("raw", "raw", "vol")),
                other=draw(st.booleans()), wrong=draw(gen.ints(0, 9)) == 0,
                nested=draw(st.booleans()), dir=draw(FOLDER))


@clause("C23", "combine", stack, 1200, thorough=20000, shards=3,
        rule="at least two slices were combined")
def combine(c):
    """the stack is the concatenation of the slices in file name order"""
    import viqa

    x, y, z = c["size"]
    n = x * y * z
    parts = {}
    with scratch_dir() as d:
        src, dst = os.path.join(d, "in" + c["dir"]), os.path.join(d, "out", "a") if c["nested"] else \
            os.path.join(d, "out")
        os.makedirs(src)
        if c["old"]:
            os.makedirs(dst)
        for k in c["order"]:
            f = c["names"][k] + "." + c["tin"]
            parts[f] = values(n, RAW[c["bits"]], c["seed"] + k)
            parts[f].tofile(os.path.join(src, f))
        if c["other"]:
            with open(os.path.join(src, "aaa.txt"), "w") as f:
                f.write("no slice")
        args = (src, dst, x, y, z, c["bits"], c["tin"], c["tout"])
        if c["wrong"]:
            fails("combine_stack.py", src, dst, x + 1, y, z, *args[5:])
            check(not listing(d + "/out") if os.path.isdir(d + "/out") else True,
                  "a volume was written for the wrong size")
            return True
        ok("combine_stack.py", *args)
        total = z * len(parts)
        name = "volume_%dx%dx%d_%s.%s" % (x, y, total, c["bits"], c["tout"])
        got = read(os.path.join(dst, name))
        want = b"".join(parts[k].tobytes() for k in sorted(parts))
        check(len(got) == len(want), "%s has %d bytes, expected %d", name, len(got), len(want))
        if got != want:
            dt = np.dtype("<" + RAW[c["bits"]])
            a, b = np.frombuffer(got, dt), np.frombuffer(want, dt)
            i = int(np.flatnonzero((a != b) & ~((a != a) & (b != b)))[0]) if len(a) else 0
            raise Violation("%s: voxel %d (slice %d) is %s, expected %s" % (
                name, i, i // (x * y), a[i], b[i]))
        check(listing(dst) == [name], "files written: %s", listing(dst))
        check(len(listing(src)) == len(parts) + c["other"], "the input folder changed")
        if c["tout"] == "raw":
            flat = np.frombuffer(want, np.dtype("<" + RAW[c["bits"]]))
            same_array(sut(viqa.load_data, os.path.join(dst, name)), expect(flat, [x, y, total]),
                       "load_data of " + name)
    return len(parts) > 1


@st.composite
def cropcase(draw):
    return dict(size=[draw(gen.ints(1, 14)) for _ in range(3)], bits=draw(gen.pick(*RAW)),
                factor=draw(gen.pick(1, 2, 2, 3, 4, 5)), seed=draw(gen.SEED),
                name=draw(gen.pick("scan_%s_%s.raw", "%s_%s.raw", "a_%s_b_%s_c.raw")),
                wrong=draw(gen.ints(0, 9)) == 0, old=draw(st.booleans()))


def volume(flat, size):
    """[z, y, x]"""
    return expect(flat, size).transpose(2, 1, 0)


@clause("C23", "crop", cropcase, 1500, thorough=25000, shards=3,
        rule="the crop holds voxels and the extents differ")
def crop(c):
    """the centred 1/factor part of every axis, named by its dimensions"""
    import viqa

    x, y, z = c["size"]
    flat = values(x * y * z, RAW[c["bits"]], c["seed"])
    f = c["factor"]
    with scratch_dir() as d:
        name = c["name"] % ("%dx%dx%d" % (x, y, z), c["bits"])
        src, dst = os.path.join(d, name), os.path.join(d, "out")
        flat.tofile(src)
        if c["old"]:
            os.makedirs(dst)
        if c["wrong"]:
            fails("crop_image.py", src, dst, x, y, z + 1, c["bits"], 2)
            return True
        args = (src, dst, x, y, z, c["bits"], f)
        if f == 1:
            fails("crop_image.py", *args)
            check(not os.path.isdir(dst) or not listing(dst), "factor 1 wrote a file")
            return True
        ok("crop_image.py", *args)
        vol = volume(flat, c["size"])
        for ax, n in enumerate((z, y, x)):
            half, mid = (n // f) // 2, n // 2
            vol = np.take(vol, np.arange(mid - half, mid + half), axis=ax)
        nz, ny, nx = vol.shape
        out = "crop_" + c["name"] % ("%dx%dx%d" % (nx, ny, nz), c["bits"])
        got = read(os.path.join(dst, out))
        check(got == np.ascontiguousarray(vol).tobytes(), "%s: voxels differ from the centre of "
              "a %s volume, factor %d", out, c["size"], f)
        check(listing(dst) == [out], "files written: %s", listing(dst))
        check(read(src) == flat.tobytes(), "the input file changed")
        if vol.size:
            same_array(sut(viqa.load_data, os.path.join(dst, out)),
                       np.ascontiguousarray(vol.transpose(2, 1, 0)), "load_data of " + out)
    return vol.size > 1 and len(set(c["size"])) > 1


@st.composite
def projcase(draw):
    return dict(size=[draw(gen.ints(1, 8)), draw(gen.ints(1, 8)), draw(gen.ints(1, 20))],
                bits=draw(gen.pick(*RAW)), factor=draw(gen.pick(1, 2, 2, 3, 4, 7, 25)),
                seed=draw(gen.SEED), wrong=draw(gen.ints(0, 9)) == 0,
                where=draw(gen.pick("new", "old", "here", "deep")))


@clause("C23", "reduce", projcase, 1200, thorough=20000, shards=2,
        rule="at least two projections are kept")
def reduce(c):
    """every factor-th projection from the first on, unchanged"""
    x, y, z = c["size"]
    flat = values(x * y * z, RAW[c["bits"]], c["seed"])
    f = c["factor"]
    with scratch_dir() as d:
        src = os.path.join(d, "projections.raw")
        flat.tofile(src)
        out = {"new": "out/p.raw", "old": "old/p.raw", "here": "p.raw", "deep": "a/b/p.raw"}[
            c["where"]]
        if c["where"] == "old":
            os.makedirs(os.path.join(d, "old"))
        full = os.path.join(d, out)
        arg = out if c["where"] == "here" else full
        if c["wrong"]:
            fails("reduce_projections.py", src, arg, x, y, z + 1, c["bits"], 2, cwd=d)
            check(not os.path.exists(full), "a file was written for a wrong size")
            return True
        if f == 1:
            fails("reduce_projections.py", src, arg, x, y, z, c["bits"], 1, cwd=d)
            check(not os.path.exists(full), "factor 1 wrote a file")
            return True
        ok("reduce_projections.py", src, arg, x, y, z, c["bits"], f, cwd=d)
        want = b"".join(flat[i * x * y:(i + 1) * x * y].tobytes() for i in range(0, z, f))
        check(read(full) == want, "projections %s of %d, factor %d, differ", c["size"], z, f)
        check(read(src) == flat.tobytes(), "the input file changed")
    return z > f


STEM = st.text("ab1_", min_size=3, max_size=3)


@st.composite
def pairs(draw):
    stems = draw(st.lists(STEM, min_size=1, max_size=5, unique=True))
    refs = [s + draw(gen.pick(".raw", ".tiff", ".a.b", "", ".png")) for s in stems]
    refs += draw(st.lists(st.text("ab1_", min_size=4, max_size=6).map(lambda t: t + ".raw"),
                          max_size=2, unique=True))
    mods = draw(st.lists(st.builds(
        lambda s, t: s + t, st.one_of(gen.pick(*stems), STEM),
        gen.pick(".raw", "_1.raw", "_2.raw", "x, y.raw", " q.tiff", "", "é.raw", ".b.c")),
        max_size=10, unique=True))
    mods += draw(st.lists(gen.pick("a", "a1", "b.raw", "ab.raw"), max_size=2, unique=True))
    return dict(refs=refs, mods=sorted(set(mods)), copy=draw(gen.pick("", "copy", "copy", "no")),
                old=draw(st.booleans()), pre=draw(st.booleans()), again=draw(st.booleans()),
                dir=draw(FOLDER))


@clause("C23", "pairs", pairs, 1500, thorough=25000, shards=3,
        rule="at least one pair and one file without partner")
def pair_list(c):
    """each modified file is listed with the reference its first three letters name"""
    with scratch_dir() as d:
        r, m, out = (os.path.join(d, k) for k in ("ref" + c["dir"], "mod" + c["dir"], "out/csv"))
        os.makedirs(r)
        os.makedirs(m)
        for f in c["refs"]:
            with open(os.path.join(r, f), "w") as h:
                h.write("reference " + f)
        for f in c["mods"]:
            with open(os.path.join(m, f), "w") as h:
                h.write("modified " + f)
        want = [(a, b) for a in c["refs"] for b in c["mods"] if a.split(".")[0] == b[:3]]
        kept = None
        if c["old"]:
            os.makedirs(os.path.join(out, "images") if c["pre"] else out)
            with open(os.path.join(out, "pairs.csv"), "w") as h:
                h.write("old\n" * 50)
            if c["pre"] and want:
                kept = os.path.join(out, "images", want[0][1])
                with open(kept, "w") as h:
                    h.write("already there")
        args = [m, r, out] + ([c["copy"]] if c["copy"] else [])
        ok("write_to_csv.py", *args)
        if c["again"]:
            ok("write_to_csv.py", *args)
        with open(os.path.join(out, "pairs.csv"), newline="") as h:
            rows = list(csv.reader(h))
        check(rows and rows[0] == ["reference_image", "modified_image"], "header %s", rows[:1])
        got = sorted(tuple(x) for x in rows[1:])
        check(got == sorted(want), "pairs %s, expected %s", got, sorted(want))
        images = os.path.join(out, "images")
        if c["copy"] == "copy":
            files = {}
            for a, b in want:
                files[a] = "reference " + a
            for a, b in want:
                if b in files:
                    files[b] = None  # the same name twice: either is fine
                else:
                    files[b] = "modified " + b
            have = sorted(os.listdir(images))
            check(have == sorted(set(files) | ({os.path.basename(kept)} if kept else set())),
                  "copied %s, expected %s", have, sorted(files))
            for f, txt in files.items():
                t = read(os.path.join(images, f)).decode()
                if kept and f == os.path.basename(kept):
                    txt = "already there"
                check(txt is None or t == txt, "copy of %s holds %r", f, t)
        else:
            check(not os.path.isdir(images) or os.listdir(images) == (
                [os.path.basename(kept)] if kept else []), "files were copied without 'copy'")
        check(sorted(os.listdir(m)) == c["mods"] and sorted(os.listdir(r)) == sorted(c["refs"]),
              "an input folder changed")
    return bool(want) and len({b for _, b in want}) < len(c["mods"])


@st.composite
def mats(draw):
    return dict(vols=[dict(size=[draw(gen.ints(1, 6)) for _ in range(3)],
                           code=draw(gen.pick(*ELEMENT)), seed=draw(gen.SEED),
                           folder=draw(gen.pick("a", "b c", "s1", "x.y")) + str(i))
                      for i in range(draw(gen.ints(1, 3)))],
                name=draw(gen.pick(None, "volume.mhd", "scan.mhd")), dir=draw(FOLDER), func=draw(st.booleans()))


@clause("C23", "mat", mats, 500, thorough=8000, shards=2, rule="every case")
def mat(c):
    """every volume of the folders becomes image.mat, normalized to (0, 1)"""
    import scipy.io as sio

    name = c["name"] or "volume.mhd"
    with scratch_dir() as d0:
        d = os.path.join(d0, "data" + c["dir"])
        os.makedirs(d)
        vols = []
        for v in c["vols"]:
            sub = os.path.join(d, v["folder"])
            os.makedirs(sub)
            n = int(np.prod(v["size"]))
            flat = values(n, v["code"], v["seed"])
            if n < 2 or flat.min() == flat.max():
                v = dict(v, size=[1, 1, 2])
                flat = np.array([3, 9], flat.dtype)
            flat.tofile(os.path.join(sub, "data.raw"))
            with open(os.path.join(sub, name), "w") as f:
                f.write("DimSize = %d %d %d\nElementType = %s\nElementDataFile = data.raw\n" % (
                    *v["size"], ELEMENT[v["code"]]))
            vols.append((sub, expect(flat, v["size"])))
        ok("write_to_mat.py", d, *([c["name"]] if c["name"] else []))
        for sub, img in vols:
            p = os.path.join(sub, "image.mat")
            check(os.path.isfile(p), "no image.mat in %s", os.path.basename(sub))
            got = sio.loadmat(p)["image"]
            x = img.astype(np.float64)
            want = (x - x.min()) / (x.max() - x.min())
            check(got.dtype == np.float32, "stored as %s", got.dtype)
            same_array(got, want, "image.mat", rtol=0, atol=2e-6)
            check(got.min() == 0 and abs(got.max() - 1) < 1e-6, "range %s..%s", got.min(),
                  got.max())
    return True


@clause("C23", "usage", lambda: st.fixed_dictionaries(dict(
    s=gen.pick(("combine_stack.py", 8), ("crop_image.py", 7), ("reduce_projections.py", 7),
               ("write_to_csv.py", 3), ("write_to_mat.py", 1)), n=gen.ints(0, 12))),
    300, thorough=1500, rule="the number of arguments is wrong")
def usage(c):
    """a wrong number of arguments ends with an error code and writes nothing"""
    name, n = c["s"]
    wrong = c["n"] != n if n > 5 else c["n"] < n
    if not wrong:
        return False
    with scratch_dir() as d:
        fails(name, *[os.path.join(d, "x%d" % i) for i in range(c["n"])], cwd=d)
        check(not listing(d), "files written: %s", listing(d))
    return True
