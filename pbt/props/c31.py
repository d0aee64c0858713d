"""Input and output failures are reported: incomplete files, a full disk, no descriptors."""
import contextlib
import gc
import io
import os
import resource
import warnings

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import Violation, check, clause, scratch_dir
from . import c11, c23

ASSUMPTIONS = ["a file is incomplete by its end missing; a file that lost only bytes behind its "
               "pixels may load",
               "the disk is full for every file at the same size (RLIMIT_FSIZE)"]
FORMATS = ("raw", "mhd", "header", "nii", "nii.gz", "png", "tiff", "bmp")


@st.composite
def cuts(draw):
    f = draw(gen.pick(*FORMATS))
    return dict(f=f, d=[draw(gen.ints(2, 9)) for _ in range(3)],
                bits=draw(gen.pick(*c11.RAW)), seed=draw(gen.SEED),
                cut=draw(st.one_of(gen.ints(0, 9999), gen.pick(-1, -2, -3, -4, -8, -16))),
                use=draw(gen.pick("load", "load", "score", "nr", "multi", "batch", "direct")),
                side=draw(gen.ints(0, 1)))


def put(c, d, stem):
    """write a complete file; (what load_data gets, the file that is cut)"""
    dims, seed = c["d"], c["seed"]
    n = int(np.prod(dims))
    f = c["f"]
    if f in ("raw", "mhd", "header"):
        code = c11.RAW[c["bits"]]
        if f != "raw":
            code = {"f2": "f4"}.get(code, code)
        v = c11.values(n, code, seed)
        want = c11.expect(v, dims)
        if f == "raw":
            p = os.path.join(d, "%s_%dx%dx%d_%s.raw" % (stem, *dims, c["bits"]))
            v.tofile(p)
            return p, p, want
        raw, p = os.path.join(d, stem + "_data.raw"), os.path.join(d, stem + ".mhd")
        v.tofile(raw)
        with open(p, "w") as h:
            h.write("ObjectType = Image\nNDims = 3\nDimSize = %d %d %d\nElementType = %s\n"
                    "ElementDataFile = %s_data.raw\n" % (*dims, c23.ELEMENT[code], stem))
        return p, raw if f == "mhd" else p, want
    if f.startswith("nii"):
        import nibabel as nib

        a = c11.values(n, "u2" if seed % 2 else "f8", seed).reshape(dims)
        p = os.path.join(d, stem + "." + f)
        nib.save(nib.Nifti1Image(a, np.eye(4)), p)
        return p, p, None
    a = np.random.default_rng(seed).integers(0, 256, dims[:2] + ([3] if seed % 3 == 0 else []))
    a = a.astype(np.uint8)
    p = os.path.join(d, stem + "." + f)
    if f == "tiff":
        import tifffile

        tifffile.imwrite(p, a)
    else:
        import skimage.io

        skimage.io.imsave(p, a, check_contrast=False)
    return p, p, None


@contextlib.contextmanager
def hushed():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def fds():
    return {f: os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd")
            if os.path.exists("/proc/self/fd/" + f)}


def closed(before, what):
    """all files opened since are closed"""
    left = set(fds().items()) - set(before.items())
    if left:
        gc.collect()
        left = set(fds().items()) - set(before.items())
    check(not left, "%s: files stay open: %s", what, sorted(left))


@clause("C31", "incomplete", cuts, 2500, thorough=60000, shards=4,
        rule="the file lost some of its pixels or header")
def incomplete(c):
    """a file that lost its end raises, or loads to all pixels of the complete file"""
    import viqa
    from viqa.utils import load_mhd, load_nifti, load_raw

    with scratch_dir() as d, hushed():
        p, victim, want = put(c, d, "v")
        q, _, _ = put(dict(c, seed=c["seed"] + 6), d, "w")
        before = fds()
        kept = viqa.load_data(p)  # an image in use holds no file open either
        full = np.array(kept)
        closed(before, os.path.basename(p) + " loaded")
        if want is not None:
            check(np.array_equal(full, want, equal_nan=full.dtype.kind == "f"),
                  "the complete %s file loads to other values", c["f"])
        size = os.path.getsize(victim)
        keep = max(0, size + c["cut"]) if c["cut"] < 0 else c["cut"] % size
        with open(victim, "rb") as h:
            data = h.read()
        os.remove(victim)
        with open(victim, "wb") as h:
            h.write(data[:keep])
        what = "%s cut to %d of %d bytes" % (os.path.basename(victim), keep, size)
        before = fds()
        err = got = None
        gray = full.ndim == 2 or full.shape[-1] != 3
        use = c["use"] if gray else "load"
        pair = [p, q] if c["side"] == 0 else [q, p]
        try:
            if use == "load":
                got = np.array(viqa.load_data(p))
            elif use == "direct":
                if c["f"] == "raw":
                    got = np.array(load_raw(d, os.path.basename(p)))
                elif c["f"] in ("mhd", "header"):
                    got = np.array(load_mhd(d, os.path.basename(p)))
                elif c["f"].startswith("nii"):
                    got = np.array(load_nifti(p))
                else:
                    got = np.array(viqa.load_data(p))
            elif use == "nr":
                m = viqa.SNR(data_range=255)
                viqa_score = m.score(p, region_type="full", signal_center=(0,) * full.ndim,
                                     radius=1)
            else:
                m = viqa.RMSE()
                if use == "score":
                    m.score(*pair)
                elif use == "multi":
                    viqa.MultipleMetrics([m], [{}]).calculate(*pair)
                else:
                    with open(os.path.join(d, "pairs.csv"), "w") as h:
                        h.write("reference_image,modified_image\n%s,%s\n" % tuple(
                            map(os.path.basename, pair)))
                    viqa.BatchMetrics(d, os.path.join(d, "pairs.csv"), [m], [{}]).calculate()
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__
        closed(before, what)
        if got is not None:
            check(got.dtype == full.dtype and got.shape == full.shape and np.array_equal(
                got, full, equal_nan=full.dtype.kind == "f"),
                "%s (%s) loads without an error to other pixels", what, use)
            return False
        if err is None:  # a score: only where the file still loads
            try:
                again = np.array(viqa.load_data(p))
            except Exception as e:  # noqa: BLE001
                raise Violation("%s was scored (%s), load_data raises %s" % (
                    what, use, type(e).__name__)) from e
            check(np.array_equal(again, full, equal_nan=full.dtype.kind == "f"),
                  "%s (%s) is scored without an error", what, use)
            return False
        if use not in ("load", "direct"):
            check(m.score_val is None, "%s: the %s that failed set score_val to %s", what, use,
                  m.score_val)
        # the restored file works again
        with open(victim, "wb") as h:
            h.write(data)
        check(np.array_equal(np.array(viqa.load_data(p)), full,
                             equal_nan=full.dtype.kind == "f"),
              "%s: restored, it loads to other pixels", what)
    return "%s, %s" % (c["f"], err)


OUT = ("results", "metric", "multi", "batch", "metadata", "describe", "image", "2d", "3d", "snr",
       "cnr", "report", "picreport", "multireport", "volimage", "visualize", "combine", "crop", "reduce", "csv", "mat")


@st.composite
def disks(draw):
    return dict(out=draw(gen.pick(*OUT)), seed=draw(gen.SEED), n=draw(gen.ints(1, 5)),
                cut=draw(st.one_of(gen.ints(0, 9999), gen.pick(-1, -2, 0))),
                how=draw(gen.pick("disk", "disk", "disk", "descriptors")))


def outputs(c, d):
    """files to work on; returns the call that writes below a folder"""
    import viqa

    rng = np.random.default_rng(c["seed"])
    n, kind = c["n"], c["out"]
    a = rng.integers(0, 256, (16, 16)).astype(np.uint8)
    b = (a // 2 + 3).astype(np.uint8)
    vol = rng.integers(0, 256, (9, 8, 7)).astype(np.uint8)
    names = ["PSNR", "RMSE", "UQI", "SSIM", "GSM"][:n]
    ms = [getattr(viqa, k)(data_range=255) for k in names]
    if kind in ("results", "metadata", "metric", "image"):
        for m in ms:
            m.score(a, b)
    if kind == "results":
        return lambda o: viqa.export_results(ms, o, "r.csv")
    if kind == "metric":
        return lambda o: ms[0].export_results(o, "r.csv")
    if kind == "metadata":
        return lambda o: viqa.export_metadata(ms, [{}] * n, o, "m.txt")
    if kind in ("multi", "multireport"):
        mm = viqa.MultipleMetrics(ms, [{} for _ in ms])
        mm.calculate(a, b)
        if kind == "multi":
            return lambda o: mm.export_results(o, "r.csv")
        return lambda o: mm.report(
            csv=c["seed"] % 4 < 3, text=c["seed"] % 2 == 0, image=True, file_path=o,
            export_image=True, img_r=a, img_m=b, show_image=False, dpi=20,
            project_name="p" if c["seed"] % 3 else None)
    if kind == "volimage":
        low = (vol // 3 + 1).astype(np.uint8)
        return lambda o: viqa.export_image(
            {"RMSE": 1.0}, vol, low, file_path=o, show_image=False, dpi=20,
            **{"xyz"[c["seed"] % 3]: c["seed"] % 7})
    if kind == "visualize":
        if c["seed"] % 2:
            x = viqa.ImageArray(vol)
            return lambda o: x.visualize((2, 3, 4), os.path.join(o, "f.png"), dpi=20)
        y = viqa.ImageArray(a)
        return lambda o: y.visualize(export_path=os.path.join(o, "f.png"), dpi=20)
    if kind in ("batch", "report", "picreport"):
        import tifffile

        for k in range(n + 1):
            tifffile.imwrite(os.path.join(d, "i%d.tiff" % k), np.roll(a, k, 0))
        with open(os.path.join(d, "pairs.csv"), "w") as h:
            h.write("reference_image,modified_image\n" + "".join(
                "i%d.tiff,i%d.tiff\n" % (k, k + 1) for k in range(n)))
        bm = viqa.BatchMetrics(d, os.path.join(d, "pairs.csv"), ms, [{} for _ in ms])
        bm.calculate()
        if kind == "batch":
            return lambda o: bm.export_results(o, "r.csv")
        return lambda o: bm.report(csv=True, metadata=True, image=kind == "picreport",
                                   file_path=o, **({"dpi": 20} if kind == "picreport" else {}))
    if kind == "describe":
        x = viqa.ImageArray(a)
        x.calculate_statistics()
        return lambda o: x.describe(o, "s.csv")
    if kind == "image":
        res = {m._name: float(m.score_val) for m in ms}
        return lambda o: viqa.export_image(res, a, b, file_path=o, show_image=False, dpi=20)
    if kind == "2d":
        return lambda o: viqa.visualize_2d(a, os.path.join(o, "f.png"), dpi=20)
    if kind == "3d":
        return lambda o: viqa.visualize_3d(vol, (2, 3, 4), os.path.join(o, "f.png"), dpi=20)
    if kind == "snr":
        return lambda o: viqa.SNR(data_range=255).visualize_centers(
            a, signal_center=(8, 7), radius=3, region_type="cubic",
            export_path=os.path.join(o, "f.png"), dpi=20)
    if kind == "cnr":
        return lambda o: viqa.CNR(data_range=255).visualize_centers(
            a, signal_center=(8, 7), background_center=(5, 9), radius=3,
            export_path=os.path.join(o, "f.png"), dpi=20)
    # scripts
    src = os.path.join(d, "in")
    os.makedirs(src)

    def script(name, *args):
        e = c23.script(name, *args)
        if e is not None:
            raise e

    if kind == "combine":
        for k in range(n):
            rng.integers(0, 256, 40).astype(np.uint8).tofile(os.path.join(src, "s%d.raw" % k))
        return lambda o: script("combine_stack.py", src, o, 8, 5, 1, "8bit", "raw", "raw")
    if kind in ("crop", "reduce"):
        p = os.path.join(src, "v_8x6x4_16bit.raw")
        rng.integers(0, 60000, 192).astype("<u2").tofile(p)
        if kind == "crop":
            return lambda o: script("crop_image.py", p, o, 8, 6, 4, "16bit", 2)
        return lambda o: script("reduce_projections.py", p, os.path.join(o, "p.raw"), 8, 6, 4,
                                "16bit", 2)
    if kind == "csv":
        for k in range(n):
            os.makedirs(os.path.join(d, "ref"), exist_ok=True)
            open(os.path.join(d, "ref", "a%02d.raw" % k), "w").close()
            open(os.path.join(src, "a%02d_1.raw" % k), "w").close()
        return lambda o: script("write_to_csv.py", src, os.path.join(d, "ref"), o)
    # mat: the volume lies below the folder it is written to
    raw = rng.integers(0, 256, 210).astype(np.uint8)

    def mat(o):
        f = os.path.join(o, "scan")
        if not os.path.exists(os.path.join(f, "volume.mhd")):
            raise Violation("the volume is gone")
        script("write_to_mat.py", o)

    mat.files = {"scan/volume.raw": raw.tobytes(), "scan/volume.mhd": (
        b"NDims = 3\nDimSize = 7 6 5\nElementType = MET_UCHAR\nElementDataFile = volume.raw\n")}
    return mat


@contextlib.contextmanager
def limit(which, n):
    old = resource.getrlimit(which)
    resource.setrlimit(which, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(which, old)


def contents(o, given):
    out = {}
    for f in c23.listing(o):
        if f not in given:
            with open(os.path.join(o, f), "rb") as h:
                out[f] = h.read()
    return out


def comparable(kind, files):
    """file contents; dates and times apart from their length"""
    if kind in ("metadata", "mat") or kind.endswith("report"):
        return {k: v if k.endswith((".csv", ".png")) else len(v) for k, v in files.items()}
    return files


@clause("C31", "writing", disks, 800, thorough=15000, shards=8,
        rule="the output does not fit on the disk, or no file can be opened")
def writing(c):
    """without room for an output the call raises; with room again the output is complete"""
    import matplotlib.pyplot as plt

    with scratch_dir() as d, hushed():
        fn = outputs(c, d)
        given = getattr(fn, "files", {})

        def folder(name):
            o = os.path.join(d, "out_" + name)
            os.makedirs(o)
            for f, v in given.items():
                os.makedirs(os.path.dirname(os.path.join(o, f)), exist_ok=True)
                with open(os.path.join(o, f), "wb") as h:
                    h.write(v)
            return o

        o = folder("a")
        fn(o)
        plt.close("all")
        want = contents(o, given)
        check(want, "%s wrote nothing", c["out"])
        top = max(len(v) for v in want.values())
        keep = max(0, top + c["cut"]) if c["cut"] < 0 else c["cut"] % (top + 1)
        o = folder("b")
        before = fds()
        err = None
        if c["how"] == "disk":
            what = "%s with room for %d of %d bytes per file" % (c["out"], keep, top)
            lim = limit(resource.RLIMIT_FSIZE, keep)
        else:
            what = "%s without file descriptors" % c["out"]
            lim = limit(resource.RLIMIT_NOFILE, 0)
        try:
            with lim:
                fn(o)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__
        plt.close("all")
        closed(before, what)
        for f, v in given.items():
            with open(os.path.join(o, f), "rb") as h:
                check(h.read() == v, "%s: the input %s changed", what, f)
        if err is None:
            got = contents(o, given)
            check(comparable(c["out"], got) == comparable(c["out"], want),
                  "%s: no error, but %s was written instead of %s", what,
                  {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in want.items()})
            return False
        fits = c["how"] == "disk" and keep >= top
        check(not fits, "%s: %s", what, err)
        fn(o)
        plt.close("all")
        got = contents(o, given)
        check(comparable(c["out"], got) == comparable(c["out"], want),
              "%s: %s; called again with room, it wrote %s instead of %s", what, err,
              {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in want.items()})
    return "%s, %s" % (c["out"], c["how"])
