"""The score depends on pixel values only."""
import os
import pathlib

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, check, close, must_raise, num, same_array, scratch_dir, sut
from . import c01, c08

ASSUMPTIONS = ["swapped byte order: both images alike, not doubles for the piq metrics",
               "RGB images scored as luminance are compared for metrics without decision "
               "thresholds (the luminance may round differently for another memory layout)"]
CONT = ["C", "F", "neg", "strided", "T", "imagearray", "imagearray-F", "tensor", "file",
        "path", "tensor-T", "readonly", "memmap", "swapped"]
NOFILE = ("file", "path")


def as_file(a, d, name):
    """write the pixels to a lossless file load_data reads with the same dtype"""
    dt = a.dtype.name
    if a.ndim == 3 and a.shape[-1] != 3:
        bits = {"uint8": "8bit", "uint16": "16ubit", "float32": "32fbit",
                "float64": "64fbit"}.get(dt)
        if bits is None:
            return None
        p = os.path.join(d, "%s_%dx%dx%d_%s.raw" % (name, *a.shape, bits))
        a.transpose(2, 1, 0).astype(a.dtype.newbyteorder("<")).ravel().tofile(p)
        return p
    if dt == "float64":
        import nibabel as nib

        p = os.path.join(d, name + ".nii")
        nib.save(nib.Nifti1Image(a, np.eye(4)), p)
        return p
    if dt in ("uint8", "uint16", "float32"):
        import tifffile

        p = os.path.join(d, name + ".tiff")
        tifffile.imwrite(p, a, photometric="rgb" if a.ndim == 3 else "minisblack")
        return p
    return None


def wrap(a, how, d, name):
    """the same pixels in another container"""
    import torch
    import viqa

    a = np.ascontiguousarray(a)
    if how in gen.LAYOUTS:
        return gen.relayout(a, how)
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "memmap":
        p = os.path.join(d, name + ".bin")
        a.tofile(p)
        return np.memmap(p, a.dtype, "r", shape=a.shape)
    if how == "swapped":
        return a.astype(a.dtype.newbyteorder())
    if how == "imagearray":
        return viqa.ImageArray(a.copy())
    if how == "imagearray-F":
        return viqa.ImageArray(np.asfortranarray(a))
    if how == "tensor":
        return torch.from_numpy(a.copy())
    if how == "tensor-T":
        ax = tuple(reversed(range(a.ndim)))
        return torch.from_numpy(np.ascontiguousarray(a.transpose(ax))).permute(*ax)
    p = as_file(a, d, name)
    if p is None:
        return gen.relayout(a, "F")
    return pathlib.Path(p) if how == "path" else p


@st.composite
def loadcase(draw):
    sh = draw(gen.pick([7, 9], [9, 7], [4, 6, 5], [6, 4, 3], [3, 5, 7], [5, 3], [2, 2], [1, 6],
                       [2, 3, 1]))
    return dict(img=draw(gen.image(st.just(sh), dtypes=("uint8", "uint16", "int16", "int32",
                                                        "float32", "float64", "float16", "int64"))),
                how=draw(gen.pick(*CONT)))


@clause("C12", "load", loadcase, 1500, thorough=40000, shards=2,
        rule="a container other than a C-ordered array")
def load(c):
    """load_data gives an ImageArray with exactly the passed pixels"""
    import viqa

    a = np.ascontiguousarray(gen.mk(c["img"]))
    if c["how"].startswith("tensor") and a.dtype.name == "uint16":
        a = a.astype(np.int32)
    with scratch_dir() as d:
        x = wrap(a, c["how"], d, "img")
        r = sut(viqa.load_data, x)
    check(isinstance(r, viqa.ImageArray), "load_data returned a %s", type(r).__name__)
    check(r.ndim == a.ndim and r.dtype.name == a.dtype.name, "loaded %d-D %s, expected %d-D %s", r.ndim,
          r.dtype, a.ndim, a.dtype)
    same_array(r, a, "image passed as " + c["how"])
    return c["how"] if c["how"] != "C" else False


@st.composite
def scorecase(draw):
    c = draw(c01.case())
    c["h1"] = draw(gen.pick(*CONT))
    c["h2"] = draw(gen.pick(*CONT))
    if "swapped" in (c["h1"], c["h2"]):
        c["h1"] = c["h2"] = "swapped"  # another byte order counts as another type
        if c["img"]["dtype"] == "float64" and c["name"] in ("FSIM", "VSI", "MSSSIM", "VIFp"):
            c["h1"] = c["h2"] = "readonly"  # swapped doubles are scored in single precision
    return c


@clause("C12", "full-reference", scorecase, 900, thorough=24000, shards=8,
        rule="the images differ and a container other than a C-ordered array is used")
def fr(c):
    """the score of C-ordered arrays and of other containers agree"""
    a, b = gen.mk(c["img"], "C"), gen.mod(c["img"], c["d"], "C")
    name = c["name"]
    rgb = a.ndim == 3 and a.shape[-1] == 3
    if (rgb and not c["chromatic"] and name in ("MAD", "GSM", "UQI", "VIFp")):
        return False
    if any(h.startswith("tensor") for h in (c["h1"], c["h2"])) and a.dtype.name == "uint16":
        a, b = a.astype(np.int32), b.astype(np.int32)
    m, k = c01.make(c)
    v = num(sut(m.score, a, b, **k), name)
    m2, k = c01.make(c)
    with scratch_dir() as d:
        x, y = wrap(a, c["h1"], d, "a"), wrap(b, c["h2"], d, "b")
        w = num(sut(m2.score, x, y, **k), name)
    if name == "PSNR" and np.isfinite(v) != np.isfinite(w) and rgb:
        check(min(v, w) > 200, "PSNR: %r and %r", v, w)
        return False
    t = 1e-4 if a.dtype == np.float32 or name in ("FSIM", "VSI", "MSSSIM", "VIFp") else 1e-7
    close(w, v, "%s of %s and %s" % (name, c["h1"], c["h2"]), t, t if name != "RMSE" else
          t * c["img"]["top"])
    return name if not np.array_equal(a, b) and (c["h1"], c["h2"]) != ("C", "C") else False


@st.composite
def nrcase(draw):
    c = draw(c08.case())
    c["h1"] = draw(gen.pick(*CONT))
    c["name"] = draw(gen.pick("CNR", "SNR"))
    return c


@clause("C12", "no-reference", nrcase, 900, thorough=24000, shards=2,
        rule="a container other than a C-ordered array is used")
def nr(c):
    """CNR and SNR of C-ordered arrays and of other containers agree"""
    import viqa

    a = np.ascontiguousarray(gen.mk(c["img"]))
    if c["h1"].startswith("tensor") and a.dtype.name == "uint16":
        a = a.astype(np.int32)
    kw = dict(signal_center=tuple(c["sc"]), radius=c["r"], region_type=c["rt"])
    if c["name"] == "CNR":
        kw["background_center"] = tuple(c["bc"])
    v = num(sut(getattr(viqa, c["name"])().score, a, **kw))
    with scratch_dir() as d:
        w = num(sut(getattr(viqa, c["name"])().score, wrap(a, c["h1"], d, "a"), **kw))
    t = 1e-3 if a.dtype == np.float32 else 1e-8
    close(w, v, "%s of %s" % (c["name"], c["h1"]), t, t)
    return c["h1"] != "C"


@st.composite
def badcase(draw):
    return dict(bad=draw(gen.pick("ndim", "type", "normalize", "batch")),
                sh=draw(gen.pick([], [5], [1], [2, 3, 4, 5], [1, 1, 1, 1], [2, 2, 2, 2, 2])),
                cont=draw(gen.pick("C", "imagearray", "tensor")), k=draw(gen.ints(0, 6)),
                dt=draw(gen.pick("uint8", "float32", "float64")), seed=draw(gen.SEED),
                fn=draw(gen.pick("load", "PSNR", "RMSE", "CNR")))


@clause("C12", "rejection", badcase, 900, thorough=12000, rule="every case")
def rejection(c):
    """wrong dimensions, types and settings are rejected"""
    import viqa

    rng = np.random.default_rng(c["seed"])
    ok = (rng.random((8, 9)) * 200).astype(c["dt"])
    with scratch_dir() as d:
        if c["bad"] == "ndim":
            x = wrap((rng.random(c["sh"]) * 200).astype(c["dt"]).reshape(c["sh"]) if c["sh"] else
                     np.array(3, c["dt"]), "C", d, "x")
            x = x.reshape(c["sh"])
            if c["cont"] != "C":
                x = wrap(x, c["cont"], d, "x").reshape(tuple(c["sh"]))
        elif c["bad"] == "type":
            x = [5, None, 2.5, ok.tolist(), {"img": ok}, (ok, ok), ok.tobytes()][c["k"]]
    if c["bad"] in ("ndim", "type"):
        what = "%s %s" % (c["bad"], c["sh"] if c["bad"] == "ndim" else type(x).__name__)
        exc = ValueError
        if c["fn"] == "load":
            must_raise(exc, "load_data, " + what, viqa.load_data, x)
        elif c["fn"] == "CNR":
            must_raise(exc, "CNR, " + what, viqa.CNR().score, x, signal_center=(3, 3),
                       background_center=(4, 4), radius=1)
        else:
            must_raise(exc, c["fn"] + ", " + what,
                       getattr(viqa, c["fn"])(data_range=255).score, x, x)
    elif c["bad"] == "normalize":
        must_raise(ValueError, "normalize without data_range", viqa.load_data, ok,
                   normalize=True)
    else:
        must_raise(Exception, "batch=True", viqa.load_data, ok, batch=True)
    return c["bad"]
