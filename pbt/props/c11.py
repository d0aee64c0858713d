"""Image files load to exactly the stored pixels."""
import os
import pathlib

from hypothesis import strategies as st
import numpy as np

from .. import gen
from ..core import clause, check, must_raise, same_array, scratch_dir, sut

ASSUMPTIONS = ["files are written by the check in little-endian byte order",
               "the file name holds one dimension and one bit depth token",
               "sizes differ by whole elements"]
RAW = {"8ubit": "u1", "8bit": "u1", "16ubit": "u2", "16bit": "u2", "32ubit": "u4",
       "32bit": "u4", "16fbit": "f2", "32fbit": "f4", "64fbit": "f8"}
MET = {"MET_UCHAR": "u1", "MET_USHORT": "u2", "MET_UINT": "u4", "MET_FLOAT": "f4",
       "MET_DOUBLE": "f8"}
EXTRA = ["ObjectType = Image", "NDims = 3", "BinaryData = True", "CompressedData = False",
         "ElementSpacing = 0.5 0.25 2", "Offset = 0 0 0", "AnatomicalOrientation = RAI",
         "CenterOfRotation = 1.5 2 3"]
MSB = ["BinaryDataByteOrderMSB = %s", "ElementByteOrderMSB = %s"]
dims = st.tuples(gen.ints(1, 13), gen.ints(1, 13), gen.ints(1, 13)).flatmap(
    lambda d: gen.grow(d, cap=150000))


def values(n, code, seed):
    """n values of the whole domain of the type"""
    rng = np.random.default_rng(seed)
    dt = np.dtype("<" + code)
    if code[0] == "f":
        v = rng.normal(0, 1, n) * 10.0 ** rng.integers(-3, 4, n)
        return v.astype(dt)
    return rng.integers(0, 2 ** (8 * dt.itemsize), n, dtype=np.uint64).astype(dt)


def expect(flat, d):
    x, y, z = np.meshgrid(*[np.arange(n) for n in d], indexing="ij")
    return flat[x + d[0] * (y + d[1] * z)]


def as_path(d, name, how):
    p = os.path.join(d, name)
    return pathlib.Path(p) if how == "path" else p


def load(d, name, how):
    import viqa

    if how == "relative":
        cwd = os.getcwd()
        os.chdir(d)
        try:
            return sut(viqa.load_data, name)
        finally:
            os.chdir(cwd)
    return sut(viqa.load_data, as_path(d, name, how))


HOW = gen.pick("str", "path", "relative")


def judge(img, want, what):
    import viqa

    check(isinstance(img, viqa.ImageArray), "%s: got a %s", what, type(img).__name__)
    check(img.dtype == want.dtype, "%s: dtype %s, expected %s", what, img.dtype, want.dtype)
    same_array(img, want, what)


@st.composite
def rawcase(draw):
    return dict(d=draw(dims), bits=draw(gen.pick(*RAW)), seed=draw(gen.SEED),
                pre=draw(gen.pick("", "img", "scan3", "a.b", "Probe x", "box", "rot90_ab", "xx")),
                mid=draw(gen.pick("", "_obj", "_v2", " s", "-x", "_fbit")),
                end=draw(gen.pick("", "_final", "_2", ".x", " bit")),
                sep=draw(gen.pick("_", "-", " ", "__", "_x_")),
                swap=draw(st.booleans()), how=draw(HOW))


def rawname(c):
    a, b = "x".join(map(str, c["d"])), c["bits"]
    if c["swap"]:
        a, b = b, a
    parts = [c["pre"], a + c["mid"], b + c["end"]]
    return c["sep"].join(p for p in parts if p) + ".raw"


@clause("C11", "raw", rawcase, 3500, thorough=120000, shards=3,
        rule="all three extents differ or the volume has more than one voxel")
def raw(c):
    """.raw volumes: values, orientation and type from the file name"""
    flat = values(int(np.prod(c["d"])), RAW[c["bits"]], c["seed"])
    with scratch_dir() as d:
        name = rawname(c)
        flat.tofile(os.path.join(d, name))
        img = load(d, name, c["how"])
        judge(img, expect(flat, c["d"]), name)
        from viqa.utils import load_raw

        same_array(sut(load_raw, d, name), expect(flat, c["d"]), "load_raw " + name)
        # another volume under the same name, after changing the loaded array
        img[...] = 0
        flat = values(int(np.prod(c["d"])), RAW[c["bits"]], c["seed"] + 1)
        flat.tofile(os.path.join(d, name))
        judge(load(d, name, c["how"]), expect(flat, c["d"]), name + " written again")
    return flat.size > 1


@st.composite
def mhdcase(draw):
    order = draw(gen.pick(None, None, False, False, True))
    lines = draw(st.permutations(
        ["DimSize", "ElementType", "ElementDataFile"]
        + draw(st.lists(gen.pick(*EXTRA), unique=True, max_size=5))
        + ([] if order is None else [draw(gen.pick(*MSB)) % order])))
    return dict(d=draw(dims), met=draw(gen.pick(*MET)), seed=draw(gen.SEED),
                lines=list(lines), nl=draw(gen.pick("\n", "\r\n")), last=draw(st.booleans()),
                blank=draw(gen.pick(-1, -1, 0, 2)), how=draw(HOW),
                data=draw(gen.pick("data.raw", "img 1.raw", "vol.bin", "sub/data.raw",
                                   "d_9x9x9_8bit.raw")),
                name=draw(gen.pick("img.mhd", "a_3x3x3_16bit.mhd", "x.y.mhd")))


def write_mhd(d, c, flat, drop=None, dim=None, met=None):
    os.makedirs(os.path.dirname(os.path.join(d, c["data"])), exist_ok=True)
    big = any(ln.endswith("MSB = True") for ln in c["lines"])
    flat.astype(flat.dtype.newbyteorder(">" if big else "<")).tofile(os.path.join(d, c["data"]))
    val = {"DimSize": "%d %d %d" % tuple(dim or c["d"]), "ElementType": met or c["met"],
           "ElementDataFile": c["data"]}
    out = ["%s = %s" % (k, val[k]) if k in val else k for k in c["lines"] if k != drop]
    if c["blank"] >= 0:
        out.insert(c["blank"], "")
    txt = c["nl"].join(out) + (c["nl"] if c["last"] else "")
    with open(os.path.join(d, c["name"]), "w", newline="") as f:
        f.write(txt)


@clause("C11", "mhd", mhdcase, 3500, thorough=120000, shards=3,
        rule="the volume has more than one voxel")
def mhd(c):
    """.mhd headers: any line order, line ends and data file"""
    flat = values(int(np.prod(c["d"])), MET[c["met"]], c["seed"])
    with scratch_dir() as d:
        write_mhd(d, c, flat)
        judge(load(d, c["name"], c["how"]), expect(flat, c["d"]), c["name"])
        from viqa.utils import load_mhd

        same_array(sut(load_mhd, d, c["name"]), expect(flat, c["d"]), "load_mhd")
        flat = values(int(np.prod(c["d"])), MET[c["met"]], c["seed"] + 1)
        write_mhd(d, c, flat)
        judge(load(d, c["name"], c["how"]), expect(flat, c["d"]), c["name"] + " written again")
    return flat.size > 1


@st.composite
def niicase(draw):
    nd = draw(gen.pick(2, 3, 3))
    return dict(d=draw(gen.grow([draw(gen.ints(2, 9)) for _ in range(nd)], cap=100000)), ext=draw(gen.pick(".nii", ".nii.gz")),
                dt=draw(gen.pick("u1", "i2", "u2", "f4", "f8")), seed=draw(gen.SEED),
                how=draw(HOW), sc=draw(gen.pick(None, None, (2.0, 5.0))))


@clause("C11", "nifti", niicase, 700, thorough=20000, shards=2, rule="every case")
def nifti(c):
    """NIfTI files, plain and compressed, with and without scaling"""
    import nibabel as nib

    flat = values(int(np.prod(c["d"])), c["dt"] if c["dt"][0] != "i" else "u1", c["seed"])
    a = flat.astype(c["dt"]).reshape(c["d"])
    im = nib.Nifti1Image(a, np.eye(4))
    want = a.astype(np.float64)
    if c["sc"] and c["dt"][0] != "f":
        im.header.set_slope_inter(*c["sc"])
        # the stored array is rescaled by nibabel so that reading gives the values back
    with scratch_dir() as d:
        nib.save(im, os.path.join(d, "vol" + c["ext"]))
        want = np.asarray(nib.load(os.path.join(d, "vol" + c["ext"])).dataobj, np.float64)
        img = load(d, "vol" + c["ext"], c["how"])
        judge(img, want, "NIfTI file")
        if not c["sc"]:
            same_array(img, a.astype(np.float64), "NIfTI file")
    return c["ext"]


@st.composite
def piccase(draw):
    ext = draw(gen.pick(".png", ".bmp", ".tiff", ".png", ".tiff", ".jpg", ".jpeg"))
    form = draw(gen.pick("gray", "rgb", "vol") if ext == ".tiff" else gen.pick("gray", "rgb"))
    dts = {".bmp": ["uint8"], ".jpg": ["uint8"], ".jpeg": ["uint8"], ".png": ["uint8", "uint16"] if form == "gray" else ["uint8"],
           ".tiff": ["uint8", "uint16", "float32"]}[ext]
    sh = draw(gen.grow([draw(gen.ints(5, 14)), draw(gen.ints(5, 14))]))
    if form == "rgb":
        sh.append(3)
    if form == "vol":
        sh.append(draw(gen.ints(5, 9)))
    elif draw(gen.ints(0, 5)) == 0:  # a single row or column
        sh[draw(gen.ints(0, 1))] = 1
    return dict(img=draw(gen.image(st.just(sh), dtypes=dts)), ext=ext, form=form, how=draw(HOW))


@clause("C11", "pictures", piccase, 700, thorough=20000, shards=2, rule="every case")
def pictures(c):
    """PNG, BMP and TIFF files round-trip, JPEG files load as decoded"""
    a = np.ascontiguousarray(gen.mk(c["img"]))
    with scratch_dir() as d:
        p = os.path.join(d, "p" + c["ext"])
        if c["ext"] == ".tiff":
            import tifffile

            tifffile.imwrite(p, a, photometric="rgb" if c["form"] == "rgb" else "minisblack")
        else:
            from PIL import Image

            Image.fromarray(a).save(p)
            if c["ext"].startswith(".j"):  # lossy: what the decoder gives
                with Image.open(p) as im:
                    a = np.array(im)
        judge(load(d, "p" + c["ext"], c["how"]), a, c["ext"])
    return c["ext"] + " " + c["form"]


@st.composite
def badcase(draw):
    kind = draw(gen.pick("raw size", "raw dims", "raw bits", "raw bad bits", "mhd size",
                         "mhd type", "mhd key", "ext", "gz"))
    c = dict(bad=kind, delta=draw(gen.pick(-3, -1, 1, 2, 7)), how=draw(HOW),
             k=draw(gen.ints(0, 4)))
    c.update(draw(rawcase()) if kind.startswith("raw") else draw(mhdcase()))
    if kind in ("ext", "gz"):
        c["ext"] = draw(gen.pick(".tif", ".gif", ".txt", ".RAW", ".npy", ".mha", "", ".nrrd"))
    return c


@clause("C11", "rejection", badcase, 2000, thorough=40000, shards=2,
        rule="every case has exactly one defect")
def rejection(c):
    """wrong sizes, headers, names and extensions are rejected"""
    import viqa

    bad = c["bad"]
    exc = ValueError
    n = int(np.prod(c["d"]))
    with scratch_dir() as d:
        if bad.startswith("raw"):
            m = n + c["delta"] if bad == "raw size" else n
            if m < 0:
                return False
            flat = values(m, RAW[c["bits"]], c["seed"])
            if bad == "raw dims":
                name = ("img_%dx%d_%s.raw" % (c["d"][0], c["d"][1], c["bits"]),
                        "img_%s.raw" % c["bits"],
                        "img_%d_%d_%d_%s.raw" % (*c["d"], c["bits"]))[c["k"] % 3]
            elif bad == "raw bits":
                name = "img_%dx%dx%d%s.raw" % (*c["d"], ("", "_bit", "_16", "_ubit")[c["k"] % 4])
            elif bad == "raw bad bits":
                name = "img_%dx%dx%d_%s.raw" % (
                    *c["d"], ("8fbit", "64bit", "24bit", "64ubit", "12bit")[c["k"]])
                flat = values(n, ("u1", "f8", "u2", "f8", "u2")[c["k"]], c["seed"])
            else:
                name = rawname(c)
            flat.tofile(os.path.join(d, name))
        elif bad.startswith("mhd"):
            name = c["name"]
            if bad == "mhd size":
                flat = values(max(0, n + c["delta"]), MET[c["met"]], c["seed"])
                write_mhd(d, c, flat)
            elif bad == "mhd type":
                met = ("MET_SHORT", "MET_CHAR", "MET_INT", "MET_HALF", "MET_LONG")[c["k"]]
                write_mhd(d, c, values(n, ("u2", "u1", "u4", "f2", "f8")[c["k"]], c["seed"]),
                          met=met)
            else:
                exc = (ValueError, KeyError)
                write_mhd(d, c, values(n, MET[c["met"]], c["seed"]),
                          drop=("DimSize", "ElementType", "ElementDataFile")[c["k"] % 3])
        else:
            name = "vol_%dx%dx%d_8bit" % tuple(c["d"]) + (c["ext"] if bad == "ext" else ".raw.gz")
            values(n, "u1", c["seed"]).tofile(os.path.join(d, name))
        must_raise(exc, "%s: %s" % (bad, name), viqa.load_data, as_path(d, name, c["how"]))
    return bad


@st.composite
def anycase(draw):
    kind = draw(gen.pick("raw", "mhd", "nii", "picture"))
    case = dict(raw=rawcase, mhd=mhdcase, nii=niicase, picture=piccase)[kind]
    return dict(kind=kind, c=draw(case()), by=draw(gen.pick("direct", "load_data")))


def put(kind, c, d):
    """write the file of a case; its name and the file with the pixels"""
    if kind == "picture":
        a, name = np.ascontiguousarray(gen.mk(c["img"])), "p" + c["ext"]
        if c["ext"] == ".tiff":
            import tifffile

            tifffile.imwrite(os.path.join(d, name), a,
                             photometric="rgb" if c["form"] == "rgb" else "minisblack")
        else:
            from PIL import Image

            Image.fromarray(a).save(os.path.join(d, name))
        return name, name
    code = c["dt"] if kind == "nii" else RAW[c["bits"]] if kind == "raw" else MET[c["met"]]
    flat = values(int(np.prod(c["d"])), code if code[0] != "i" else "u1", c["seed"])
    if kind == "raw":
        flat.tofile(os.path.join(d, rawname(c)))
        return rawname(c), rawname(c)
    if kind == "mhd":
        write_mhd(d, c, flat)
        return c["name"], c["data"]
    import nibabel as nib

    im = nib.Nifti1Image(flat.astype(code).reshape(c["d"]), np.eye(4))
    if c["sc"] and code[0] != "f":
        im.header.set_slope_inter(*c["sc"])
    nib.save(im, os.path.join(d, "vol" + c["ext"]))
    return "vol" + c["ext"], "vol" + c["ext"]


@clause("C11", "detached", anycase, 1200, thorough=30000, shards=3, rule="every case")
def detached(k):
    """a loaded image and its file do not change each other"""
    import viqa.utils as vu

    c = k["c"]
    with scratch_dir() as d:
        name, data = put(k["kind"], c, d)
        p = os.path.join(d, data)
        with open(p, "rb") as f:
            stored = f.read()
        if k["by"] == "load_data" or k["kind"] == "picture":
            img = load(d, name, c["how"])
        elif k["kind"] == "nii":
            img = sut(vu.load_nifti, os.path.join(d, name))
        else:
            img = sut(getattr(vu, "load_" + k["kind"]), d, name)
        want = np.array(img, copy=True)
        what = name + " (%s)" % k["by"]
        with open(p, "r+b") as f:  # in place: the same file with other bytes
            f.write(bytes(255 - b for b in stored))
        same_array(img, want, what + " after its file was overwritten")
        with open(p, "wb") as f:
            f.write(stored)
        other = load(d, name, c["how"])
        img[...] = 0 if want.dtype.kind != "b" else False
        check((np.asarray(img) == 0).all(), "%s cannot be changed", what)
        with open(p, "rb") as f:
            check(f.read() == stored, "%s: changing the image changed the file", what)
        same_array(other, want, what + " after another image of the file changed")
        os.remove(p)
        same_array(other, want, what + " after its file was removed")
    return k["kind"] + " " + k["by"]
