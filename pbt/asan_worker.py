"""Runs the native block statistics in an address-sanitized process.

argv: path of the instrumented module.  stdin/stdout: length-prefixed pickles of
(function, array description, arguments) -> result.  Only NumPy is imported.
"""
import ctypes
import importlib.util
import os
import pickle
import struct
import sys
from importlib.machinery import ExtensionFileLoader


def build(spec):
    import numpy as np

    kind = spec.get("obj")
    if kind == "list":
        return [[1.0, 2.0], [3.0, 4.0]]
    if kind == "none":
        return None
    if kind == "float":
        return 3.5
    if kind == "bytes":
        return b"12345678" * 8
    dt = np.dtype(spec["dtype"])
    rng = np.random.default_rng(spec["seed"])
    shape = tuple(spec["shape"])
    kd = spec["kind"]
    if kd == "const":
        a = np.full(shape, 7.0)
    elif kd == "scaled":  # tiny or huge deviations, also around an offset of their size
        k = rng.integers(*{8: (-13, 13), 4: (-8, 9)}.get(dt.itemsize, (-2, 3))) if (
            dt.kind == "f") else 0
        a = (rng.random(shape) + rng.choice([0.0, 0.0, 3.0])) * 10.0 ** k
    elif kd == "flat":  # constant blocks of a value whose sums are rounded
        a = np.full(shape, rng.random() * 10.0 ** rng.integers(-3, 3))
        if a.ndim == 2 and a.size > 8 and rng.random() < 0.5:
            a[: shape[0] // 2] += rng.random()
    elif kd == "zeros":
        a = np.zeros(shape)
    elif kd == "step":
        a = np.zeros(shape)
        if a.ndim and a.size:
            a[tuple(slice(s // 2, None) for s in shape)] = 100
    elif kd == "offset":
        top = {"f": 8 if dt.itemsize == 8 else 4 if dt.itemsize == 4 else 2, "b": 0}.get(
            dt.kind, 8 if dt.itemsize >= 4 else 4 if dt.itemsize == 2 and dt.kind == "u" else 1)
        a = 10.0 ** rng.integers(0, top + 1) + rng.random(shape) * rng.choice([1.0, 10.0])
    elif kd == "nan":
        a = rng.random(shape) * 100
        if a.size:
            a.flat[int(rng.integers(0, a.size))] = np.nan if dt.kind == "f" else 1
    else:
        a = rng.random(shape) * 100
    if dt.kind in "iu":
        a = np.floor(a)
    elif dt.kind == "b":
        a = a > 50
    a = a.astype(dt)
    lay = spec["layout"]
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "neg" and a.ndim == 2:
        a = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    elif lay == "strided" and a.ndim == 2:
        b = np.zeros((2 * shape[0] + 1, 3 * shape[1] + 2), dt)
        b[1::2, 2::3] = a
        a = b[1::2, 2::3]
    elif lay == "unaligned" and a.ndim == 2 and dt.itemsize > 1:
        buf = bytearray(a.size * dt.itemsize + 1)
        b = np.frombuffer(buf, dtype=dt, count=a.size, offset=1).reshape(shape)
        b[...] = a
        a = b
    elif lay == "bcast" and a.ndim == 2 and shape[0]:
        a = np.broadcast_to(a[:1], shape)
    elif lay == "real" and a.ndim == 2 and dt.kind == "f" and dt.itemsize >= 4:
        a = (a + 1j * (a + 5)).real
    if spec.get("readonly"):
        a = a.view()
        a.flags.writeable = False
    if spec.get("sub"):
        class Sub(np.ndarray):
            pass

        a = a.view(Sub)
    return a


def allocated():
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    return f()


def load(path):
    name = "statisticscalc"
    spec = importlib.util.spec_from_file_location(
        name, path, loader=ExtensionFileLoader(name, path))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def serve(mod, msg):
    import gc

    import numpy as np

    fn = getattr(mod, msg["fn"])
    arr = build(msg["img"])
    args = tuple(msg["args"])
    keep = np.array(arr, copy=True) if isinstance(arr, np.ndarray) else None
    if msg.get("leak"):
        def once():
            try:
                fn(arr, *args)
            except Exception:  # noqa: BLE001
                pass

        for _ in range(3):
            once()
        gc.collect()
        n = msg["leak"]
        grown = []
        r0 = sys.getrefcount(arr)
        for _ in range(3):  # a leak grows every round, a lazily filled cache only once
            a0 = allocated()
            for _ in range(n):
                once()
            gc.collect()
            grown.append(allocated() - a0)
        return {"grown": min(grown), "refs": sys.getrefcount(arr) - r0, "calls": n}
    try:
        r = fn(arr, *args)
    except Exception as e:  # noqa: BLE001
        return {"raised": type(e).__name__, "text": str(e)[:200]}
    outs = r if isinstance(r, tuple) else (r,)
    facts = []
    for o in outs:
        facts.append({
            "ndarray": isinstance(o, np.ndarray), "dtype": str(o.dtype),
            "writeable": bool(o.flags.writeable),
            "shares": bool(np.shares_memory(o, arr)) or any(
                p is not o and np.shares_memory(p, o) for p in outs)})
    same = keep is None or np.array_equal(np.asarray(arr), keep, equal_nan=keep.dtype.kind == "f")
    return {"tuple": isinstance(r, tuple), "out": [np.array(o) for o in outs], "facts": facts,
            "unchanged": bool(same), "seen": np.array(keep, dtype=np.float64)}


def main():
    fd_in, fd_out = os.dup(0), os.dup(1)
    os.dup2(2, 1)
    mod = load(sys.argv[1])
    import numpy  # noqa: F401

    inp, out = os.fdopen(fd_in, "rb"), os.fdopen(fd_out, "wb")
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        msg = pickle.loads(inp.read(struct.unpack("<Q", head)[0]))
        data = pickle.dumps(serve(mod, msg))
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
