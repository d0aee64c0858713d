"""Small property-based-testing driver on top of Hypothesis.

A *clause* is (strategy -> JSON-able case dict, run(case)).  ``run`` raises
:class:`Violation` when the property does not hold and returns a truthy value when the
case was non-trivial by the clause's rule.  All random choices are made by Hypothesis
(arrays are built from drawn seeds), so a case dict is a complete replay.
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Violation(Exception):
    """The property under test does not hold for this case."""


class HarnessError(Exception):
    """The check itself could not run."""


class Clause:
    def __init__(self, pid, name, strategy, run, quick, thorough, rule, shards, doc):
        self.pid, self.name, self.strategy, self.run = pid, name, strategy, run
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards
        self.doc = doc


REGISTRY = {}


def clause(pid, name, strategy, quick, thorough=None, rule="", shards=1):
    def deco(fn):
        REGISTRY.setdefault(pid, []).append(
            Clause(pid, name, strategy, fn, quick, thorough or quick * 12, rule, shards,
                   (fn.__doc__ or "").strip())
        )
        return fn

    return deco


# --------------------------------------------------------------------------- scratch
_SCRATCH = None
_OWNER = None


def scratch_root():
    global _SCRATCH, _OWNER
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="viqa_pbt_")
        _OWNER = os.getpid()
        import atexit

        def _clean():
            if os.getpid() == _OWNER:
                shutil.rmtree(_SCRATCH, ignore_errors=True)

        atexit.register(_clean)
    return _SCRATCH


class scratch_dir:
    """Fresh directory for one case, removed afterwards."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="case_", dir=scratch_root())
        return self.d

    def __exit__(self, *exc):
        shutil.rmtree(self.d, ignore_errors=True)
        return False


# ------------------------------------------------------------------------------ SUT
def repo_frame(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC):
            return True
        tb = tb.tb_next
    return False


def sut(fn, *args, **kwargs):
    """Call the code under test on input it has to accept."""
    import warnings

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*args, **kwargs)
    except (Violation, HarnessError):
        raise
    except MemoryError:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(
            "unexpected %s: %s" % (type(e).__name__, str(e)[:300])
        ) from e


def sut_warn(fn, *args, **kwargs):
    """As sut, returning (result, [warning categories], [messages])."""
    import warnings

    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fn(*args, **kwargs)
        return r, [x.category for x in w], [str(x.message) for x in w]
    except (Violation, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("unexpected %s: %s" % (type(e).__name__, str(e)[:300])) from e


def must_raise(excs, what, fn, *args, **kwargs):
    """The code under test has to reject this input with one of excs."""
    import warnings

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn(*args, **kwargs)
    except excs:
        return
    except MemoryError:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(
            "%s: expected %s, got %s: %s"
            % (what, excs, type(e).__name__, str(e)[:200])
        ) from e
    raise Violation("%s: accepted, returned %s" % (what, str(r)[:120]))


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def num(x, what="value"):
    """A plain float from whatever scalar the code returned."""
    try:
        if hasattr(x, "detach"):
            x = x.detach().cpu().numpy()
        import numpy as np

        a = np.asarray(x)
        check(a.size == 1, "%s is not a single number: %r", what, str(x)[:100])
        return float(a.reshape(()))
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("%s is not a number: %s" % (what, str(x)[:100])) from e


def close(a, b, what, rtol=1e-9, atol=1e-12):
    import math

    a, b = num(a, what), num(b, "expected " + what)
    if math.isnan(a) and math.isnan(b):
        return
    if math.isinf(a) or math.isinf(b):
        check(a == b, "%s: got %r, expected %r", what, a, b)
        return
    check(
        abs(a - b) <= atol + rtol * abs(b), "%s: got %.17g, expected %.17g", what, a, b
    )


def same_array(a, b, what, rtol=None, atol=0.0):
    import numpy as np

    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    if rtol is None:
        ok = np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc")
    else:
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok:
        with np.errstate(all="ignore"):
            bad = ~np.isclose(a, b, rtol=rtol or 0, atol=atol, equal_nan=a.dtype.kind in "fc")
        idx = tuple(int(i) for i in np.argwhere(bad)[0]) if bad.any() else ()
        raise Violation(
            "%s: values differ, e.g. at %s: got %r, expected %r"
            % (what, idx, a[idx].item(), b[idx].item())
        )


# ----------------------------------------------------------------------------- build
def build_ext(out_dir, flags=("-O3",), cc="gcc"):
    """Compile the native module from the current tree; returns the path of the .so."""
    import subprocess
    import sysconfig

    import numpy

    src = os.path.join(SRC, "viqa/fr_metrics/stat_utils/statisticsmodule.c")
    out = os.path.join(out_dir, "statisticscalc" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = [cc, "-shared", "-fPIC", "-std=c11", *flags,
           "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(),
           src, "-o", out, "-lm"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise HarnessError("native module does not build:\n" + p.stderr[-2000:])
    return out


class _ExtFinder:
    name = "viqa.fr_metrics.stat_utils.statisticscalc"

    def __init__(self, path):
        self.path = path

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.name:
            return None
        import importlib.util
        from importlib.machinery import ExtensionFileLoader

        return importlib.util.spec_from_file_location(
            fullname, self.path, loader=ExtensionFileLoader(fullname, self.path)
        )


_BOOTED = False


def boot(full=True):
    """Import viqa from the working tree, with a freshly built native module."""
    global _BOOTED
    if _BOOTED:
        return
    root = scratch_root()
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = os.path.join(root, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    import warnings

    warnings.simplefilter("ignore")
    ext_dir = os.path.join(root, "ext")
    os.makedirs(ext_dir, exist_ok=True)
    sys.meta_path.insert(0, _ExtFinder(build_ext(ext_dir)))
    # third-party imports first, so that only viqa itself skips the bytecode cache
    import matplotlib.pyplot  # noqa: F401
    import nibabel  # noqa: F401
    import piq  # noqa: F401
    import scipy.stats  # noqa: F401
    import skimage.io
    import skimage.metrics
    import skimage.transform  # noqa: F401
    import torch

    torch.set_num_threads(1)
    if REPO != "/repo":  # development only: a scratch copy of the tree
        import viqa_leave_out as leave

        sys.path.insert(0, SRC)
        leave.SRC = SRC + "/viqa/"
        leave.FILES = {"viqa": leave.SRC + "__init__.py",
                       "viqa.nr_metrics": leave.SRC + "nr_metrics/__init__.py"}
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(root, "pyc")
    os.environ.setdefault("TQDM_DISABLE", "1")
    import viqa

    if not os.path.abspath(viqa.__file__).startswith(SRC + os.sep):
        raise HarnessError("viqa imported from " + viqa.__file__)
    import importlib.metadata as md

    try:
        md.version("viqa")
    except md.PackageNotFoundError:
        d = os.path.join(root, "meta", "viqa-0.0.dist-info")
        os.makedirs(d)
        with open(os.path.join(d, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: viqa\nVersion: 0.0\n")
        sys.path.append(os.path.dirname(d))
    _BOOTED = True


# ---------------------------------------------------------------------------- runner
def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def exec_case(cl, case):
    """Run one case; classify everything that is not a pass."""
    try:
        return cl.run(case)
    except (Violation, HarnessError):
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except OSError as e:
        if repo_frame(e):
            raise Violation("unexpected %s: %s" % (type(e).__name__, e)) from e
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(
            "unexpected %s while judging the result: %s"
            % (type(e).__name__, str(e)[:300])
        ) from e


def run_unit(cl, shard, nshards, seed, tier, budget_end, cur_path):
    """Search one (clause, shard) with Hypothesis. Runs in a forked worker."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    n = cl.quick if tier == "quick" else cl.thorough
    n = max(1, int(-(-n // nshards) * float(os.environ.get("VERIF_SCALE", "1"))))
    st = {"evals": 0, "skipped": 0, "keys": set(), "labels": {}, "samples": [],
          "fail": None, "msg": None}
    fdc = os.open(cur_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)

    passed = set()

    def body(case):
        if time.time() > budget_end and st["fail"] is None:
            st["skipped"] += 1
            return
        txt = json.dumps(case)
        if txt in passed:  # drawn before
            return
        os.pwrite(fdc, (txt + "\n").encode(), 0)
        os.ftruncate(fdc, len(txt) + 1)
        st["evals"] += 1
        try:
            r = exec_case(cl, case)
        except Violation as e:
            st["fail"], st["msg"] = case, str(e)
            raise
        passed.add(txt)
        if r:
            k = case_key(case)
            if k not in st["keys"]:
                st["keys"].add(k)
                if len(st["samples"]) < 2:
                    st["samples"].append(case)
            if isinstance(r, str):
                st["labels"][r] = st["labels"].get(r, 0) + 1

    strategy = cl.strategy() if callable(cl.strategy) else cl.strategy
    test = given(strategy)(body)
    test = settings(
        max_examples=n, deadline=None, database=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(test)
    sd = (zlib.crc32(("%s/%s" % (cl.pid, cl.name)).encode()) * 1000003
          + shard * 7919 + seed) % (2**63)
    test = hypothesis.seed(sd)(test)
    # Five of six examples of Hypothesis copy parts of the one before: keep that for some shards
    # only, the others draw every example afresh
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    if shard % 4 != 1:
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    err = None
    import contextlib
    import io

    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            test()
    except Violation:
        pass
    except HarnessError as e:
        err = str(e)
    except BaseException as e:  # noqa: BLE001
        if st["fail"] is None:
            err = "".join(traceback.format_exception(e))[-3000:]
        elif type(e).__name__ not in ("Flaky", "FlakyFailure", "FlakyReplay"):
            pass
    os.close(fdc)
    if st["fail"] is not None:
        # confirm outside Hypothesis
        try:
            with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
                exec_case(cl, st["fail"])
            st["msg"] += "  [passed when repeated in the same process]"
        except Violation as e:
            st["msg"] = str(e)
        except BaseException:  # noqa: BLE001
            pass
    st["keys"] = list(st["keys"])
    st["err"] = err
    return st


def run_property(pid, seed, tier, rule, budget):
    """Run all clauses of a property on all cores; returns a summary."""
    import pickle

    clauses = REGISTRY[pid]
    only = os.environ.get("VERIF_CLAUSE")
    if only:
        clauses = [c for c in clauses if c.name in only.split(",")]
    units = []
    for c in clauses:
        k = c.shards if tier == "quick" else max(c.shards, 8)
        for s in range(k):
            units.append((c, s, k))
    # long shards first
    units.sort(key=lambda u: (-(u[0].shards > 1), u[1]))
    root = scratch_root()
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    end = time.time() + budget
    running, done, queue = {}, [], list(enumerate(units))
    stop = False
    while queue or running:
        while queue and len(running) < jobs and not stop:
            i, (c, s, k) = queue.pop(0)
            res, cur = os.path.join(root, "u%d.pkl" % i), os.path.join(root, "u%d.cur" % i)
            sys.stdout.flush()
            sys.stderr.flush()
            pid_ = os.fork()
            if pid_ == 0:
                code = 0
                try:
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    r = run_unit(c, s, k, seed, tier, end, cur)
                    with open(res, "wb") as f:
                        pickle.dump(r, f)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            running[pid_] = (i, c, s, res, cur, time.time())
        if not running:
            break
        p_, status = os.waitpid(-1, os.WNOHANG)
        if p_ == 0:
            now = time.time()
            if now > end + 240:
                for q in running:
                    os.kill(q, signal.SIGKILL)
                raise HarnessError("time budget exceeded: "
                                   + ", ".join(r[1].name for r in running.values()))
            time.sleep(0.02)
            continue
        if p_ not in running:
            continue
        i, c, s, res, cur, t0 = running.pop(p_)
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
            signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL
        ):
            case = None
            try:
                with open(cur) as f:
                    case = json.loads(f.readline())
            except Exception:  # noqa: BLE001
                pass
            r = {"evals": 0, "skipped": 0, "keys": [], "labels": {}, "samples": [],
                 "fail": case, "msg": "the interpreter crashed with signal %d"
                 % os.WTERMSIG(status), "err": None if case else "crash, no case"}
        elif os.path.exists(res):
            with open(res, "rb") as f:
                r = pickle.load(f)
        else:
            r = {"evals": 0, "skipped": 0, "keys": [], "labels": {}, "samples": [],
                 "fail": None, "msg": None,
                 "err": "worker ended with status %r" % (status,)}
        r["time"] = time.time() - t0
        done.append((c, s, r))
        if r["fail"] is not None:
            stop = True
            queue = []
            # let running workers finish only briefly
            end = min(end, time.time() + 20)
            for q in list(running):
                os.kill(q, signal.SIGKILL)
                os.waitpid(q, 0)
            running.clear()
    return done


def in_child(fn, *args, timeout=120):
    """Run fn(*args) in a forked child of this (so far unused) process."""
    import pickle
    import select

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Violation as e:
                out = ("violation", str(e))
            except BaseException as e:  # noqa: BLE001
                out = ("error", "".join(traceback.format_exception(e))[-1500:])
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.time() + timeout
    while True:
        left = end - time.time()
        ok, _, _ = select.select([r], [], [], max(left, 0))
        if not ok:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise HarnessError("child timed out")
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not chunks:
        if os.WIFSIGNALED(status):
            raise Violation("the process crashed with signal %d" % os.WTERMSIG(status))
        raise HarnessError("child ended with status %r" % status)
    kind, val = pickle.loads(b"".join(chunks))
    if kind == "violation":
        raise Violation(val)
    if kind == "error":
        raise HarnessError(val)
    return val
