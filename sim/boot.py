"""Process bootstrap for every simulator process.

Must be imported before jax / cr.sparse.  It

* pins the environment (CPU backend, no plots),
* installs *dispatching* clock functions in the ``time`` module: they forward to
  the real clock unless a simulated clock is active in this process.  Installing
  them before the code under test is imported means that ``time.perf_counter``,
  ``from time import perf_counter`` and friends all reach the simulator's clock,
* imports the code under test from /repo's working tree and verifies it.
"""
import os
import sys
import time as _time

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(os.path.realpath(REPO), "src") + os.sep

REAL = {}
_ACTIVE = {"clock": None}

_NAMES = ("perf_counter", "perf_counter_ns", "monotonic", "monotonic_ns",
          "time", "time_ns", "process_time", "process_time_ns",
          "thread_time", "thread_time_ns", "sleep")


def _make(name):
    real = getattr(_time, name)
    REAL[name] = real

    def dispatch(*args):
        clock = _ACTIVE["clock"]
        if clock is None or not clock.mine():
            return real(*args)
        return clock.read(name, *args)
    dispatch.__name__ = name
    dispatch.__qualname__ = name
    return dispatch


for _n in _NAMES:
    if hasattr(_time, _n):
        setattr(_time, _n, _make(_n))


# -- file API -------------------------------------------------------------------
import _io  # noqa: E402
import builtins  # noqa: E402
import io  # noqa: E402

REAL["open"] = builtins.open


def _open(*args, **kw):
    fs = _ACTIVE["fs"]
    if fs is not None:
        from . import simfs
        handled, v = simfs.call(fs, "open", args, kw)
        if handled:
            return v
    return REAL["open"](*args, **kw)


_ACTIVE["fs"] = None
builtins.open = io.open = _io.open = _open


def _make_os(name):
    real = getattr(os, name)
    REAL["os." + name] = real

    def dispatch(*args, **kw):
        fs = _ACTIVE["fs"]
        if fs is not None:
            from . import simfs
            handled, v = simfs.call(fs, "os." + name, args, kw)
            if handled:
                return v
        return real(*args, **kw)
    dispatch.__name__ = dispatch.__qualname__ = name
    setattr(os, name, dispatch)


_unlink_supports = [s for s in ("supports_dir_fd", "supports_follow_symlinks", "supports_fd", "supports_effective_ids")
                    if hasattr(os, s)]
for _n in ("replace", "rename", "remove", "unlink", "open", "close", "fsync", "fdatasync", "sync", "write",
           "truncate", "ftruncate", "link"):
    _old = getattr(os, _n)
    _make_os(_n)
    for _s in _unlink_supports:
        if _old in getattr(os, _s):
            getattr(os, _s).add(getattr(os, _n))
import shutil as _shutil  # noqa: E402
_shutil._USE_CP_SENDFILE = False


def set_fs(fs):
    _ACTIVE["fs"] = fs


def set_clock(clock):
    _ACTIVE["clock"] = clock


def real_now():
    return REAL["monotonic"]()


def load():
    """Imports the code under test; returns the list of cr.sparse paths."""
    if REPO != "/repo":
        sys.path.insert(0, os.path.join(REPO, "src"))
    import warnings
    warnings.filterwarnings("ignore")
    import jax  # noqa
    import cr.sparse  # noqa
    # problem generators are imported on first use; do it now so that an import lock is never held while parked
    import importlib
    import glob
    for f in sorted(glob.glob(os.path.join(SRC, "cr", "sparse", "_src", "problems", "prob[0-9]*.py"))):
        importlib.import_module("cr.sparse._src.problems." + os.path.basename(f)[:-3])
    paths = [os.path.realpath(p) for p in cr.sparse.__path__]
    if not any((p + os.sep).startswith(SRC) for p in paths):
        raise RuntimeError(f"cr.sparse is not imported from {SRC}: {paths}")
    return paths
