"""Digests, seeds, small helpers."""
import hashlib
import json
import random

import numpy as np


def derive(*parts):
    """A 63-bit seed from any JSON-able parts (stable across processes)."""
    h = hashlib.sha256(json.dumps(parts, sort_keys=True).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def rng_for(*parts):
    return random.Random(derive(*parts))


def np_rng(*parts):
    return np.random.default_rng(derive(*parts))


def _feed(h, obj, depth=0):
    if depth > 12:
        h.update(b"deep")
        return
    if obj is None or isinstance(obj, (bool, str, bytes)):
        h.update(repr(obj).encode())
        return
    if isinstance(obj, (int, float, complex)):
        # python scalars and 0-d arrays carrying the same number digest equally
        _feed_arr(h, np.asarray(obj))
        return
    if isinstance(obj, dict):
        h.update(b"{")
        for k in sorted(obj, key=str):
            h.update(str(k).encode())
            _feed(h, obj[k], depth + 1)
        h.update(b"}")
        return
    if isinstance(obj, (list, tuple)):
        h.update(b"(")
        for v in obj:
            _feed(h, v, depth + 1)
        h.update(b")")
        return
    if hasattr(obj, "__array__") or isinstance(obj, np.generic):
        _feed_arr(h, np.asarray(obj))
        return
    import jax
    leaves, tree = jax.tree_util.tree_flatten(obj)
    if len(leaves) == 1 and leaves[0] is obj:
        h.update(type(obj).__name__.encode())
        return
    h.update(str(type(obj).__name__).encode())
    for leaf in leaves:
        _feed(h, leaf, depth + 1)


def _feed_arr(h, a):
    if a.dtype == object:
        for v in a.ravel().tolist():
            _feed(h, v, 1)
        return
    if a.dtype.kind in "iub":
        a = a.astype(np.int64)
    elif a.dtype.kind == "f":
        a = a.astype(np.float64)
        a = np.where(np.isnan(a), np.nan, a)
    elif a.dtype.kind == "c":
        a = a.astype(np.complex128)
    else:
        h.update(repr(a.tolist()).encode())
        return
    h.update(str(a.shape).encode())
    h.update(a.dtype.kind.encode())
    h.update(np.ascontiguousarray(a).tobytes())


def digest(obj):
    h = hashlib.sha256()
    _feed(h, obj)
    return h.hexdigest()[:16]


def f(x):
    return float(np.asarray(x))


def i(x):
    return int(np.asarray(x))


class Violation(Exception):
    """A property violation; `kind` is its class (used for minimisation)."""

    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class SimFault(Exception):
    """An injected, recoverable fault (an ordinary exception type)."""


class SimAbort(BaseException):
    """An injected abort that ordinary `except Exception` must not swallow."""


class StepLimit(BaseException):
    """The simulated system exceeded its step budget."""
