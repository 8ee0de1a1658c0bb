"""Process-wide state that a call has no business changing."""
import os
import random
import sys
import warnings

import jax
import numpy as np

from .util import digest


def snapshot():
    import matplotlib
    st = np.random.get_state()
    jc = {k: repr(v) for k, v in sorted(jax.config.values.items())}
    return {
        "numpy random state": digest([st[0], np.asarray(st[1]), st[2], st[3], st[4]]),
        "python random state": digest(list(map(str, random.getstate()))),
        "numpy error handling": repr(sorted(np.geterr().items())),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "jax configuration": digest(jc),
        "warning filters": digest(repr(warnings.filters)),
        "environment": digest(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "standard output": id(sys.stdout),
        "standard error": id(sys.stderr),
        "matplotlib settings": digest(repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items()))),
    }


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


class Watch:
    """What other threads could see change while a call is under way: state of the process (not of the thread)."""

    def __init__(self):
        self.config = dict(jax.config.values)
        self.env = dict(os.environ)
        self.out, self.err = sys.stdout, sys.stderr
        self.bad = None

    def __call__(self, idx, frame):
        if self.bad is None:
            what = None
            if jax.config.values != self.config:
                what = "jax configuration " + ", ".join(k for k, v in jax.config.values.items() if v != self.config.get(k))
            elif sys.stdout is not self.out or sys.stderr is not self.err:
                what = "standard streams"
            elif os.environ != self.env:
                what = "environment"
            if what:
                self.bad = (what, idx, frame.f_code.co_name)
