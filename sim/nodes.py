"""Simulated parties a solve talks to: the operator, callables, a tracker sink."""
import jax
import jax.numpy as jnp
import numpy as np

from .util import SimFault, digest

VALUE_FAULTS = ("big", "nan", "inf", "neginf", "zero", "garbage", "huge", "tiny", "stale", "flip", "vast", "one-nan", "one-inf", "const")
FAULT_EXC = {"raise": SimFault, "memory": MemoryError, "oserror": OSError,
             "interrupt": KeyboardInterrupt}


class Channel:
    """One call channel (e.g. A x) of a simulated party.

    faults: list of {"at": k, "len": n, "kind": ...}; the k-th..(k+n-1)-th
    request (0 based) gets that fault.  len = -1 means "stuck for ever".
    """

    def __init__(self, party, name, fn):
        self.party = party
        self.name = name
        self.fn = fn
        self.count = 0
        self.faults = []
        self.last = None

    def plan(self, faults):
        self.faults = [fa for fa in faults if fa.get("ch", self.name) == self.name]

    def __call__(self, *args):
        k = self.count
        self.count += 1
        party = self.party
        party.seq += 1
        if party.cap is not None and party.seq > party.cap:
            from .util import StepLimit
            raise StepLimit(f"more than {party.cap} requests to the operator")
        traced = any(isinstance(a, jax.core.Tracer) for a in args)
        if party.record:
            party.history.append((self.name, None if traced else digest(args)))
        for hook in party.hooks:
            hook(self.name, k, args)
        fault = None
        for fa in self.faults:
            if k >= fa["at"] and (fa["len"] < 0 or k < fa["at"] + fa["len"]):
                fault = fa
        if fault is not None:
            kind = fault["kind"]
            party.fired[kind] = party.fired.get(kind, 0) + 1
            if kind in FAULT_EXC:
                raise FAULT_EXC[kind](f"injected at {self.name}#{k}")
        y = self.fn(*args)
        if fault is not None:
            y = self._corrupt(y, fault, k)
        if not traced:
            self.last = y
        return y

    def _corrupt(self, y, fault, k):
        kind = fault["kind"]
        leaves, tree = jax.tree_util.tree_flatten(y)
        out = []
        for leaf in leaves:
            leaf = jnp.asarray(leaf)
            if kind == "nan":
                v = jnp.full_like(leaf, jnp.nan)
            elif kind == "inf":
                v = jnp.full_like(leaf, jnp.inf)
            elif kind == "neginf":
                v = jnp.full_like(leaf, -jnp.inf)
            elif kind == "zero":
                v = jnp.zeros_like(leaf)
            elif kind == "huge":
                v = leaf * 1e30
            elif kind == "vast":         # finite, but its products overflow
                v = leaf * 3e37
            elif kind in ("one-nan", "one-inf"):
                at = fault.get("seed", 0) % max(1, leaf.size)
                v = leaf.reshape(-1).at[at].set(jnp.nan if kind == "one-nan" else jnp.inf).reshape(leaf.shape)
            elif kind == "const":
                v = jnp.ones_like(leaf)
            elif kind == "big":
                v = leaf * 1e4
            elif kind == "tiny":
                v = leaf * 1e-30
            elif kind == "flip":
                v = -leaf
            elif kind == "stale" and self.last is not None:
                old = jax.tree_util.tree_leaves(self.last)
                v = old[len(out)] if len(old) > len(out) and jnp.shape(old[len(out)]) == jnp.shape(leaf) else leaf
            elif kind == "garbage":
                g = np.random.default_rng(fault.get("seed", 0) + 7919 * k)
                v = jnp.asarray(g.standard_normal(leaf.shape), dtype=leaf.dtype) \
                    if leaf.shape else leaf * 0 + float(g.standard_normal())
            else:
                v = leaf
            out.append(v)
        return jax.tree_util.tree_unflatten(tree, out)


class Party:
    """A set of channels sharing one request sequence number."""

    def __init__(self, record=False, cap=None):
        self.seq = 0
        self.cap = cap
        self.record = record
        self.history = []
        self.fired = {}
        self.hooks = []
        self.channels = {}

    def channel(self, name, fn):
        ch = Channel(self, name, fn)
        self.channels[name] = ch
        return ch

    def plan(self, faults):
        for ch in self.channels.values():
            ch.plan([fa for fa in faults if fa.get("ch") == ch.name])

    def count(self, name):
        return self.channels[name].count


class OperatorNode(Party):
    """The caller-supplied linear operator, as a separate party."""

    def __init__(self, mat, record=False, cap=None):
        super().__init__(record, cap)
        import cr.sparse.lop as lop
        self.mat = jnp.asarray(mat)
        base = lop.matrix(self.mat)
        self.base = base
        times = self.channel("times", base.times)
        trans = self.channel("trans", base.trans)

        # plain functions: jit requires hashable callables, lop uses them as such
        def f_times(x):
            return times(x)

        def f_trans(x):
            return trans(x)
        self.op = base._replace(times=f_times, trans=f_trans)

    @property
    def n_times(self):
        return self.channels["times"].count

    @property
    def n_trans(self):
        return self.channels["trans"].count


class MatrixNode(Party):
    """A square matrix known only through `A @ v` (for conjugate gradients)."""

    def __init__(self, mat, record=False, cap=None):
        super().__init__(record, cap)
        self.mat = jnp.asarray(mat)
        self.shape = self.mat.shape
        self._mv = self.channel("times", lambda v: self.mat @ v)

    def __matmul__(self, v):
        return self._mv(v)

    @property
    def op(self):
        return self
