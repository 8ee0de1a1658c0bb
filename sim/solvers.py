"""Registry of the iterative solvers, each driven through the operator seam.

A Spec says how to build a problem from a JSON case, how to run the real solver
against a simulated operator party with a given iteration budget, and what the
returned record claims.
"""
import numpy as np
import jax
import jax.numpy as jnp

import cr.sparse as crs
import cr.sparse.lop as lop
import cr.sparse.fom as fom
import cr.sparse.opt as opt
from cr.sparse import sls
from cr.sparse.opt import cg, pcg
from cr.sparse.opt import spg
from cr.sparse.pursuit import omp, mp, cosamp, sp, htp, iht
from cr.sparse.cvx import spgl1, l1ls
from cr.sparse.cvx.adm import yall1
from cr.sparse.sls import svd as _svd

from . import nodes
from .util import np_rng

M, N = 12, 24          # compressive problems
TM, TN = 16, 8         # overdetermined problems
SQ = 10                # square problems
SIZES = {0: (12, 24), 1: (10, 16), 2: (16, 28), 3: (8, 40), 4: (24, 30)}
TALL = {0: (16, 8), 1: (12, 6), 2: (10, 10)}
SPD = {0: 10, 1: 6, 2: 10}


def cols(nd):
    return nd.mat.shape[1]


def warm(nd, c, default=0.0):
    """The caller's starting point."""
    w = c.get("warm", default)
    n = cols(nd)
    return jnp.asarray(np_rng("w", c["seed"]).standard_normal(n) * w, dtype=jnp.float32) if w else jnp.zeros(n)


def opts(c, *names):
    o = c.get("opt") or {}
    return {k: o[k] for k in names if k in o}


# ---------------------------------------------------------------- problems
def cs_problem(case):
    """A compressive problem (A, b, x) from a case."""
    m, n = SIZES[case.get("size", 0)]
    g = np_rng("cs", case["seed"])
    kind = case.get("mat", "gauss")
    A = g.standard_normal((m, n))
    if kind == "corr":           # strongly correlated atoms
        A = A + 2.0 * g.standard_normal((m, 1))
    elif kind == "orth":         # orthonormal rows
        q, _ = np.linalg.qr(A.T)
        A = q.T
    elif kind == "dup":          # duplicated atoms
        A[:, n // 2:] = A[:, : n - n // 2]
    if kind != "orth":
        A = A / np.linalg.norm(A, axis=0)
    k = case.get("K", 3)
    x = np.zeros(n)
    idx = g.choice(n, size=k, replace=False)
    x[idx] = g.standard_normal(k) + np.sign(g.standard_normal(k))
    x = x * case.get("scale", 1.0)
    b = A @ x
    sig = case.get("sig", "sparse")
    if sig == "noisy":
        b = b + 0.1 * np.linalg.norm(b) / np.sqrt(m) * g.standard_normal(m)
    elif sig == "dense":
        b = g.standard_normal(m) * case.get("scale", 1.0)
    return A.astype(np.float32), b.astype(np.float32), x.astype(np.float32)


def tall_problem(case):
    m, n = TALL[case.get("size", 0)]
    g = np_rng("tall", case["seed"])
    A = g.standard_normal((m, n))
    if case.get("mat") == "corr":
        A = A + 3.0 * g.standard_normal((m, 1))
    x = g.standard_normal(n) * case.get("scale", 1.0)
    b = A @ x
    if case.get("sig") != "sparse":
        b = b + 0.3 * g.standard_normal(m) * case.get("scale", 1.0)
    return A.astype(np.float32), b.astype(np.float32), x.astype(np.float32)


def spd_problem(case):
    n = SPD[case.get("size", 0)]
    g = np_rng("spd", case["seed"])
    B = g.standard_normal((n, n))
    A = B @ B.T / n + np.diag(0.2 + g.random(n) * (5 if case.get("mat") == "corr" else 1))
    x = g.standard_normal(n) * case.get("scale", 1.0)
    b = A @ x
    return A.astype(np.float32), b.astype(np.float32), x.astype(np.float32)


# ---------------------------------------------------------------- specs
class Spec:
    """One solver entry point.

    run(node, b, case, budget, tracker) -> result record
    record:  names of the consistency rules that the result obeys
    counts:  True when the record reports n_times / n_trans
    iters:   True when the record reports iterations
    base:    smallest number of iterations the solver performs
    cap(k):  generous bound on operator requests for an iteration budget k
    pair:    iterations come in pairs (budget may be overshot by one)
    """

    def __init__(self, name, problem, run, record=(), counts=False, iters=True,
                 base=0, cap=None, budgets=(1, 12), tracker=False, pair=False,
                 node=nodes.OperatorNode, jit=None, extra=None, slack=0,
                 lines=None, prefix=True, group="solver", extra_counts=None, compiled=False):
        self.name = name
        self.problem = problem
        self.run = run
        self.record = record
        self.counts = counts
        self.iters = iters
        self.base = base
        self.cap = cap or (lambda k: 6 * k + 20)
        self.budgets = budgets
        self.tracker = tracker
        self.pair = pair
        self.node = node
        self.jit = jit
        self.extra = extra
        self.slack = slack
        self.lines = lines or (lambda k: 4000 + 900 * (k + 1))
        self.prefix = prefix
        self.group = group
        self.extra_counts = extra_counts
        self.compiled = compiled


SPECS = {}


def spec(*a, **kw):
    s = Spec(*a, **kw)
    SPECS[s.name] = s
    return s


noop = crs.noop_tracker

# greedy pursuits ------------------------------------------------------------
spec("omp", cs_problem,
     lambda nd, b, c, k, t: omp.operator_solve(nd.op, b, k, res_norm_rtol=c.get("rtol", 1e-4)),
     record=("support",), base=1, budgets=(1, 8), cap=lambda k: 2 * k + 6)
spec("mp", cs_problem,
     lambda nd, b, c, k, t: mp.solve(nd.op, b, max_iters=k, res_norm_rtol=c.get("rtol", 1e-4), tracker=t or noop),
     record=("full", "rnorm2"), tracker=True, budgets=(1, 16))
spec("cosamp", cs_problem,
     lambda nd, b, c, k, t: cosamp.operator_solve(nd.op, b, c.get("K", 3), max_iters=k, res_norm_rtol=c.get("rtol", 1e-4), tracker=t or noop),
     record=("support",), base=1, tracker=True, budgets=(1, 8))
spec("sp", cs_problem,
     lambda nd, b, c, k, t: sp.operator_solve(nd.op, b, c.get("K", 3), max_iters=k, res_norm_rtol=c.get("rtol", 1e-4), tracker=t or noop),
     record=("support",), base=1, tracker=True, budgets=(1, 8))
for _norm in (False, True):
    _sfx = "-n" if _norm else ""
    spec("htp" + _sfx, cs_problem,
         lambda nd, b, c, k, t, _n=_norm: htp.operator_solve(nd.op, b, c.get("K", 3), normalized=_n, step_size=None if _n else c.get("step", 0.3), max_iters=k, res_norm_rtol=c.get("rtol", 1e-4)),
         record=("support",), base=1, budgets=(1, 10))
    spec("iht" + _sfx, cs_problem,
         lambda nd, b, c, k, t, _n=_norm: iht.operator_solve(nd.op, b, c.get("K", 3), normalized=_n, step_size=None if _n else c.get("step", 0.3), max_iters=k, res_norm_rtol=c.get("rtol", 1e-4)),
         record=("support",), base=1, budgets=(1, 16))
spec("htp-auto", cs_problem,
     lambda nd, b, c, k, t: htp.operator_solve(nd.op, b, c.get("K", 3), max_iters=k),
     record=("support",), base=1, budgets=(1, 10), cap=lambda k: 6 * k + 240)
spec("iht-auto", cs_problem,
     lambda nd, b, c, k, t: iht.operator_solve(nd.op, b, c.get("K", 3), max_iters=k),
     record=("support",), base=1, budgets=(1, 10), cap=lambda k: 6 * k + 240)

def yopts(nd, c):
    o = opts(c, "gamma", "nonneg")
    w = (c.get("opt") or {}).get("weights")
    g = np_rng("y", c["seed"])
    if w == "scalar":
        o["weights"] = 0.7
    elif w == "vector":
        o["weights"] = jnp.asarray(0.5 + g.random(cols(nd)), dtype=jnp.float32)
    if "warm" in c:
        o["x0"] = warm(nd, c)
    if (c.get("opt") or {}).get("z0"):
        o["z0"] = jnp.asarray(0.1 * g.standard_normal(cols(nd)), dtype=jnp.float32)
    if (c.get("opt") or {}).get("W"):
        o["W"] = lop.cosine_basis(cols(nd))
    return o


# ADMM ----------------------------------------------------------------------
spec("yall1-bp", cs_problem,
     lambda nd, b, c, k, t: yall1.solve(nd.op, b, max_iters=k, tolerance=c.get("tol", 5e-3), jit=False, **yopts(nd, c)),
     record=("full",), counts=True, pair=True, budgets=(1, 30))
spec("yall1-rho", cs_problem,
     lambda nd, b, c, k, t: yall1.solve(nd.op, b, rho=c.get("rho", 1e-2), max_iters=k, tolerance=c.get("tol", 5e-3), jit=False, **yopts(nd, c)),
     record=("full",), counts=True, pair=True, budgets=(1, 30))
spec("yall1-delta", cs_problem,
     lambda nd, b, c, k, t: yall1.solve(nd.op, b, delta=c.get("delta", 1e-2), max_iters=k, tolerance=c.get("tol", 5e-3), jit=False, **yopts(nd, c)),
     record=("full",), counts=True, pair=True, budgets=(1, 30))
def lopts(nd, c):
    o = opts(c, "tol", "xi", "t0")
    if c.get("warm"):
        o["x0"] = warm(nd, c)
        o["u0"] = jnp.abs(o["x0"]) + 1.0
    return o


# interior point ------------------------------------------------------------
spec("l1ls", cs_problem,
     lambda nd, b, c, k, t: l1ls.solve(nd.op, b, c.get("lambda", 0.05), max_iters=k, pcg_max_iters=c.get("pcg", 40), **lopts(nd, c)),
     record=("full",), counts=True, base=1, budgets=(1, 8),
     cap=lambda k: (k + 1) * (2 * 60 + 110 + 12) + 10,
     lines=lambda k: 4000 + (k + 1) * (40 * 60 + 200 * 110 * 12))
# SPGL1 ----------------------------------------------------------------------
spec("spgl1-lasso", cs_problem,
     lambda nd, b, c, k, t: spgl1.solve_lasso(nd.op, b, c.get("tau", 2.0), options=spgl1.SPGL1Options(**opts(c, "opt_tol", "dec_tol", "gamma", "alpha_max", "memory", "bp_tol"), max_iters=k), tracker=t or noop),
     record=("full", "rnorm", "grad", "fval", "spgl1"), counts=True, base=1, tracker=True, budgets=(1, 14),
     cap=lambda k: 16 * k + 10)
spec("spgl1-bpic", cs_problem,
     lambda nd, b, c, k, t: spgl1.solve_bpic(nd.op, b, c.get("sigma", 0.1), options=spgl1.SPGL1Options(**opts(c, "opt_tol", "dec_tol", "gamma", "alpha_max", "memory", "bp_tol"), max_iters=k, max_matvec=c.get("matvec", 100000)), tracker=t or noop),
     record=("full", "rnorm", "grad", "fval", "spgl1"), counts=True, base=1, tracker=True, budgets=(1, 14),
     cap=lambda k: 16 * k + 10)
spec("spgl1-bp", cs_problem,
     lambda nd, b, c, k, t: spgl1.solve_bp(nd.op, b, options=spgl1.SPGL1Options(**opts(c, "opt_tol", "dec_tol", "gamma", "alpha_max", "memory", "bp_tol"), max_iters=k, max_matvec=c.get("matvec", 100000)), tracker=t or noop),
     record=("full", "rnorm", "grad", "fval", "spgl1"), counts=True, base=1, tracker=True, budgets=(1, 14),
     cap=lambda k: 16 * k + 10)
spec("spgl1-bpic-from", cs_problem,
     lambda nd, b, c, k, t: spgl1.solve_bpic_from(nd.op, b, c.get("sigma", 0.1), warm(nd, c, 1.0), options=spgl1.SPGL1Options(**opts(c, "opt_tol", "dec_tol", "gamma", "alpha_max", "memory", "bp_tol"), max_iters=k, max_matvec=c.get("matvec", 100000)), tracker=t or noop),
     record=("full", "rnorm", "grad", "fval", "spgl1"), counts=True, base=1, tracker=True, budgets=(1, 14),
     cap=lambda k: 16 * k + 10)
spec("spgl1-lasso-from", cs_problem,
     lambda nd, b, c, k, t: spgl1.solve_lasso_from(nd.op, b, c.get("tau", 2.0), warm(nd, c, 1.0), options=spgl1.SPGL1Options(**opts(c, "opt_tol", "dec_tol", "gamma", "alpha_max", "memory", "bp_tol"), max_iters=k), tracker=t or noop),
     record=("full", "rnorm", "grad", "fval", "spgl1"), counts=True, base=1, tracker=True, budgets=(1, 14),
     cap=lambda k: 16 * k + 10)
# sparse linear systems -------------------------------------------------------
spec("lsqr", tall_problem,
     lambda nd, b, c, k, t: sls.lsqr(nd.op, b, warm(nd, c), damp=c.get("damp", 0), max_iters=k, **opts(c, "atol", "btol", "conlim")),
     record=("lsqr",), counts=True, budgets=(1, 12))


def iopts(nd, c):
    o = opts(c, "res_norm_rtol", "x_norm_change_tol")
    if (c.get("opt") or {}).get("basis"):
        o["basis"] = lop.cosine_basis(cols(nd))
    return o


def _thr(i, x):
    from cr.sparse.opt import shrink
    return shrink(x, 0.02)


spec("ista", cs_problem,
     lambda nd, b, c, k, t: sls.ista(nd.op, b, warm(nd, c), 0.3, threshold_func=_thr, max_iters=k, **iopts(nd, c)),
     record=("full", "rnorm2"), budgets=(1, 16))
spec("fista", cs_problem,
     lambda nd, b, c, k, t: sls.fista(nd.op, b, warm(nd, c), 0.3, threshold_func=_thr, max_iters=k, **iopts(nd, c)),
     record=("fista", "rnorm2"), budgets=(1, 16))
spec("power", spd_problem,
     lambda nd, b, c, k, t: sls.power_iterations(nd.op, b, max_iters=k, **opts(c, "error_tolerance")),
     record=("power",), budgets=(1, 16))
spec("normest", cs_problem,
     lambda nd, b, c, k, t: lop.normest(nd.op, max_iters=k, **opts(c, "error_tolerance")),
     iters=False, record=("normest",), budgets=(1, 16))
# first order methods ---------------------------------------------------------
_fo = lambda k, c: fom.FomOptions(max_iters=k, **opts(c, "tol", "L0", "Lexact", "alpha", "beta"))
spec("fom-l1rls", cs_problem,
     lambda nd, b, c, k, t: fom.l1rls(nd.op, b, c.get("lambda", 0.05), warm(nd, c), _fo(k, c)),
     record=("fom",), base=1, budgets=(1, 12))
spec("fom-lasso", cs_problem,
     lambda nd, b, c, k, t: fom.lasso(nd.op, b, c.get("tau", 2.0), warm(nd, c), _fo(k, c)),
     record=("fom",), base=1, budgets=(1, 12))
spec("fom-owl1rls", cs_problem,
     lambda nd, b, c, k, t: fom.owl1rls(nd.op, b, jnp.linspace(0.1, 0.01, cols(nd)), warm(nd, c), _fo(k, c)),
     record=("fom",), base=1, budgets=(1, 8), lines=lambda k: 6000 + 1500 * (k + 1))
spec("fom-dantzig", cs_problem,
     lambda nd, b, c, k, t: fom.dantzig_scd(nd.op, b, 0.05, c.get("mu", 0.1), jnp.zeros(cols(nd)), warm(nd, c), _fo(k, c)),
     record=(), base=1, budgets=(1, 8), cap=lambda k: 16 * k + 30)
# optimisation ---------------------------------------------------------------
spec("cg", spd_problem,
     lambda nd, b, c, k, t: cg.solve_from(nd.op, b, warm(nd, c), max_iters=k, **opts(c, "res_norm_rtol")),
     record=("full", "rnorm2"), budgets=(1, 12), node=nodes.MatrixNode)


class SpdCallable(nodes.MatrixNode):
    @property
    def op(self):
        def f(v):
            return self @ v
        return f


def _pcg(nd, b, c, k, t):
    d = 1.0 / jnp.diag(nd.mat)
    M_ = (lambda r: d * r) if c.get("precond") else None
    kw = {} if M_ is None else {"M": M_}
    x0 = warm(nd, c)
    return pcg.solve_from(nd.op, b, x0, max_iters=k, **{"tol": 1e-4, **opts(c, "tol", "atol")}, **kw)


spec("pcg", spd_problem, _pcg, record=("full",), base=1, budgets=(1, 12), node=SpdCallable)


class SpgNode(nodes.Party):
    """A smooth objective 0.5|Ax-b|^2 and a box projection, as a party."""

    def __init__(self, mat, record=False, cap=None):
        super().__init__(record, cap)
        self.mat = jnp.asarray(mat)

    def build(self, b):
        A = self.mat
        fch = self.channel("f", lambda x: 0.5 * jnp.sum((A @ x - b) ** 2))
        gch = self.channel("g", lambda x: A.T @ (A @ x - b))
        pch = self.channel("proj", lambda x: jnp.clip(x, -1.0, 1.0))

        def grad_val(x):
            return gch(x), fch(x)
        sm = opt.smooth_build3(lambda x: fch(x), lambda x: gch(x), grad_val)
        return sm, (lambda x: pch(x))


def _spg(nd, b, c, k, t):
    sm, proj = nd.build(b)
    x0 = warm(nd, c, 1.0)
    if getattr(nd, "pending", None):
        nd.plan(nd.pending)
    return spg.solve_from(sm, proj, x0, spg.SPGOptions(max_iters=k, max_f_calls=c.get("fcalls", 2000), **opts(c, "memory", "suff_dec", "progress_tol", "optim_tol")))


spec("spg", tall_problem, _spg, record=("spg",), base=1, budgets=(1, 10), node=SpgNode,
     cap=lambda k: 60 * (k + 1) + 20, counts=False, extra_counts={"f_calls": "f", "g_calls": "g", "proj_calls": "proj"})

# Lanczos ---------------------------------------------------------------------
spec("lanbpro", tall_problem,
     lambda nd, b, c, k, t: _svd.lanbpro(nd.op, k, b),
     record=("lanbpro",), base=1, budgets=(2, 8), cap=lambda k: 30 * k + 60,
     lines=lambda k: 20000 + 20000 * k)
spec("lansvd", tall_problem,
     lambda nd, b, c, k, t: _svd.lansvd_simple(nd.op, k, b),
     iters=False, budgets=(1, 4), cap=lambda k: 30 * 16 + 60, lines=lambda k: 800000, prefix=False)


# ---------------------------------------------------------------------------
# solvers which take plain data: the only other party is the data source, the
# faults are corrupted entries of what it delivers
# ---------------------------------------------------------------------------
from cr.sparse.cvx import focuss  # noqa: E402
from cr.sparse.block import bsbl  # noqa: E402
import cr.sparse.cs.cs1bit as cs1bit  # noqa: E402
import cr.sparse.cluster.vq as kmeans  # noqa: E402


class DataNode(nodes.Party):
    """Delivers a matrix and a vector; entries may be damaged on the way."""

    def __init__(self, mat, record=False, cap=None):
        super().__init__(record, cap)
        self.mat = jnp.asarray(mat)

    @property
    def op(self):
        return self.mat


def _damage(nd, a, fault):
    g = np_rng("damage", fault["seed"], fault["at"])
    a = np.array(a, copy=True)
    flat = a.reshape(-1)
    n = flat.size if fault["len"] < 0 else min(fault["len"], flat.size)
    idx = g.choice(flat.size, size=n, replace=False)
    kind = fault["kind"]
    with np.errstate(over="ignore"):
        for k in idx:
            flat[k] = {"nan": np.nan, "inf": np.inf, "neginf": -np.inf, "zero": 0.0,
                       "garbage": g.standard_normal(), "huge": flat[k] * 1e30, "big": flat[k] * 1e4, "tiny": flat[k] * 1e-30,
                       "flip": -flat[k], "stale": flat[(k - 1) % flat.size], "vast": flat[k] * 3e37,
                       "one-nan": np.nan if k == idx[0] else flat[k], "one-inf": np.inf if k == idx[0] else flat[k], "const": 1.0}.get(kind, flat[k])
    nd.fired[kind] = nd.fired.get(kind, 0) + 1
    return a


def apply_data_faults(nd, b, faults):
    for fa in faults:
        if fa["ch"] == "A":
            nd.mat = jnp.asarray(_damage(nd, nd.mat, fa))
        else:
            b = _damage(nd, b, fa)
    return b


_dk = dict(node=DataNode)
spec("m-mp", cs_problem,
     lambda nd, b, c, k, t: mp.matrix_solve(nd.mat, b, max_iters=k, res_norm_rtol=c.get("rtol", 1e-4), tracker=t or noop),
     record=("full", "rnorm2"), tracker=True, budgets=(1, 16), **_dk)
spec("m-omp", cs_problem,
     lambda nd, b, c, k, t: omp.matrix_solve(nd.mat, b, k, **opts(c, "max_res_norm")),
     record=("support",), base=1, budgets=(1, 8), **_dk)
spec("m-cosamp", cs_problem,
     lambda nd, b, c, k, t: cosamp.matrix_solve(nd.mat, b, c.get("K", 3), max_iters=k, res_norm_rtol=c.get("rtol", 1e-4)),
     record=("support",), base=1, budgets=(1, 8), **_dk)
spec("m-sp", cs_problem,
     lambda nd, b, c, k, t: sp.matrix_solve(nd.mat, b, c.get("K", 3), max_iters=k, res_norm_rtol=c.get("rtol", 1e-4)),
     record=("support",), base=1, budgets=(1, 8), **_dk)
for _norm in (False, True):
    _sfx = "-n" if _norm else ""
    spec("m-htp" + _sfx, cs_problem,
         lambda nd, b, c, k, t, _n=_norm: htp.matrix_solve(nd.mat, b, c.get("K", 3), normalized=_n, step_size=None if _n else c.get("step", 0.3), max_iters=k, res_norm_rtol=c.get("rtol", 1e-4)),
         record=("support",), base=1, budgets=(1, 10), **_dk)
    spec("m-iht" + _sfx, cs_problem,
         lambda nd, b, c, k, t, _n=_norm: iht.matrix_solve(nd.mat, b, c.get("K", 3), normalized=_n, step_size=None if _n else c.get("step", 0.3), max_iters=k, res_norm_rtol=c.get("rtol", 1e-4)),
         record=("support",), base=1, budgets=(1, 16), **_dk)
spec("focuss", cs_problem,
     lambda nd, b, c, k, t: focuss.matrix_solve_noiseless(nd.mat, b, p=c.get("p", 1.0), max_iters=k),
     record=("full", "rnorm2"), budgets=(1, 10), **_dk)
spec("bsbl-em", cs_problem,
     lambda nd, b, c, k, t: bsbl.bsbl_em(nd.mat, b, 4, bsbl.bsbl_em_options(b, max_iters=k, **opts(c, "learn_block_corr", "learn_lambda", "prune_gamma", "epsilon"))),
     record=("full", "rnorm2"), budgets=(1, 8), **_dk)
spec("bsbl-bo", cs_problem,
     lambda nd, b, c, k, t: bsbl.bsbl_bo(nd.mat, b, 4, bsbl.bsbl_bo_options(b, max_iters=k, **opts(c, "learn_block_corr", "learn_lambda", "prune_gamma", "epsilon"))),
     record=("full", "rnorm2"), budgets=(1, 8), **_dk)
spec("bsbl-np", cs_problem,
     lambda nd, b, c, k, t: bsbl.bsbl_bo_np(nd.mat, b, 4, bsbl.bsbl_bo_options(b, max_iters=k, **opts(c, "learn_block_corr", "learn_lambda", "prune_gamma", "epsilon"))),
     record=("full", "rnorm2"), budgets=(1, 8), **_dk)
spec("biht", cs_problem,
     lambda nd, b, c, k, t: cs1bit.biht(nd.mat, jnp.sign(b), c.get("K", 3), c.get("tau1", 0.5), max_iters=k),
     record=("biht",), budgets=(1, 16), **_dk)


def points_problem(case, n=30, d=3):
    g = np_rng("pts", case["seed"])
    centers = 4.0 * g.standard_normal((case.get("K", 3), d))
    pts = centers[g.integers(0, len(centers), n)] + g.standard_normal((n, d)) * (0.3 if case.get("mat") != "corr" else 2.0)
    return pts.astype(np.float32), np.zeros(1, np.float32), np.zeros(1, np.float32)


spec("kmeans", points_problem,
     lambda nd, b, c, k, t: kmeans.kmeans_with_seed(jax.random.PRNGKey(c["seed"] % 1000), nd.mat, c.get("K", 3), max_iters=k, **opts(c, "thresh")),
     record=("kmeans",), budgets=(1, 8), **_dk)
spec("kmeans-restarts", points_problem,
     lambda nd, b, c, k, t: kmeans.kmeans(jax.random.PRNGKey(c["seed"] % 1000), nd.mat, c.get("K", 3), iter=c.get("restarts", 4), max_iters=k, **opts(c, "thresh")),
     record=("kmeans", "restart"), budgets=(1, 8), prefix=False, compiled=True, lines=lambda k: 400000, **_dk)


def _rfp(nd, b, c, k, t):
    Phi, y = nd.mat, jnp.sign(b)
    return cs1bit.rfp(Phi, y, cs1bit.rfp_lsqr_guess(Phi, y), lambda_=c.get("lambda", 5.0), delta=0.1, inner_iters=k, outer_iters=2)


spec("rfp", tall_problem, _rfp, record=("unit",), budgets=(1, 8), **_dk)
