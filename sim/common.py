"""Shared plan generation / shrinking for the solver properties."""
import jax
import jax.numpy as jnp
import numpy as np

from . import nodes, solvers
from .sched import run_solo
from .util import Violation, f, i

KINDS_VALUE = nodes.VALUE_FAULTS
FINITE = ("zero", "garbage", "tiny", "stale", "flip", "big", "const")
# these hand what they receive to LAPACK's least squares / SVD, which itself may
# spin for ever on non-finite entries (a property of the dependency)
LAPACK = ("cosamp", "sp", "htp", "m-cosamp", "m-sp", "m-htp", "bsbl", "lansvd", "lanbpro")


def kinds_for(spec):
    return FINITE if spec.name.startswith(LAPACK) else KINDS_VALUE


OPTIONS = {
    "spgl1": {"opt_tol": (1e-4, 1e-2, 0.3), "dec_tol": (1e-4, 1e-1, 1.0), "gamma": (1e-4, 0.1, 0.4), "alpha_max": (1e5, 1.0), "memory": (1, 2, 3, 6), "bp_tol": (1e-6, 1e-2)},
    "yall1": {"gamma": (0.5, 1.0, 1.6), "nonneg": (False, True), "weights": (None, "scalar", "vector"), "z0": (False, True), "W": (False, False, True)},
    "l1ls": {"tol": (1e-3, 1e-1, 1e-5), "xi": (1e-3, 1e-1), "t0": (1.0, 10.0)},
    "lsqr": {"atol": (1e-8, 1e-3, 1e-1), "btol": (1e-8, 1e-3, 1e-1), "conlim": (1e8, 10.0, 3.0)},
    "ista": {"res_norm_rtol": (1e-3, 0.1, 0.5), "x_norm_change_tol": (1e-10, 1e-2, 0.1, 0.5), "basis": (False, True)},
    "fista": {"res_norm_rtol": (1e-3, 0.1, 0.5), "x_norm_change_tol": (1e-10, 1e-2, 0.1, 0.5), "basis": (False, True)},
    "power": {"error_tolerance": (1e-6, 1e-2, 0.1)},
    "normest": {"error_tolerance": (1e-6, 1e-2, 0.1)},
    "fom": {"tol": (1e-8, 1e-2, 0.1), "L0": (0.5, 1.0, 10.0), "Lexact": (4.0, 20.0), "alpha": (0.9, 0.5), "beta": (0.5, 0.2)},
    "cg": {"res_norm_rtol": (1e-4, 1e-2, 0.3)},
    "pcg": {"tol": (1e-4, 1e-2, 0.3), "atol": (0.0, 1e-2)},
    "spg": {"memory": (1, 2, 10), "suff_dec": (1e-4, 0.1), "progress_tol": (1e-9, 1e-2), "optim_tol": (1e-5, 1e-1)},
    "omp": {"max_res_norm": (1e-6, 0.1, 0.5)},
    "bsbl": {"learn_block_corr": (0, 1), "learn_lambda": (0, 1, 2), "prune_gamma": (1e-3, 1e-2), "epsilon": (1e-8, 1e-1)},
    "kmeans": {"thresh": (1e-5, 0.1, 1.0)},
}


GREEDY = ("mp", "omp", "cosamp", "sp", "htp", "htp-n", "htp-auto", "iht", "iht-n", "iht-auto")


def gen_options(r, name):
    for pre in sorted(OPTIONS, key=len, reverse=True):
        if name.startswith(pre):
            table = OPTIONS[pre]
            return {k: r.choice(table[k]) for k in sorted(table) if r.random() < 0.5}
    return {}


def loose_options(r, name):
    """Values of the tolerance options at which a solve is likely to stop by itself."""
    for pre in sorted(OPTIONS, key=len, reverse=True):
        if name.startswith(pre):
            return {k: r.choice(v[1:]) for k, v in sorted(OPTIONS[pre].items()) if "tol" in k or k in ("thresh", "epsilon", "max_res_norm")}
    return {}


def gen_case(r, spec):
    case = {"seed": r.randrange(1 << 30)}
    case["mat"] = r.choice(["gauss", "gauss", "gauss", "corr", "orth", "dup"])
    case["sig"] = r.choice(["sparse", "sparse", "noisy", "dense"])
    case["K"] = r.choice([1, 2, 3, 4])
    if r.random() < 0.3:
        case["scale"] = r.choice([1e-3, 0.1, 10.0, 1e3])
    name = spec.name.removeprefix("m-")
    if r.random() < 0.25:
        case["size"] = r.choice([1, 2])
    if r.random() < 0.6:
        case["opt"] = gen_options(r, name)
    if name in GREEDY:
        case["K"] = r.choice([1, 2, 3, 4, 5])
        if r.random() < 0.5:
            case["sig"] = "dense"
        if r.random() < 0.3:
            case["size"] = r.choice([3, 4])
        if name in ("htp", "iht"):
            case["step"] = r.choice([0.3, 0.65, 1.2])
    if name == "focuss":
        case["p"] = r.choice([1.0, 1.0, 0.5, 0.8])
    if name == "omp" or name in ("mp", "cosamp", "sp", "htp", "iht"):
        if r.random() < 0.5:
            case["rtol"] = r.choice([1e-1, 1e-2, 1e-3, 1e-6, 0.0])
    if name == "l1ls":
        case["lambda"] = r.choice([0.3, 0.1, 0.05, 0.01])
        case["pcg"] = r.choice([1, 2, 5, 20, 40])
    if name.startswith("fom-l1"):
        case["lambda"] = r.choice([0.3, 0.05, 0.01])
    if name in ("spgl1-lasso", "spgl1-lasso-from", "fom-lasso"):
        case["tau"] = r.choice([0.1, 1.0, 2.0, 5.0])
    if name in ("spgl1-bpic", "spgl1-bpic-from"):
        case["sigma"] = r.choice([0.01, 0.1, 0.5])
    if name.startswith("spgl1-bp") and r.random() < 0.4:
        case["matvec"] = r.choice([4, 7, 10, 20])
    if name == "yall1-rho":
        case["rho"] = r.choice([1e-3, 1e-2, 0.1])
    if name == "yall1-delta":
        case["delta"] = r.choice([1e-3, 1e-2, 0.1])
    if name.startswith("yall1"):
        case["tol"] = r.choice([5e-2, 5e-3, 1e-4])
    if name in ("ista", "fista", "l1ls") or name.startswith(("yall1", "fom-")) and r.random() < 0.4:
        case["warm"] = r.choice([0.0, 0.3, 1.0])
    if name in ("cg", "pcg", "lsqr", "spg") or name.endswith("-from"):
        case["warm"] = r.choice([0.0, 1.0, 3.0])
    if name == "pcg":
        case["precond"] = r.random() < 0.5
    if name == "lsqr":
        case["damp"] = r.choice([0, 0, 0.1, 1.0])
    if name == "spg" and r.random() < 0.4:
        case["fcalls"] = r.choice([3, 6, 12, 30])
    return case


def gen_budget(r, spec):
    lo, hi = spec.budgets
    return r.randint(lo, hi)


def channels_of(spec):
    if spec.node is solvers.DataNode:
        return ("A", "y")
    if spec.name == "spg":
        return ("f", "g", "proj")
    if spec.node is not nodes.OperatorNode:
        return ("times",)
    return ("times", "trans")


def gen_faults(r, spec, budget, kinds=None, n=None):
    out = []
    kinds = kinds or kinds_for(spec)
    n = n if n is not None else r.choice([1, 1, 1, 2, 2, 3])
    for _ in range(n):
        at = r.choice([0, 1, 2, r.randint(0, 6), r.randint(0, max(2, 3 * budget))])
        ln = r.choice([1, 1, 1, 2, 3, -1, -1])
        out.append({"ch": r.choice(channels_of(spec)), "at": at, "len": ln,
                    "kind": r.choice(kinds), "seed": r.randrange(1 << 20)})
    return out


def make_node(spec, case, record=False, cap=None, faults=()):
    A, b, x = spec.problem(case)
    if case.get("sig") == "zero":
        b = np.zeros_like(b)
    nd = spec.node(A, record=record, cap=cap)
    if spec.name == "spg":
        nd.pending = list(faults)
    elif spec.node is solvers.DataNode:
        b = solvers.apply_data_faults(nd, b, faults)
    else:
        nd.plan(list(faults))
    return nd, A, b, x


def run(spec, nd, b, case, budget, tracker=None, line_cap=None, abort=None, compiled=False):
    """compiled: the solver's loops are compiled, as they are for a user."""
    return run_solo(lambda: spec.run(nd, jnp.asarray(b), case, budget, tracker),
                    mode=None if compiled or spec.compiled else jax.disable_jit, line_cap=line_cap, abort=abort, name=spec.name)


def shrink_case(case):
    for key in sorted(case.get("opt") or {}):
        yield dict(case, opt={k: v for k, v in case["opt"].items() if k != key})
    for key in list(case):
        if key in ("seed",):
            continue
        c = dict(case)
        del c[key]
        yield c
    if case["seed"] > 8:
        for s in (0, 1, 2):
            c = dict(case)
            c["seed"] = s
            yield c


def shrink_solver_plan(plan):
    fs = plan.get("faults", [])
    for k in range(len(fs)):
        p = dict(plan)
        p["faults"] = fs[:k] + fs[k + 1:]
        yield p
    lo = plan.get("lo", 1)
    for b in sorted({lo, plan["budget"] // 2, plan["budget"] - 1}):
        if lo <= b < plan["budget"]:
            p = dict(plan)
            p["budget"] = b
            yield p
    for k, fa in enumerate(fs):
        for key, vals in (("at", (0, fa["at"] // 2)), ("len", (1,)), ("kind", ("nan", "inf"))):
            for v in vals:
                if fa[key] != v and not (key == "kind" and fa["kind"] in vals):
                    g = dict(fa)
                    g[key] = v
                    p = dict(plan)
                    p["faults"] = fs[:k] + [g] + fs[k + 1:]
                    yield p
    for c in shrink_case(plan["case"]):
        p = dict(plan)
        p["case"] = c
        yield p


def merge_counts(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v
    return dst


def budget_ok(spec, its, budget):
    return its <= max(budget, spec.base) + (1 if spec.pair else 0)
