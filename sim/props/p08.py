"""P08 - wherever a solve stops, the record it hands back is internally consistent."""
import numpy as np

from ..solvers import SPECS, warm, opts, kmeans
from .. import common
from ..util import rng_for, Violation, StepLimit, i

ID = "P08"
NAMES = [n for n, s in SPECS.items() if s.record and n != "lanbpro"]
RUNS = {"quick": 32 * len(NAMES), "thorough": 200 * len(NAMES)}
GROUPS = len(NAMES)
TOL = 2e-4
STEP = ("ista", "fista", "power", "spg", "kmeans", "fom-l1rls", "fom-lasso", "fom-owl1rls",
        "spgl1-lasso", "spgl1-bpic", "spgl1-bp", "spgl1-bpic-from", "spgl1-lasso-from")


def gen(idx, seed, tier):
    name = NAMES[idx % len(NAMES)]
    spec = SPECS[name]
    r = rng_for("P08", seed, idx)
    case = common.gen_case(r, spec)
    plan = {"solver": name, "case": case, "budget": common.gen_budget(r, spec),
            "lo": spec.budgets[0], "track": spec.tracker and r.random() < 0.8}
    if r.random() < 0.3:
        plan["compiled"], plan["track"] = True, False
    elif name.removeprefix("m-") in common.GREEDY and r.random() < 0.7:
        plan["cuts"] = True          # stop it at every earlier iteration as well
        plan["budget"] = max(plan["budget"], r.randint(*spec.budgets))
    return plan


def a64(v):
    v = np.asarray(v)
    return v.astype(np.complex128 if v.dtype.kind == "c" else np.float64)


def close(spec, where, what, got, want, scale, tol=TOL):
    got, want = a64(got), a64(want)
    if got.shape != want.shape and got.size != want.size:
        raise Violation("record:" + what, f"{spec.name} {where}: {what} has shape {got.shape}, expected {want.shape}")
    err = float(np.linalg.norm(np.ravel(got) - np.ravel(want)))
    if not err <= tol * scale + 1e-12:
        raise Violation("record:" + what, f"{spec.name} {where}: {what} off by {err:.3e} (scale {scale:.3e})")


def check_record(spec, where, rec, A, b, case, budget, scaled=False):
    """scaled: the solver's iterates describe the problem for b/|b|."""
    A, b = a64(A), a64(b)
    nb = float(np.linalg.norm(b))
    if scaled:
        b = b / nb
        nb = 1.0
    nA = float(np.linalg.norm(A, 2))
    rules = spec.record
    probes = {}
    fin = all(np.all(np.isfinite(a64(v))) for k, v in rec._asdict().items() if k in ("x", "x_I", "r", "y", "z"))
    if not fin:
        return {"nonfinite": 1}
    its = i(rec.iterations)
    if "support" in rules:
        I = np.atleast_1d(np.asarray(rec.I)).astype(int)
        xI = np.atleast_1d(a64(rec.x_I))
        if I.shape != xI.shape or I.ndim != 1:
            raise Violation("record:support", f"{spec.name} {where}: |I|={I.shape} |x_I|={xI.shape}")
        if I.size and (I.min() < 0 or I.max() >= A.shape[1]):
            raise Violation("record:support", f"{spec.name} {where}: index out of range {I}")
        limit = budget if spec.name in ("omp", "m-omp") else case.get("K", 3)
        if I.size > limit:
            raise Violation("record:support", f"{spec.name} {where}: {I.size} atoms, at most {limit} allowed")
        scale = nb + nA * float(np.linalg.norm(xI))
        close(spec, where, "residual", rec.r, b - A[:, I] @ xI, scale)
        r2 = float(np.linalg.norm(a64(rec.r))) ** 2
        close(spec, where, "residual energy", rec.r_norm_sqr, r2, r2 + 1e-9 * nb * nb, 1e-3)
        if not scaled and len(set(I.tolist())) == I.size:
            full = np.zeros(A.shape[1], dtype=xI.dtype)
            full[I] = xI
            close(spec, where, "dense form", rec.x, full, 1e-6 + float(np.linalg.norm(xI)))
            if i(rec.length) != A.shape[1]:
                raise Violation("record:length", f"{spec.name} {where}: length {rec.length}")
        probes["atoms"] = int(I.size)
    if "full" in rules:
        x = a64(rec.x)
        scale = nb + nA * float(np.linalg.norm(x))
        tol = 2e-3 if spec.name in ("cg", "pcg") else TOL
        close(spec, where, "residual", rec.r, b - A @ x, scale, tol)
    if "fista" in rules:
        z = a64(rec.z)
        close(spec, where, "residual", rec.r, b - A @ z, nb + nA * float(np.linalg.norm(z)))
    if "rnorm2" in rules:
        r2 = float(np.linalg.norm(a64(rec.r))) ** 2
        close(spec, where, "residual energy", rec.r_norm_sqr, r2, r2 + 1e-9 * nb * nb, 1e-3)
    if "rnorm" in rules:
        rn = float(np.linalg.norm(a64(rec.r)))
        close(spec, where, "residual norm", rec.r_norm, rn, rn + 1e-6 * nb, 1e-3)
    if "grad" in rules:
        r_ = a64(rec.r)
        close(spec, where, "gradient", rec.g, -A.T @ r_, nA * (nb + float(np.linalg.norm(r_))))
    if "fval" in rules:
        r_ = float(np.linalg.norm(a64(rec.r)))
        close(spec, where, "objective", np.asarray(rec.f_past)[0], 0.5 * r_ ** 2, 0.5 * r_ ** 2 + 1e-6 * nb * nb, 1e-3)
    if rules[-1] == "spgl1":
        metrics(spec, where, rec, b, case, nb)
    if "lsqr" in rules and its <= min(A.shape):
        x = a64(rec.x)
        x0 = a64(warm_of(spec, A, case))
        damp = float(case.get("damp") or 0)
        nx = float(np.linalg.norm(x))
        res = b - A @ x
        dx = x - x0
        scale = nb + nA * (nx + float(np.linalg.norm(x0)))
        close(spec, where, "residual norm", rec.r_norm, float(np.hypot(np.linalg.norm(res), damp * np.linalg.norm(dx))), scale, 2e-2)
        if its:
            close(spec, where, "norm of the normal residual", rec.atr_norm, float(np.linalg.norm(A.T @ res - damp ** 2 * dx)), nA * scale, 2e-2)
            if not np.any(x0):
                close(spec, where, "solution norm", rec.x_norm, nx, nx + 1e-6 * nb, 2e-2)
    if "power" in rules:
        v = a64(rec.v)
        nv = float(np.linalg.norm(v))
        if its and abs(nv - 1) > 1e-3:
            raise Violation("record:unit", f"{spec.name} {where}: |v|={nv}")
        if its:
            lam = np.linalg.eigvalsh((A + A.T) / 2)
            s_ = float(rec.s)
            if not lam[0] - 1e-3 * nA <= s_ <= lam[-1] + 1e-3 * nA:
                raise Violation("record:estimate", f"{spec.name} {where}: eigenvalue estimate {s_} outside the spectrum [{lam[0]}, {lam[-1]}]")
            if float(v @ A @ v) < s_ - 1e-3 * nA:
                raise Violation("record:estimate", f"{spec.name} {where}: estimate {s_} exceeds the Rayleigh quotient {float(v @ A @ v)} of the vector returned")
    if "unit" in rules and its:
        nx = float(np.linalg.norm(a64(rec.x)))
        if abs(nx - 1) > 1e-3:
            raise Violation("record:unit", f"{spec.name} {where}: |x|={nx}")
    if "fom" in rules:
        for nm in ("x", "y", "z"):
            v = a64(getattr(rec, nm))
            close(spec, where, "A_" + nm, getattr(rec, "A_" + nm), A @ v, nA * (1e-6 + float(np.linalg.norm(v))))
        fx = 0.5 * float(np.linalg.norm(a64(rec.A_x) - b)) ** 2
        close(spec, where, "objective", rec.f_x, fx, fx + 1e-6 * nb * nb, 1e-3)
        close(spec, where, "gradient", rec.g_Ax, a64(rec.A_x) - b, nb + float(np.linalg.norm(a64(rec.A_x))))
        nx = float(np.linalg.norm(a64(rec.x)))
        close(spec, where, "norm_x", rec.norm_x, nx, nx + 1e-6, 1e-3)
        ry = a64(rec.A_y) - b
        fy = 0.5 * float(np.linalg.norm(ry)) ** 2
        close(spec, where, "objective at y", rec.f_y, fy, fy + 1e-6 * nb * nb, 1e-3)
        close(spec, where, "gradient at A y", rec.g_Ay, ry, nb + float(np.linalg.norm(a64(rec.A_y))))
        close(spec, where, "gradient at y", rec.g_y, A.T @ a64(rec.g_Ay), nA * (nb + float(np.linalg.norm(ry))))
        z = a64(rec.z)
        n1 = float(np.abs(z).sum())
        if spec.name == "fom-l1rls":
            close(spec, where, "penalty at z", rec.C_z, case.get("lambda", 0.05) * n1, n1 + 1e-6, 1e-3)
        elif spec.name == "fom-lasso":
            tau = case.get("tau", 2.0)
            if n1 > tau * (1 + 1e-3):
                raise Violation("record:feasible", f"{spec.name} {where}: |z|_1 = {n1}, tau = {tau}")
            close(spec, where, "penalty at z", rec.C_z, 0.0, 1.0)
        else:
            want = float((np.linspace(0.1, 0.01, len(z)) * np.sort(np.abs(z))[::-1]).sum())
            close(spec, where, "penalty at z", rec.C_z, want, n1 + 1e-6, 1e-3)
    if "spg" in rules:
        x = a64(rec.x)
        r_ = A @ x - b
        close(spec, where, "gradient", rec.g, A.T @ r_, nA * (nb + nA * float(np.linalg.norm(x))))
        fx = 0.5 * float(np.linalg.norm(r_)) ** 2
        close(spec, where, "objective", np.asarray(rec.f_past)[0], fx, fx + (nb + nA * np.linalg.norm(x)) ** 2, 1e-3)
        if np.max(np.abs(x)) > 1 + 1e-4:
            raise Violation("record:feasible", f"{spec.name} {where}: iterate leaves the feasible box: {np.max(np.abs(x))}")
    if "biht" in rules:
        I, xI = np.asarray(rec.I).astype(int), a64(rec.x_I)
        if I.shape != xI.shape or len(set(I.tolist())) != I.size or I.size != case.get("K", 3):
            raise Violation("record:support", f"{spec.name} {where}: I={I} x_I={xI}")
        v = A[:, I] @ xI
        safe = np.abs(v) > 1e-4 * (1e-9 + nA * np.linalg.norm(xI)) if its else np.ones(len(v), bool)
        want = np.sign(b) - np.sign(v)
        if not np.array_equal(a64(rec.r)[safe], want[safe]):
            raise Violation("record:residual", f"{spec.name} {where}: sign residual differs from y - sign(Phi x)")
        if i(rec.n_mismatched_bits) != int(np.sum(a64(rec.r) != 0)):
            raise Violation("record:mismatches", f"{spec.name} {where}: reports {rec.n_mismatched_bits} mismatches")
    if "kmeans" in rules:
        C, asg = a64(rec.centroids), np.asarray(rec.assignment).astype(int)
        D = np.linalg.norm(A[:, None, :] - C[None, :, :], axis=2)
        if np.all(np.isfinite(C)):
            if np.any(D[np.arange(len(A)), asg] > D.min(axis=1) + 1e-3):
                raise Violation("record:assignment", f"{spec.name} {where}: a point is not assigned to its nearest centroid")
            if "restart" in rules:
                again = a64(kmeans.kmeans_with_seed(rec.key, A.astype(np.float32), len(C), max_iters=budget, **opts(case, "thresh")).distortion)
                close(spec, where, "distortion of the run named by the key", rec.distortion, again, 1 + nA, 1e-3)
            close(spec, where, "distortion", rec.distortion, D[np.arange(len(A)), asg].mean(), 1 + nA, 1e-4)
    if "lanbpro" in rules:
        j = its
        U, V = a64(rec.U), a64(rec.V)
        al, be = a64(rec.alpha), a64(rec.beta)
        k = min(j, U.shape[1])
        scale = nA
        for t in range(k):
            # A^T u_t = alpha_t v_t + beta_t v_{t-1}
            want = al[t] * V[:, t] + (be[t] * V[:, t - 1] if t else 0)
            close(spec, where, "recurrence A^T u", A.T @ U[:, t], want, scale, 5e-3)
        for t in range(k - 1):
            want = be[t + 1] * U[:, t + 1] + al[t] * U[:, t]
            close(spec, where, "recurrence A v", A @ V[:, t], want, scale, 5e-3)
        G = U[:, :k].T @ U[:, :k] - np.eye(k)
        if np.max(np.abs(G)) > 5e-2:
            raise Violation("record:orthogonality", f"{spec.name} {where}: U loses orthogonality {np.max(np.abs(G)):.2e}")
    return probes


def warm_of(spec, A, case):
    class _nd:
        mat = A
    return np.asarray(warm(_nd, case))


def metrics(spec, where, rec, b, case, nb):
    """What SPGL1 reports about the distance from the solution."""
    x, r_, g = a64(rec.x), a64(rec.r), a64(rec.g)
    rn = float(np.linalg.norm(r_))
    f_ = 0.5 * rn * rn
    fm, rm = max(1.0, f_), max(1.0, rn)
    gap = lambda tau: abs(float(r_ @ (r_ - b)) + tau * float(np.abs(g).max())) / fm
    mag = lambda tau: (rn * rn + rn * nb + tau * float(np.abs(g).max())) / fm + 1e-9
    its = i(rec.iterations)
    if spec.name.startswith("spgl1-lasso"):
        tau = case.get("tau", 2.0)
        close(spec, where, "duality gap", rec.r_gap, gap(tau), mag(tau), 1e-3)
    else:
        tau = float(rec.tau)
        sigma = case.get("sigma", 0.1) if "bpic" in spec.name else 0.0
        close(spec, where, "residual error", rec.r_res_error, abs(rn - sigma) / rm, (rn + sigma) / rm + 1e-9, 1e-3)
        close(spec, where, "objective error", rec.r_f_error, abs(f_ - sigma ** 2 / 2) / fm, (f_ + sigma ** 2) / fm + 1e-9, 1e-3)
        if not bool(rec.tau_changed):
            close(spec, where, "duality gap", rec.r_gap, gap(tau), mag(tau), 1e-3)
        if its <= 1:
            return       # the first tau is a Newton step away from the starting point
    n1 = float(np.abs(x).sum())
    if n1 > tau * (1 + 1e-3) + 1e-6 * (1 + nb):
        raise Violation("record:feasible", f"{spec.name} {where}: |x|_1 = {n1}, tau = {tau}")


def check_step(spec, prev, rec, A, b, case):
    """What the record says about the step that led to it."""
    A, b = a64(A), a64(b)
    nA = float(np.linalg.norm(A, 2))
    where = "last step"
    if not all(np.all(np.isfinite(a64(getattr(q, nm)))) for q in (prev, rec) for nm in ("x", "v", "mu_x", "centroids") if hasattr(q, nm)):
        return
    if spec.name in ("ista", "fista") or "fom" in spec.record:
        dx = float(np.linalg.norm(a64(rec.x) - a64(prev.x)))
        nx = float(np.linalg.norm(a64(rec.x))) + float(np.linalg.norm(a64(prev.x)))
        name = "norm_dx" if "fom" in spec.record else "x_change_norm"
        close(spec, where, name, getattr(rec, name), dx, dx + 1e-3 * nx + 1e-9, 1e-2)
    if "fom" in spec.record:
        th = float(rec.theta)
        nx = 1e-6 + sum(float(np.linalg.norm(a64(v))) for v in (prev.x, prev.z, rec.z))
        close(spec, where, "x combines the previous x and z", rec.x, (1 - th) * a64(prev.x) + th * a64(rec.z), nx)
        close(spec, where, "y combines the previous x and z", rec.y, (1 - th) * a64(prev.x) + th * a64(prev.z), nx)
    if "power" in spec.record:
        v = a64(prev.v)
        close(spec, where, "eigenvalue estimate", rec.s, float(v @ A @ v), nA, 1e-3)
        w = A @ v
        close(spec, where, "vector", rec.v, w / np.linalg.norm(w), 1.0, 1e-2)
    if "spg" in spec.record:
        close(spec, where, "x_prev", rec.x_prev, a64(prev.x), 1e-3 + float(np.linalg.norm(a64(prev.x))))
        close(spec, where, "g_prev", rec.g_prev, a64(prev.g), 1e-3 + float(np.linalg.norm(a64(prev.g))))
    if hasattr(rec, "f_past") and np.asarray(rec.f_past).size > 1:
        m = np.asarray(rec.f_past).size
        want = a64(prev.f_past)[:m - 1]
        close(spec, where, "past objective values", a64(rec.f_past)[1:], want, 1e-9 + float(np.linalg.norm(want)))
    if "kmeans" in spec.record:
        close(spec, where, "previous distortion", rec.prev_distortion, a64(prev.distortion), abs(float(prev.distortion)) + 1e-9)


def execute(plan):
    spec = SPECS[plan["solver"]]
    case, budget = plan["case"], plan["budget"]
    nd, A, b, x = common.make_node(spec, case, record=True, cap=spec.cap(budget) * 4)
    states = []

    def tracker(state, more=False):
        states.append(state)
    comp = bool(plan.get("compiled"))
    lines = 4 * spec.lines(budget) + (1000000 if comp else 0)
    task = common.run(spec, nd, b, case, budget, tracker=tracker if plan["track"] else None,
                      line_cap=lines, compiled=comp)
    if task.error is not None:
        raise Violation("no-record", f"{spec.name}: {type(task.error).__name__}: {task.error}")
    probes = {}
    for n, st in enumerate(states):
        common.merge_counts(probes, check_record(spec, f"state {n}", st, A, b, case, budget,
                                                  scaled=spec.name in ("cosamp", "sp")))
    if spec.name == "normest":
        nA = float(np.linalg.norm(a64(A), 2))
        got = float(task.result)
        if not 0 < got <= nA * (1 + 1e-3):
            raise Violation("record:estimate", f"normest: {got}, the norm is {nA}")
        its = nd.count("times")
        probes["estimates"] = 1
    else:
        common.merge_counts(probes, check_record(spec, "result", task.result, A, b, case, budget))
        its = i(task.result.iterations)
    if spec.name in STEP and its > max(spec.base, 1):
        ndp = common.make_node(spec, case, record=True, cap=spec.cap(budget) * 4)[0]
        tp = common.run(spec, ndp, b, case, its - 1, line_cap=lines, compiled=comp)
        if tp.error is not None:
            raise Violation("no-record", f"{spec.name}: {type(tp.error).__name__}: {tp.error}")
        if i(tp.result.iterations) == its - 1:
            check_step(spec, tp.result, task.result, A, b, case)
            probes["steps-checked"] = 1
    for k in range(plan["lo"], its) if plan.get("cuts") else ():
        ndk = common.make_node(spec, case, record=True, cap=spec.cap(budget) * 4)[0]
        tk = common.run(spec, ndk, b, case, k, line_cap=lines)
        if tk.error is not None:
            raise Violation("no-record", f"{spec.name} stopped after {k} of {its} iterations: {type(tk.error).__name__}: {tk.error}")
        common.merge_counts(probes, check_record(spec, f"result after {k} of {its} iterations", tk.result, A, b, case, k))
        probes["cuts"] = probes.get("cuts", 0) + 1
    return {"faults": {"budget-cut": 1 if its >= budget else 0}, "steps": task.lines, "requests": nd.seq,
            "sig": (spec.name, case["seed"], budget, its),
            "nontrivial": its >= 1, "probes": common.merge_counts(probes, {"compiled": int(comp)}), "log": nd.history}


def shrink(plan):
    if plan.get("compiled"):
        yield {k: v for k, v in plan.items() if k != "compiled"}
    if plan.get("cuts"):
        yield {k: v for k, v in plan.items() if k != "cuts"}
    yield from common.shrink_solver_plan(plan)
