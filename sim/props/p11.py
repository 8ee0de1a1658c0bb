"""P11 - a smaller iteration budget only cuts the run short: it is a prefix of the run with a larger one."""
import numpy as np

from ..solvers import SPECS, DataNode, opts
from .. import common
from ..util import Violation, StepLimit, rng_for, digest, i

ID = "P11"
NAMES = [n for n, s in SPECS.items() if s.prefix]
RUNS = {"quick": 14 * len(NAMES), "thorough": 120 * len(NAMES)}
GROUPS = len(NAMES)


def gen(idx, seed, tier):
    name = NAMES[idx % len(NAMES)]
    spec = SPECS[name]
    r = rng_for("P11", seed, idx)
    case = common.gen_case(r, spec)
    case.pop("matvec", None)
    case.pop("fcalls", None)
    if r.random() < 0.5:            # looser tolerances, to see solves stop by themselves
        case["opt"] = {**(case.get("opt") or {}), **common.loose_options(r, name)}
    lo, hi = spec.budgets
    if name == "l1ls":
        hi, case["pcg"] = 5, min(case["pcg"], 10)
    big = r.randint(lo + 1, hi)
    cuts = sorted(set(r.randint(lo, big) for _ in range(2)) | ({lo} if r.random() < 0.4 else set()) | ({big - 1} if r.random() < 0.4 else set()))
    faults = []
    if r.random() < 0.5:
        faults = common.gen_faults(r, spec, big)
    return {"solver": name, "case": case, "budget": big, "lo": lo, "cuts": cuts, "faults": faults,
            "beyond": r.choice([0, 1, 3, 50])}


def one(spec, plan, budget):
    nd, A, b, x = common.make_node(spec, plan["case"], record=True, cap=spec.cap(budget) * 4, faults=plan["faults"])
    states = []

    def tracker(state, more=False):
        states.append(state)
    task = common.run(spec, nd, b, plan["case"], budget, tracker=tracker if spec.tracker else None, line_cap=4 * spec.lines(budget))
    if task.error is not None and (isinstance(task.error, StepLimit) or not nd.fired):
        raise Violation("no-record", f"{spec.name} budget {budget}: {type(task.error).__name__}: {task.error}")
    return nd, states, task


def reps(spec, rec):
    """What of a record must not depend on a budget that was not reached."""
    d = rec._asdict() if hasattr(rec, "_asdict") else {"value": rec}
    return {k: np.asarray(v) for k, v in d.items() if v is not None and not callable(v)}


SHAPED = ("omp", "m-omp", "lanbpro")   # arrays are sized by the budget


def wrap_up(spec, case):
    """Requests made after the last iteration, for the record that is returned."""
    return 1 if spec.name.startswith("yall1") and opts(case, "nonneg").get("nonneg") else 0


def execute(plan):
    spec = SPECS[plan["solver"]]
    big = plan["budget"]
    nd, states, task = one(spec, plan, big)
    faults = dict(nd.fired)
    requests, steps = nd.seq, task.lines
    T = i(task.result.iterations) if task.error is None and spec.iters else None
    probes = {}
    log = [T, digest(nd.history)]
    more = []
    if T is not None and spec.base < T < big:       # it stops by itself: budgets around that
        more = [k for k in sorted({T, T + 1, (T + big) // 2, 3 * big}) if k != big and k not in plan["cuts"] and k >= plan["lo"]]
    for k in plan["cuts"] + more + ([big + plan["beyond"]] if plan["beyond"] else []):
        if k == big or spec.name in ("lanbpro",) and k > spec.budgets[1]:
            continue
        ndk, sk, tk = one(spec, plan, k)
        requests += ndk.seq
        steps += tk.lines
        if k < big:
            small, large, ts, tl, ks, kl, ss, sl = ndk, nd, tk, task, k, big, sk, states
        else:
            small, large, ts, tl, ks, kl, ss, sl = nd, ndk, task, tk, big, k, states, sk
        n = len(small.history)
        if ts.error is None:
            n -= wrap_up(spec, plan["case"])
        if small.history[:n] != large.history[:n]:
            at = next((j for j, (p, q) in enumerate(zip(small.history, large.history)) if p != q), min(n, len(large.history)))
            raise Violation("prefix:requests", f"{spec.name}: with budget {ks} operator request {at} of {n} differs from the run with budget {kl} "
                            f"({small.history[at][0] if at < n else 'extra'})")
        if ts.error is not None or tl.error is not None:
            probes["raised"] = probes.get("raised", 0) + 1
            if ts.error is None and spec.iters and spec.node is not DataNode and not i(ts.result.iterations) <= max(ks, spec.base) + spec.pair:
                raise Violation("prefix:iterations", f"{spec.name}: {i(ts.result.iterations)} iterations, budget {ks}")
            continue
        if spec.iters:
            is_, il = i(ts.result.iterations), i(tl.result.iterations)
            if is_ > il:
                raise Violation("prefix:iterations", f"{spec.name}: {is_} iterations with budget {ks}, {il} with {kl}")
            lim = max(ks, spec.base)
            if is_ < lim or il == is_:
                # it stopped by itself: the larger budget must change nothing
                if il != is_:
                    raise Violation("prefix:early-stop", f"{spec.name}: stops by itself after {is_} iterations with budget {ks}, runs {il} with {kl}")
                if spec.name not in SHAPED or is_ < ks:
                    a, b_ = reps(spec, ts.result), reps(spec, tl.result)
                    if spec.name in ("lanbpro",):
                        a, b_ = {}, {}
                    for key in sorted(set(a) & set(b_)):
                        if digest(a[key]) != digest(b_[key]):
                            raise Violation("prefix:result", f"{spec.name}: {key} differs between budgets {ks} and {kl}, both end after {is_} iterations")
                    probes["stopped-early"] = probes.get("stopped-early", 0) + 1
                if len(small.history) != len(large.history):
                    raise Violation("prefix:requests", f"{spec.name}: ends after {is_} iterations with {len(small.history)} and {len(large.history)} requests")
            else:
                probes["cut"] = probes.get("cut", 0) + 1
        if spec.tracker:
            a, b_ = [digest(s) for s in ss], [digest(s) for s in sl]
            if a != b_[:len(a)]:
                raise Violation("prefix:states", f"{spec.name}: the states shown with budget {ks} are not a prefix of those with {kl}")
        log.append([k, digest(ndk.history)])
    return {"faults": common.merge_counts(faults, {"budget-cut": probes.get("cut", 0)}), "steps": steps, "requests": requests,
            "sig": (spec.name, plan["case"]["seed"], T, plan["cuts"], sorted(nd.fired)),
            "nontrivial": bool(probes), "probes": probes, "log": log}


def shrink(plan):
    if len(plan["cuts"]) > 1 or plan["beyond"] and plan["cuts"]:
        for k in range(len(plan["cuts"])):
            yield dict(plan, cuts=plan["cuts"][:k] + plan["cuts"][k + 1:])
    if plan["beyond"] and plan["cuts"]:
        yield dict(plan, beyond=0)
    for p in common.shrink_solver_plan(plan):
        if p["budget"] >= max(plan["cuts"] or [0]):
            yield p
