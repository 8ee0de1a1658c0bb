"""P06 - every iterative solver stops within its budget, whatever the operator answers."""
from ..solvers import SPECS
from .. import common
from ..util import rng_for, Violation, StepLimit, i

ID = "P06"
NAMES = [n for n in SPECS]
RUNS = {"quick": 24 * len(NAMES), "thorough": 150 * len(NAMES)}
GROUPS = len(NAMES)


def gen(idx, seed, tier):
    name = NAMES[idx % len(NAMES)]
    spec = SPECS[name]
    r = rng_for("P06", seed, idx)
    case = common.gen_case(r, spec)
    if r.random() < 0.08 and not name.startswith(common.LAPACK):
        case["sig"] = "zero"
    budget = common.gen_budget(r, spec)
    if name == "l1ls":
        budget = min(budget, 4)
        case["pcg"] = min(case["pcg"], 10)
    faults = [] if r.random() < 0.15 else common.gen_faults(r, spec, budget)
    return {"solver": name, "case": case, "budget": budget, "faults": faults, "lo": spec.budgets[0]}


def execute(plan):
    spec = SPECS[plan["solver"]]
    case, budget = plan["case"], plan["budget"]
    cap = spec.cap(budget)
    nd, A, b, x = common.make_node(spec, case, record=True, cap=cap, faults=plan["faults"])
    task = common.run(spec, nd, b, case, budget, line_cap=spec.lines(budget))
    if isinstance(task.error, StepLimit):
        raise Violation("no-progress", f"{spec.name}: budget {budget} iterations, gave up after "
                        f"{nd.seq} operator requests and {task.lines} lines ({task.error})")
    probes = {}
    if task.error is not None:
        if not nd.fired and case.get("sig") != "zero":
            raise Violation("raised", f"{spec.name}: {type(task.error).__name__}: {task.error}")
        probes["raised-under-fault"] = 1
        its = -1
    elif spec.iters:
        its = i(task.result.iterations)
        if not common.budget_ok(spec, its, budget):
            raise Violation("over-budget", f"{spec.name}: reports {its} iterations, budget {budget}")
        probes["hit-budget" if its >= budget else "stopped-early"] = 1
    else:
        its = -1
    return {"faults": nd.fired, "steps": task.lines, "requests": nd.seq,
            "sig": (spec.name, budget, its, nd.seq, sorted(nd.fired)),
            "nontrivial": bool(nd.fired) and nd.seq > 1, "probes": probes,
            "log": nd.history}


shrink = common.shrink_solver_plan
