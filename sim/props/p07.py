"""P07 - reported operator-application counters equal the applications that happened."""
from ..solvers import SPECS
from .. import common
from ..util import rng_for, Violation, StepLimit, i

ID = "P07"
NAMES = [n for n, s in SPECS.items() if s.counts or s.extra_counts]
RUNS = {"quick": 60 * len(NAMES), "thorough": 500 * len(NAMES)}
GROUPS = len(NAMES)


def gen(idx, seed, tier):
    name = NAMES[idx % len(NAMES)]
    spec = SPECS[name]
    r = rng_for("P07", seed, idx)
    case = common.gen_case(r, spec)
    budget = common.gen_budget(r, spec)
    if name == "l1ls":
        budget = min(budget, 4)
        case["pcg"] = min(case["pcg"], 10)
    faults = [] if r.random() < 0.5 else common.gen_faults(r, spec, budget)
    return {"solver": name, "case": case, "budget": budget, "faults": faults,
            "lo": spec.budgets[0], "track": spec.tracker and r.random() < 0.7}


def fields(spec):
    return spec.extra_counts or {"n_times": "times", "n_trans": "trans"}


def execute(plan):
    spec = SPECS[plan["solver"]]
    case, budget = plan["case"], plan["budget"]
    nd, A, b, x = common.make_node(spec, case, record=True, cap=spec.cap(budget) * 4, faults=plan["faults"])
    seen = []

    def tracker(state, more=False):
        seen.append({k: (i(getattr(state, k)), nd.count(ch)) for k, ch in fields(spec).items()})
    task = common.run(spec, nd, b, case, budget, tracker=tracker if plan["track"] else None,
                      line_cap=4 * spec.lines(budget))
    if task.error is not None:
        if isinstance(task.error, StepLimit) or (not nd.fired):
            raise Violation("no-record", f"{spec.name}: {type(task.error).__name__}: {task.error}")
        return {"faults": nd.fired, "steps": task.lines, "requests": nd.seq, "sig": ("raised", spec.name),
                "nontrivial": False, "probes": {"raised-under-fault": 1}, "log": nd.history}
    got = {k: (i(getattr(task.result, k)), nd.count(ch)) for k, ch in fields(spec).items()}
    for where, rec in [(f"state {n}", s) for n, s in enumerate(seen)] + [("result", got)]:
        for k, (rep, act) in rec.items():
            if rep != act:
                raise Violation("count:" + k, f"{spec.name}: {where} reports {k}={rep}, operator served {act} (budget {budget})")
    return {"faults": nd.fired, "steps": task.lines, "requests": nd.seq,
            "sig": (spec.name, budget, sorted((k, v[0]) for k, v in got.items())),
            "nontrivial": nd.seq > 2, "probes": {"tracked-states": len(seen)}, "log": nd.history}


shrink = common.shrink_solver_plan
