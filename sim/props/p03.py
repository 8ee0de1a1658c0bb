"""P03 - reported run times are the elapsed time of the timed trials on a monotonic clock."""
import math

from .. import simfs
from ..experiment import World, gen_experiment, parse, quiet_run, shrink_experiment, Clock
from ..util import Violation, rng_for

ID = "P03"
RUNS = {"quick": 480, "thorough": 6000}
GROUPS = 8


def gen(idx, seed, tier):
    r = rng_for("P03", seed, idx)
    plan = gen_experiment(r, timing=True)
    plan["cost"] = r.choice([0.0, 0.01, 0.5, 20.0])
    plan["start"] = r.choice([0.0, 12.5, 1e5])
    plan["faults"] = [{"at": r.randint(0, 12), "kind": "slow", "secs": r.choice([3.0, 600.0])}
                      for _ in range(r.choice([0, 0, 1, 2]))]
    return plan


def execute(plan):
    clock = Clock(start=plan["start"])
    fs = simfs.SimFS(plan["faults"], clock=clock, cost=plan["cost"])
    try:
        world = World(plan, fs, clock)
        ev = world.build()
        exc = quiet_run(lambda: ev(fs.path("r.csv")), fs, clock)
        if exc is not None:
            raise Violation("other-error", f"the experiment failed with {type(exc).__name__}: {exc}")
        rows = parse(fs.read("r.csv") or b"")
        if rows is None or len(rows) != len(world.levels()):
            raise Violation("not-saved", "no complete table")
        per = plan["nd"] * plan["ns"]
        for n, d in enumerate(rows):
            calls = world.calls[n * per:(n + 1) * per]
            want = sum(c.secs for c in calls[1:])
            tol = 1e-6 * (abs(plan["start"]) + clock.now) + 1e-6
            if abs(d["runtime"] - want) > tol:
                raise Violation("runtime", f"row {n}: runtime={d['runtime']}, the trials after the first took {want} s "
                                f"(first {calls[0].secs} s)")
            mean = want * 1000 / max(per - 1, 1)
            if abs(d["mean_runtime"] - mean) > 1000 * tol:
                raise Violation("mean-runtime", f"row {n}: mean_runtime={d['mean_runtime']}, expected {mean} ms")
            if not (math.isfinite(d["runtime"]) and d["runtime"] >= 0):
                raise Violation("runtime", f"row {n}: runtime={d['runtime']}")
        faults = dict(fs.fired)
        for k, v in world.fired.items():
            faults[k] = faults.get(k, 0) + v
        return {"faults": faults, "steps": fs.n, "requests": len(world.calls), "simtime": clock.now - plan["start"],
                "sig": ([c.secs for c in world.calls], per, plan["cost"], sorted(faults)),
                "nontrivial": per > 1, "probes": {"single-trial": int(per == 1), "clock-reads": clock.reads},
                "log": [[d["runtime"], d["mean_runtime"]] for d in rows]}
    finally:
        fs.destroy()


def shrink(plan):
    for key, val in (("cost", 0.0), ("start", 0.0)):
        if plan[key] != val:
            p = dict(plan)
            p[key] = val
            yield p
    yield from shrink_experiment(plan)
