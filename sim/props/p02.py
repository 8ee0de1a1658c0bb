"""P02 - the experiment's table is a truthful ledger of the trials that were run."""
import math

import numpy as np

from .. import simfs
from ..experiment import World, gen_experiment, parse, quiet_run, shrink_experiment
from ..util import Violation, rng_for, SimFault, SimAbort

ID = "P02"
RUNS = {"quick": 640, "thorough": 9000}
GROUPS = 8


def gen(idx, seed, tier):
    r = rng_for("P02", seed, idx)
    plan = gen_experiment(r)
    if r.random() < 0.25:
        s = r.choice(plan["solvers"])
        a = dict(r.choice(s["answers"]))
        a["q"] = r.choice(["raise", "abort"])
        s["answers"].insert(r.randint(1, len(s["answers"])), a)
    faults = []
    if r.random() < 0.3:
        faults.append({"at": r.randint(0, 8), "kind": r.choice(["enospc", "eio", "short"]), "frac": 0.5})
    plan["faults"] = faults
    # another experiment alive in the same process, run before or after this one
    plan["other"] = r.choice(["none", "none", "before", "nested"])
    plan["again"] = r.random() < 0.15
    plan["other_Ks"] = r.sample([1, 2, 3], 1)
    return plan


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9)


def judge(plan, world, rows, where, prior=()):
    per = plan["nd"] * plan["ns"]
    levels = world.levels()
    if len(rows) > len(levels):
        raise Violation("phantom-rows", f"{where}: {len(rows)} rows for {len(levels)} levels")
    for n, d in enumerate(rows):
        nm, k = levels[n]
        calls = world.calls[n * per:(n + 1) * per]
        if len(calls) < per:
            raise Violation("phantom-rows", f"{where}: row {n} reported, only {len(calls)} of its {per} trials ran")
        its = [c.iters for c in calls]
        succ = sum(c.success for c in calls)
        want = {"method": nm, "m": plan["M"], "n": plan["N"], "k": k, "trials": per, "successes": succ,
                "failures": per - succ, "success_rate": succ / per, "min_iters": min(its), "max_iters": max(its),
                "mean_iters": sum(its) / per}
        for key, v in want.items():
            got = d[key]
            same = got == v if isinstance(v, str) else close(float(got), float(v))
            if not same:
                raise Violation("row:" + key, f"{where}: row {n} ({nm}, K={k}): {key}={got}, the trials say {v} "
                                f"(qualities {[c.quality for c in calls]}, iterations {its})")


def judge_trials(plan, world):
    """Which problems were posed, to whom and in which order."""
    per = plan["nd"] * plan["ns"]
    levels = world.levels()
    if len(world.calls) > per * len(levels):
        raise Violation("trials", f"{len(world.calls)} solver calls for {len(levels)} levels of {per} trials")
    posed, signals = {}, {}
    for n, c in enumerate(world.calls):
        nm, k = levels[n // per]
        if (c.solver, c.K) != (nm, k):
            raise Violation("order", f"call {n} went to {c.solver} with K={c.K}, expected {nm} with K={k}")
        nz = int(np.count_nonzero(c.x))
        if nz != k:
            raise Violation("sparsity", f"call {n}: the signal has {nz} nonzero entries, K={k}")
        posed.setdefault(n // per, []).append((c.phi, c.y))
        signals.setdefault(n // per, []).append(np.asarray(c.x, dtype=float))
    ref = {}
    for at, probs in posed.items():
        nm, k = levels[at]
        if len(probs) == per:
            dicts = [probs[d * plan["ns"]][0] for d in range(plan["nd"])]
            for d in range(plan["nd"]):
                for s in range(plan["ns"]):
                    if probs[d * plan["ns"] + s][0] != dicts[d]:
                        raise Violation("dictionaries", f"{nm} K={k}: the dictionary changes within its {plan['ns']} signals")
            if len(set(dicts)) != plan["nd"]:
                raise Violation("dictionaries", f"{nm} K={k}: {len(set(dicts))} distinct dictionaries, {plan['nd']} requested")
            if len(set(probs)) != per:
                raise Violation("signals", f"{nm} K={k}: {len(set(probs))} distinct problems among {per} trials")
            xs = signals[at]
            for a in range(per):
                for d in range(a):
                    if np.max(np.abs(xs[a] - xs[d])) <= 1e-3 * np.max(np.abs(xs[a])):
                        raise Violation("signals", f"{nm} K={k}: trials {d} and {a} pose the same signal")
        old = ref.setdefault(at % len(plan["Ks"]), probs)
        m = min(len(old), len(probs))
        if old[:m] != probs[:m]:
            raise Violation("unfair", f"K={k}: {nm} was given other problems than the first solver")
    alls = [p[0] for probs in ref.values() for p in probs]
    per_level = [set(p[0] for p in probs) for probs in ref.values()]
    if sum(len(s) for s in per_level) != len(set(alls)):
        raise Violation("dictionaries", "two sparsity levels share a dictionary")


def execute(plan):
    fs = simfs.SimFS(plan["faults"])
    fs2 = None
    try:
        world = World(plan, fs)
        ev = world.build()
        probes = {}
        oplan = {"M": plan["M"], "N": plan["N"], "Ks": plan["other_Ks"], "nd": 1, "ns": 2, "kt": "list",
                 "solvers": [{"name": "OTHER", "answers": [{"q": "exact", "it": 3, "secs": 0.0}, {"q": "zero", "it": 5, "secs": 0.0}]}]}
        other = World(oplan, fs)
        oev = other.build() if plan["other"] != "none" else None
        state = {"nested": False}

        def run_other():
            saved, fs.faults = fs.faults, {}
            try:
                oev(fs.path("other.csv"))
            finally:
                fs.faults = saved
        if plan["other"] == "before":
            exc = quiet_run(run_other, fs)
            if exc is not None:
                raise Violation("other-error", f"{type(exc).__name__}: {exc}")

        def on_call(c):
            n = len(world.calls)
            per = plan["nd"] * plan["ns"]
            if plan["other"] == "nested" and not state["nested"] and n == min(1, per):
                state["nested"] = True
                run_other()
            if n % per == 0:
                content = fs.read("r.csv")
                rows = parse(content) if content is not None else []
                if rows is None or len(rows) != n // per:
                    raise Violation("not-saved", f"before trial {n}: {n // per} levels are finished, the file has "
                                    f"{None if rows is None else len(rows)} rows")
                judge(plan, world, rows, f"before trial {n}")
                probes["level-boundary"] = probes.get("level-boundary", 0) + 1
        world.on_call = on_call
        exc = quiet_run(lambda: ev(fs.path("r.csv")), fs)
        world.on_call = None
        if isinstance(exc, Violation):
            raise exc
        content = fs.read("r.csv")
        rows = parse(content) if content is not None else []
        if rows is None:
            raise Violation("table-damaged", f"after the run: {content[:100]!r}")
        judge_trials(plan, world)
        judge(plan, world, rows, "at the end")
        if exc is None:
            if len(rows) != len(world.levels()):
                raise Violation("not-saved", f"the run returned, {len(rows)} rows for {len(world.levels())} levels")
            if len(ev.df) != len(rows):
                raise Violation("table", f"table has {len(ev.df)} rows, the file {len(rows)}")
            probes["completed"] = 1
        else:
            if not isinstance(exc, (SimFault, SimAbort, OSError)):
                raise Violation("other-error", f"the experiment failed with {type(exc).__name__}: {exc}")
            probes["ended-by-" + type(exc).__name__] = 1
        if plan.get("again"):
            # the same experiment object run once more, to another file: its table goes on
            first, world.calls = world.calls, []
            kept, fs.faults = len(ev.df), {}
            exc2 = quiet_run(lambda: ev(fs.path("r2.csv")), fs)
            second = world.calls
            rows2 = parse(fs.read("r2.csv") or b"") or []
            if exc2 is not None and not isinstance(exc2, (SimFault, SimAbort, OSError)):
                raise Violation("other-error", f"run again, the experiment failed with {type(exc2).__name__}: {exc2}")
            if rows2 or exc2 is None:
                judge_trials(plan, world)
                judge(plan, world, rows2[kept:], "run again")
                if exc2 is None and len(rows2) != kept + len(world.levels()):
                    raise Violation("not-saved", f"run again: {len(rows2)} rows, {kept} before and {len(world.levels())} now")
            world.calls = first
            if rows2:
                judge(plan, world, rows2[:kept], "run again, earlier rows")
            world.calls = first + second
            probes["run-again"] = 1
        if plan["other"] == "before" or state["nested"]:
            orows = parse(fs.read("other.csv") or b"")
            if orows is None:
                raise Violation("table-damaged", "the other experiment's table")
            judge_trials(oplan, other)
            judge(oplan, other, orows, "other experiment")
            if len(orows) != len(other.levels()):
                raise Violation("not-saved", "the other experiment's rows are missing")
            probes["two-experiments"] = 1
        faults = dict(fs.fired)
        for k, v in world.fired.items():
            faults[k] = faults.get(k, 0) + v
        for c in world.calls:
            if c.quality in ("nan", "wrong", "zero", "poor", "fair") or c.quality == "swap" and not c.success:
                faults["answer-" + c.quality] = faults.get("answer-" + c.quality, 0) + 1
        return {"faults": faults, "steps": fs.n, "requests": len(world.calls),
                "sig": ([c.quality for c in world.calls], plan["Ks"], plan["nd"], plan["ns"], plan["other"], type(exc).__name__),
                "nontrivial": len(world.calls) > 1, "probes": probes,
                "log": [[c.solver, c.K, c.phi, c.y, c.quality] for c in world.calls] + [[d["successes"], d["mean_iters"]] for d in rows]}
    finally:
        fs.destroy()


def shrink(plan):
    if plan.get("again"):
        yield dict(plan, again=False)
    if plan["other"] != "none":
        p = dict(plan)
        p["other"] = "none"
        yield p
    yield from shrink_experiment(plan)
