"""P01 - results already saved by an experiment survive any crash, kill, power loss or disk fault."""
from .. import boot, simfs
from ..experiment import World, gen_experiment, parse, quiet_run, shrink_experiment, Clock
from ..util import Violation, derive, rng_for, digest

ID = "P01"
RUNS = {"quick": 800, "thorough": 9000}
GROUPS = 8
DEST = "results.csv"
KINDS = ["crash", "crash", "crash-after", "torn", "torn", "short", "enospc", "enospc", "eio", "edquot", "emfile"]


def gen(idx, seed, tier):
    r = rng_for("P01", seed, idx)
    plan = gen_experiment(r)
    levels = len(plan["solvers"]) * len(plan["Ks"])
    plan["pre"] = r.choice(["none", "none", "old-table", "other"])
    plan["dest"] = r.choice(["plain", "plain", "plain", "relative", "symlink"])
    faults = []
    if r.random() > 0.08:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            faults.append({"at": r.randint(0, 4 * (levels + 1)), "kind": r.choice(KINDS), "frac": round(r.random(), 3)})
    plan["faults"] = faults
    if r.random() < 0.3:
        s = r.choice(plan["solvers"])
        a = dict(r.choice(s["answers"]))
        a["q"] = r.choice(["raise", "abort", "kill"])
        s["answers"].insert(r.randint(0, len(s["answers"])), a)
    plan["restarts"] = r.choice([0, 1, 1, 2])
    plan["power"] = r.randrange(1 << 30)
    return plan


OLD = (b"method,m,n,k,trials,successes,failures,success_rate,min_iters,max_iters,mean_iters,runtime,mean_runtime\n"
       b"OLD,16,8,1,2,1,1,0.5,1,2,1.5,0.25,250.0\n")


def execute(plan):
    pre = {"none": None, "old-table": OLD, "other": b"not a table at all"}[plan["pre"]]
    fs = simfs.SimFS(plan["faults"], pre={DEST: pre} if pre is not None else None)
    try:
        return _execute(plan, fs, pre)
    finally:
        fs.destroy()


def _execute(plan, fs, pre):
    import os
    dest = fs.path(DEST)
    name = DEST
    if plan["dest"] == "symlink":
        os.symlink(dest, fs.path("latest.csv"))
        dest = fs.path("latest.csv")
    elif plan["dest"] == "relative":
        dest = os.path.relpath(dest)
    probes = {}
    saved = {"rows": None, "content": pre, "run": 0}    # last table that must still be there
    history = [pre]                                      # every content a power loss may roll back to
    checks = [0]

    def bump(k):
        probes[k] = probes.get(k, 0) + 1

    runs = 0
    ended = None
    worlds = []
    while True:
        world = World(plan, fs)
        worlds.append(world)
        per = plan["nd"] * plan["ns"]
        levels = world.levels()
        if runs > 0:
            # what the previous process left is what this one starts with
            saved = {"rows": None, "content": fs.read(name), "run": runs}
        old = saved["content"]

        def complete_levels(extra):
            # levels whose trials have all been answered
            return len(world.calls) // per if not extra else (len(world.calls) - 1) // per

        def check(where, content, certain, power=False):
            """certain: number of levels that must be in the table."""
            checks[0] += 1
            done = len(world.calls) // per
            if content == old and certain == 0:
                return
            if power and content in history:
                return
            if content is None:
                raise Violation("results-lost", f"{where}: the results file is gone ({certain} levels had been saved)")
            rows = parse(content)
            if rows is None:
                raise Violation("table-damaged", f"{where}: the results file is not a complete table "
                                f"({len(content)} bytes: {content[:80]!r}...), {certain} levels had been saved; disk steps {fs.trace[-6:]}")
            keys = [(d["method"], int(d["k"]), int(d["trials"]), int(d["m"]), int(d["n"])) for d in rows]
            want = [(nm, k, per, plan["M"], plan["N"]) for nm, k in levels][:len(keys)]
            if keys != want:
                raise Violation("wrong-rows", f"{where}: rows {keys}, expected {want}")
            if len(keys) < certain and not power:
                raise Violation("results-lost", f"{where}: {len(keys)} rows, but {certain} levels had been saved")
            if len(keys) > done:
                raise Violation("phantom-rows", f"{where}: {len(keys)} rows after {done} finished levels")
            if content not in history:
                history.append(content)

        def on_call(c):
            n = len(world.calls)
            # trial n is about to run: all levels before its own are saved
            if n % per == 0:
                check(f"before trial {n}", fs.read(name), n // per)
                bump("level-boundary")

        def certain_now():
            # levels before the one that the last answered trial belongs to
            return max(0, (len(world.calls) - 1) // per) if world.calls else 0

        def on_step(what, nm):
            check(f"after {what} (disk step {fs.n - 1})", fs.read(name), certain_now())
            for t in range(3):
                img = fs.after_power_loss(name, derive(plan["power"], fs.n, t))
                check(f"after a power loss at disk step {fs.n - 1}", img, certain_now(), power=True)
                bump("power-loss-image")
        fs.on_step = on_step
        world.on_call = on_call
        exc = quiet_run(lambda: world.build()(dest), fs)
        if isinstance(exc, Violation):
            raise exc
        crashed = isinstance(exc, simfs.SimCrash) or fs.dead
        if exc is None and not crashed:
            check("after the experiment", fs.read(name), len(levels))
            bump("completed")
            ended = "completed"
        else:
            check(f"after {type(exc).__name__}", fs.read(name), certain_now())
            for t in range(4):
                img = fs.after_power_loss(name, derive(plan["power"], "end", runs, t))
                check("after a power loss at the end", img, certain_now(), power=True)
            bump("ended-by-" + type(exc).__name__)
            ended = type(exc).__name__
            kinds = (simfs.SimCrash, OSError)
            from ..util import SimFault, SimAbort
            if not isinstance(exc, kinds + (SimFault, SimAbort)):
                raise Violation("other-error", f"the experiment failed with {type(exc).__name__}: {exc}")
        fs.on_step = None
        world.on_call = None
        runs += 1
        if exc is None or runs > plan["restarts"]:
            break
        fs.restart()
        bump("restart")
    faults = dict(fs.fired)
    for w in worlds:
        for k, v in w.fired.items():
            faults[k] = faults.get(k, 0) + v
    return {"faults": faults, "steps": fs.n, "requests": sum(len(w.calls) for w in worlds),
            "sig": (fs.trace, sorted(faults), ended, plan["pre"], plan["dest"]),
            "nontrivial": bool(faults), "probes": probes,
            "log": [[t.split()[0] for t in fs.trace], [[c.phi, c.y] for w in worlds for c in w.calls], ended]}


def shrink(plan):
    for key, val in (("restarts", 0), ("pre", "none"), ("dest", "plain")):
        if plan[key] != val:
            p = dict(plan)
            p[key] = val
            yield p
    yield from shrink_experiment(plan)
