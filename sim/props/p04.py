"""P04 - a call's result depends only on its arguments: not on earlier calls, not on concurrent ones."""
import jax

from .. import ambient, catalog
from ..catalog import ENTRIES, EAGER, NAMES
from ..sched import Hang, ThreadSim, run_solo
from ..util import Violation, digest, rng_for

ID = "P04"
COSTLY = {"sls.lanbpro", "sls.lansvd", "cluster.normalized_symmetric_fast_k", "cvx.spgl1", "cvx.spgl1_jit"}
JIT_GROUP = 15                     # entries per compiled history
_per_round = -(-len(NAMES) // JIT_GROUP)
THREADS = {"quick": max(240, len(EAGER)), "thorough": 5000}
OBJECTS = {"quick": 360, "thorough": 6000}
ROUNDS = {"quick": 2, "thorough": 14}
RUNS = {t: ROUNDS[t] * _per_round + THREADS[t] + OBJECTS[t] for t in THREADS}
GROUPS = 1


def chunks(tier):
    """Compiled histories get a process each, threaded runs share one."""
    n = ROUNDS[tier] * _per_round
    return [[i] for i in range(n)] + [list(range(a, min(a + 30, RUNS[tier]))) for a in range(n, RUNS[tier], 30)]


def gen(idx, seed, tier):
    n = ROUNDS[tier] * _per_round
    if idx < n:
        return gen_jit(idx, seed)
    if idx < n + THREADS[tier]:
        return gen_threads(idx - n, seed)
    return gen_object(idx - n - THREADS[tier], seed)


def gen_object(idx, seed):
    """One operator, function or problem object kept for several uses, by one caller or by several at once."""
    names = catalog.shared_names()
    rnd, at = divmod(idx, len(names))
    order = list(names)
    rng_for("P04-obj-order", seed, rnd).shuffle(order)
    nm = order[at]
    r = rng_for("P04-obj", seed, idx)
    first = r.randrange(4)
    threads = [[first + t + r.randrange(3) * (k > 0) for k in range(r.choice([1, 1, 2]))] for t in range(r.choice([1, 2, 2, 2, 2, 2, 3]))]
    if len(threads) == 1:
        threads[0] += [r.randrange(4) for _ in range(3)]
    # one caller overtaken in the middle of its use, at several points; then a free schedule
    n = 5
    points = [[round((k + r.random()) / n, 6), r.choice([4, 8, 15, 1000])] for k in range(n)] if len(threads) > 1 else []
    sched = [[r.randrange(len(threads)), r.choice([1, 1, 1, 2, 2, 3, 4, 6, 9])] for _ in range(r.choice([8, 20, 60]))]
    return {"mode": "object", "call": [nm, r.randrange(ENTRIES[nm].variants), ENTRIES[nm].np_ok and r.random() < 0.2], "threads": threads,
            "points": points, "schedule": sched}


def gen_jit(idx, seed):
    rnd, part = divmod(idx, _per_round)
    r = rng_for("P04-jit", seed, rnd // 2)
    names = list(NAMES)
    if (rnd // 2) % 2 == 0:
        # whole modules together
        mods = list(catalog.MODULES)
        r.shuffle(mods)
        names = [n for m in mods for n in r.sample([x for x in names if ENTRIES[x].module == m], sum(ENTRIES[x].module == m for x in names))]
    else:
        r.shuffle(names)
    group = names[part * JIT_GROUP:(part + 1) * JIT_GROUP]
    # the same group in two orders: round 2k and round 2k+1
    r = rng_for("P04-order", seed, rnd // 2, part)
    calls = []
    for nm in group:
        e = ENTRIES[nm]
        for v in sorted(r.sample(range(e.variants), min(e.variants, 2 if nm in COSTLY else 4))):
            calls.append([nm, v, e.np_ok and r.random() < 0.3])
    r.shuffle(calls)
    if rnd % 2:
        calls.reverse()
    r2 = rng_for("P04-repeat", seed, idx)
    for _ in range(len(calls) // 5):
        calls.insert(r2.randrange(len(calls) + 1), list(r2.choice(calls)))
    return {"mode": "jit", "calls": calls}


def gen_threads(idx, seed):
    r = rng_for("P04-thr", seed, idx)
    order = list(EAGER)
    rng_for("P04-thr-order", seed, idx // len(EAGER)).shuffle(order)
    base = order[idx % len(EAGER)]
    names = [base]
    for _ in range(r.choice([1, 1, 1, 2])):
        how = r.random()
        if how < 0.5:
            names.append(base)
        elif how < 0.8:
            names.append(r.choice([n for n in EAGER if ENTRIES[n].module == ENTRIES[base].module]))
        else:
            names.append(r.choice(EAGER))
    threads = []
    for nm in names:
        calls = [[nm, r.randrange(ENTRIES[nm].variants), ENTRIES[nm].np_ok and r.random() < 0.3]]
        if r.random() < 0.3:
            calls.append([nm, r.randrange(ENTRIES[nm].variants), False])
        threads.append(calls)
    lens = [1, 1, 2, 3, 4, 6, 9, 15, 40]
    sched = [[r.randrange(len(threads)), r.choice(lens)] for _ in range(r.choice([6, 15, 40, 120]))]
    if r.random() < 0.4:
        # overtaken in the middle, by the whole of another call
        sched = [[0, int(2 ** r.uniform(0, 8))], [1, 1 << 30]]
    return {"mode": "threads", "threads": threads, "schedule": sched}


def key(pre, call):
    return f"{pre}|{call[0]}|{call[1]}|{'np' if call[2] else 'jnp'}"


def solo(claim):
    pre, nm, v, t, *use = claim.split("|")
    call = [nm, int(v), t == "np"]
    if pre == "use":
        return {"mode": "object", "call": call, "threads": [[int(use[0])]], "points": [], "schedule": []}
    if pre == "jit":
        return {"mode": "jit", "calls": [call]}
    return {"mode": "threads", "threads": [[call]], "schedule": []}


def prep(call):
    return catalog.prepare(call[0], call[1], call[2])


def execute(plan):
    before = ambient.snapshot()
    st = {"jit": exec_jit, "threads": exec_threads, "object": exec_object}[plan["mode"]](plan)
    bad = ambient.changed(before, ambient.snapshot())
    if bad:
        raise Violation("ambient", f"process-wide state changed by {plan.get('call') or plan.get('calls') or plan.get('threads')}: {bad}")
    return st


def exec_jit(plan):
    seen = {}
    amb = ambient.snapshot()
    for n, call in enumerate(plan["calls"]):
        c, fn = prep(call)
        pre = digest(c.inputs)
        try:
            d = digest(fn())
        except Exception as e:
            raise Violation("raised", f"call {n} {call}: {type(e).__name__}: {str(e)[:300]}")
        if digest(c.inputs) != pre:
            raise Violation("inputs-modified", f"call {n} {call} changed its caller's data")
        k = key("jit", call)
        if seen.setdefault(k, d) != d:
            raise Violation("history", f"call {n} {call} gives another result than the same call before")
        if n % 8 == 0:
            bad = ambient.changed(amb, ambient.snapshot())
            if bad:
                raise Violation("ambient", f"process-wide state changed up to call {n} {call}: {bad}")
    return {"faults": {"repeat": len(plan["calls"]) - len(seen), "fresh-process": 1}, "steps": 0, "requests": len(plan["calls"]), "claims": seen,
            "sig": ("jit", plan["calls"]), "nontrivial": len(plan["calls"]) > 1,
            "probes": {"compiled-calls": len(plan["calls"])}, "log": sorted(seen.items())}


def exec_threads(plan):
    prepared = [[(call, *prep(call)) for call in calls] for calls in plan["threads"]]
    pre = [[digest(c.inputs) for _, c, _ in th] for th in prepared]

    def body(th):
        return lambda: [fn() for _, _, fn in th]
    watch = ambient.Watch()
    sim = ThreadSim(schedule=plan["schedule"], mode=jax.disable_jit, on_line=watch)
    try:
        tasks = sim.run([body(th) for th in prepared])
    except Hang as e:
        raise Violation("deadlock", f"{plan['threads']}: {e}")
    claims, steps = {}, 0
    if watch.bad:
        raise Violation("ambient", f"thread {watch.bad[1]} {plan['threads'][watch.bad[1]]} changes process-wide state which other threads use: {watch.bad[0]} (in {watch.bad[2]})")
    for t, (task, th) in enumerate(zip(tasks, prepared)):
        steps += task.lines
        if task.error is not None:
            raise Violation("raised", f"thread {t} {[c for c, _, _ in th]}: {type(task.error).__name__}: {str(task.error)[:300]}")
        for (call, c, fn), res, p in zip(th, task.result, pre[t]):
            if digest(c.inputs) != p:
                raise Violation("inputs-modified", f"thread {t} {call} changed its caller's data")
            d = digest(res)
            k = key("eager", call)
            if claims.setdefault(k, d) != d:
                raise Violation("concurrent", f"thread {t}: {call} gives another result than the same call in another thread")
    for th in plan["threads"]:
        for call in th:
            c, fn = prep(call)
            task = run_solo(fn, mode=jax.disable_jit)
            if task.error is not None:
                raise Violation("raised", f"alone {call}: {type(task.error).__name__}: {str(task.error)[:300]}")
            if digest(task.result) != claims[key("eager", call)]:
                raise Violation("concurrent", f"{call} gives another result when interleaved with {plan['threads']}")
    return {"faults": {"preempt": sim.switches}, "steps": steps, "requests": sum(len(t) for t in plan["threads"]), "claims": claims,
            "sig": ("thr", digest(sim.trace)), "nontrivial": sim.switches > 0, "probes": {"interleaved": int(sim.switches > 1), "stalls": sim.stalls},
            "log": [sorted(claims.items()), len(sim.trace)]}


def exec_object(plan):
    call, lines = plan["call"], {}
    c, fn = prep(call)
    uses = fn.uses
    pre = digest(c.inputs)
    want = {}
    for k in sorted({k % len(uses) for ks in plan["threads"] for k in ks}):
        alone = run_solo(lambda: uses[k](fn.make()), mode=jax.disable_jit)
        if alone.error is not None:
            raise Violation("raised", f"alone {call} use {k}: {type(alone.error).__name__}: {str(alone.error)[:300]}")
        want[k] = digest(alone.result)
    made = run_solo(fn.make, mode=jax.disable_jit)
    T = made.result

    def body(ks):
        return lambda: [uses[k % len(uses)](T) for k in ks]
    steps, switches, traces = 0, 0, []
    length = run_solo(body(plan["threads"][0]), mode=jax.disable_jit).lines if plan["points"] else 0
    schedules = [[[0, 1 + int(f * length)], [1, n]] for f, n in plan["points"]] + [plan["schedule"]]
    for sched in schedules:
        sim = ThreadSim(schedule=sched, mode=jax.disable_jit)
        try:
            tasks = sim.run([body(ks) for ks in plan["threads"]])
        except Hang as e:
            raise Violation("deadlock", f"{call} used by {plan['threads']}: {e}")
        switches += sim.switches
        traces.append(sim.trace)
        for t, (task, ks) in enumerate(zip(tasks, plan["threads"])):
            steps += task.lines
            if task.error is not None:
                raise Violation("raised", f"{call} kept, uses {ks} in thread {t}: {type(task.error).__name__}: {str(task.error)[:300]}")
            for k, res in zip(ks, task.result):
                if digest(res) != want[k % len(uses)]:
                    raise Violation("object", f"{call}: use {k % len(uses)} of a kept object (uses {plan['threads']}) gives another result than a fresh object")
    if digest(c.inputs) != pre:
        raise Violation("inputs-modified", f"{call} used by {plan['threads']}: the caller's data changed")
    return {"faults": {"preempt": switches, "object-reuse": sum(map(len, plan["threads"])) * len(schedules) - 1}, "steps": steps,
            "requests": sum(map(len, plan["threads"])) * len(schedules), "claims": {key("use", call) + f"|{k}": d for k, d in want.items()},
            "sig": ("obj", call, digest(traces)),
            "nontrivial": switches > 0 or len(plan["threads"][0]) > 1, "probes": {"object-interleaved": int(switches > 1)},
            "log": [sorted(want.items()), [len(t) for t in traces]]}


def shrink(plan):
    if plan["mode"] == "jit":
        calls = plan["calls"]
        n = len(calls)
        size = n // 2
        while size >= 1:
            for at in range(0, n, size):
                c = calls[:at] + calls[at + size:]
                if c:
                    yield dict(plan, calls=c)
            size //= 2
        return
    th = plan["threads"]
    for k in range(len(th)):
        if len(th) > 1:
            yield dict(plan, threads=th[:k] + th[k + 1:])
        if len(th[k]) > 1:
            for j in range(len(th[k])):
                yield dict(plan, threads=th[:k] + [th[k][:j] + th[k][j + 1:]] + th[k + 1:])
    for f in plan.get("points") or []:
        if len(plan["points"]) > 1:
            yield dict(plan, points=[f], schedule=[])
    s = plan["schedule"]
    size = len(s) // 2
    while size >= 1:
        for at in range(0, len(s), size):
            yield dict(plan, schedule=s[:at] + s[at + size:])
        size //= 2
