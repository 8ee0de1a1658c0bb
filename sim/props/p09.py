"""P09 - the tracker protocol: one notification per iteration, in order, last one marked; trackers only observe."""
import contextlib
import io

import jax
import jax.numpy as jnp
import numpy as np

import cr.sparse as crs
from cr.sparse import lop
from cr.sparse.pursuit import cosamp, mp, sp
from cr.sparse.cvx import spgl1

from ..solvers import SPECS, DataNode
from .. import common
from ..sched import ThreadSim
from ..util import Violation, SimFault, SimAbort, StepLimit, rng_for, digest, i, f

ID = "P09"
NAMES = [n for n, s in SPECS.items() if s.tracker]
MODES = ["plain", "plain", "raise", "builtin", "nested", "threads", "jit", "api"]
RUNS = {"quick": 48 * len(NAMES), "thorough": 700 * len(NAMES)}
GROUPS = len(NAMES)
SCALED = ("cosamp", "sp")


def gen(idx, seed, tier):
    name = NAMES[idx % len(NAMES)]
    spec = SPECS[name]
    r = rng_for("P09", seed, idx)
    mode = MODES[(idx // len(NAMES)) % len(MODES)]
    case = common.gen_case(r, spec)
    budget = common.gen_budget(r, spec)
    plan = {"solver": name, "mode": mode, "case": case, "budget": budget, "lo": spec.budgets[0], "faults": []}
    if mode in ("plain", "raise") and r.random() < 0.5:
        plan["faults"] = common.gen_faults(r, spec, budget)
    plan["at"] = r.choice([0, 1, 2, r.randint(0, budget)])
    plan["exc"] = r.choice(["fault", "abort", "memory", "interrupt", "value"])
    plan["tracker"] = r.choice(["progress", "progress", "norm", "print", "noop"])
    plan["every"] = r.choice([1, 2, 3, 7])
    other = r.choice(NAMES)
    plan["other"] = {"solver": other, "case": common.gen_case(r, SPECS[other]), "budget": common.gen_budget(r, SPECS[other])}
    if mode == "threads":
        if r.random() < 0.4:       # two solves of the same problem, one slower
            plan["other"] = {"solver": name, "case": dict(case), "budget": common.gen_budget(r, spec)}
        plan["schedule"] = [[r.randint(0, 1), r.choice([1, 2, 3, 5, 8, 13, 30, 60])] for _ in range(r.randint(4, 60))]
        plan["raiser"] = r.random() < 0.3
    return plan


EXC = {"fault": SimFault, "abort": SimAbort, "memory": MemoryError, "interrupt": KeyboardInterrupt, "value": ValueError}


class Sink:
    """The tracker party: records everything it is told."""

    def __init__(self, nd=None, at=None, exc=None, act=None):
        self.events = []
        self.nd, self.at, self.exc, self.act = nd, at, exc, act

    def __call__(self, state, more=False):
        self.events.append((i(state.iterations), bool(np.asarray(more)), state, self.nd.seq if self.nd else 0))
        k = len(self.events) - 1
        if self.at is not None and k == self.at:
            if self.exc is not None:
                raise EXC[self.exc](f"tracker failed at event {k}")
            if self.act is not None:
                self.act()

    def key(self):
        return [(n, m, digest(s)) for n, m, s, _ in self.events]


def fields(rec):
    return {k: np.asarray(v) for k, v in rec._asdict().items() if v is not None and k in ("x", "r", "r_norm_sqr", "r_norm", "I", "x_I", "iterations", "n_times", "n_trans", "g")}


def check_events(spec, where, ev, result, b, exact=True):
    if not ev:
        raise Violation("tracker:silent", f"{spec.name} {where}: the tracker was never called")
    its = [e[0] for e in ev]
    if its[0] not in (0, 1):
        raise Violation("tracker:sequence", f"{spec.name} {where}: the first notification is for iteration {its[0]}")
    if its != list(range(its[0], its[0] + len(its))):
        raise Violation("tracker:sequence", f"{spec.name} {where}: iterations notified: {its}")
    more = [e[1] for e in ev]
    if more != [True] * (len(more) - 1) + [False]:
        raise Violation("tracker:more", f"{spec.name} {where}: 'more follows' flags: {more}")
    if result is None:
        return
    last = ev[-1][2]
    if i(result.iterations) != its[-1]:
        raise Violation("tracker:last", f"{spec.name} {where}: last notification for iteration {its[-1]}, the result reports {i(result.iterations)}")
    s = float(np.linalg.norm(np.asarray(b, dtype=np.float64))) if spec.name in SCALED else 1.0
    power = {"x": 1, "x_I": 1, "r": 1, "r_norm_sqr": 2}
    lf, rf = fields(last), fields(result)
    for k in sorted(set(lf) & set(rf)):
        if k == "x" and spec.name in SCALED:
            continue
        want = lf[k].astype(np.float64) * s ** power.get(k, 0) if power.get(k) and spec.name in SCALED else lf[k]
        got = rf[k]
        if want.shape != got.shape:
            raise Violation("tracker:last", f"{spec.name} {where}: {k} has shape {want.shape} in the last notification, {got.shape} in the result")
        if spec.name in SCALED or not exact:
            ok = np.allclose(got, want, rtol=1e-4, atol=1e-6 * (1 + s * s), equal_nan=True)
        else:
            ok = np.array_equal(got, want, equal_nan=True)
        if not ok:
            raise Violation("tracker:last", f"{spec.name} {where}: {k} of the last notification differs from the result")


def solo(spec, part, sink=None, faults=()):
    nd, A, b, x = common.make_node(spec, part["case"], record=True, cap=spec.cap(part["budget"]) * 4, faults=faults)
    if sink is not None:
        sink.nd = nd
    task = common.run(spec, nd, b, part["case"], part["budget"], tracker=sink, line_cap=4 * spec.lines(part["budget"]))
    return nd, b, task


def judge_error(spec, nd, task):
    if task.error is not None:
        if isinstance(task.error, StepLimit) or not nd.fired:
            raise Violation("no-record", f"{spec.name}: {type(task.error).__name__}: {task.error}")
        return True
    return False


def same(spec, where, a, b):
    if digest(fields(a)) != digest(fields(b)):
        raise Violation("tracker:interferes", f"{spec.name}: the result differs {where}")


def execute(plan):
    spec = SPECS[plan["solver"]]
    mode = plan["mode"]
    fn = {"plain": m_plain, "raise": m_raise, "builtin": m_builtin, "nested": m_nested,
          "threads": m_threads, "jit": m_jit, "api": m_api}[mode]
    st = {"faults": {}, "probes": {mode: 1}, "steps": 0, "requests": 0, "log": [], "sig": [mode, spec.name], "nontrivial": True}
    fn(plan, spec, st)
    return st


def note(st, nd, task):
    common.merge_counts(st["faults"], nd.fired)
    st["steps"] += task.lines
    st["requests"] += nd.seq


def m_plain(plan, spec, st):
    sink = Sink()
    nd, b, task = solo(spec, plan, sink, plan["faults"])
    nd0, b0, task0 = solo(spec, plan, None, plan["faults"])
    note(st, nd, task)
    if judge_error(spec, nd, task):
        if type(task.error) is not type(task0.error):
            raise Violation("tracker:interferes", f"{spec.name}: {type(task.error).__name__} with a tracker, {type(task0.error).__name__} without")
        return
    if judge_error(spec, nd0, task0):
        raise Violation("tracker:interferes", f"{spec.name}: raises only without a tracker")
    check_events(spec, "solve", sink.events, task.result, b)
    same(spec, "with and without a tracker", task.result, task0.result)
    if nd.history != nd0.history:
        raise Violation("tracker:interferes", f"{spec.name}: the operator gets other requests when a tracker listens")
    # each notification is delivered before work on the next iteration begins
    seqs = [e[3] for e in sink.events]
    if spec.node is not DataNode and any(p >= q for p, q in zip(seqs, seqs[1:])):
        raise Violation("tracker:late", f"{spec.name}: operator request numbers at the notifications: {seqs}")
    if len({id(e[2]) for e in sink.events}) == len(sink.events) and len(sink.events) > 2:
        st["probes"]["many-events"] = 1
    st["log"] = sink.key()
    st["sig"] += [plan["case"]["seed"], plan["budget"], len(sink.events)]


def m_raise(plan, spec, st):
    ref = Sink()
    nd0, b, task0 = solo(spec, plan, ref, plan["faults"])
    if judge_error(spec, nd0, task0):
        st["nontrivial"] = False
        return
    at = plan["at"] % len(ref.events)
    sink = Sink(at=at, exc=plan["exc"])
    nd, b, task = solo(spec, plan, sink, plan["faults"])
    note(st, nd, task)
    st["faults"]["tracker-exception"] = 1
    if task.error is None:
        raise Violation("tracker:swallowed", f"{spec.name}: the tracker raised {plan['exc']} at event {at}, the solve returned")
    if type(task.error) is not EXC[plan["exc"]]:
        raise Violation("tracker:exception", f"{spec.name}: the tracker raised {EXC[plan['exc']].__name__}, the caller got {type(task.error).__name__}: {task.error}")
    if len(sink.events) != at + 1 or sink.key() != ref.key()[:at + 1]:
        raise Violation("tracker:after-exception", f"{spec.name}: {len(sink.events)} notifications, the {at + 1}. raised")
    if nd.history != nd0.history[:len(nd.history)] or (nd.seq != ref.events[at][3]):
        raise Violation("tracker:after-exception", f"{spec.name}: operator requests after the tracker raised")
    again = Sink()
    nd2, b, task2 = solo(spec, plan, again, plan["faults"])
    if judge_error(spec, nd2, task2) or again.key() != ref.key() or digest(fields(task2.result)) != digest(fields(task0.result)):
        raise Violation("tracker:residue", f"{spec.name}: a solve after the failed one behaves differently")
    st["log"] = [plan["exc"], at, sink.key()]
    st["sig"] += [plan["exc"], at, len(ref.events), plan["case"]["seed"]]


def m_builtin(plan, spec, st):
    ref = Sink()
    nd0, b, task0 = solo(spec, plan, ref)
    judge_error(spec, nd0, task0)
    A, bb, x = spec.problem(plan["case"])
    kind = plan["tracker"]
    with_x0 = kind == "progress" and plan["case"]["seed"] % 2 and spec.name not in SCALED
    tr = {"progress": lambda: crs.ProgressTracker(x0=np.asarray(x) if with_x0 else None, every=plan["every"]),
          "norm": lambda: crs.norm_tracker, "print": lambda: crs.print_tracker, "noop": lambda: crs.noop_tracker}[kind]()
    both = Sink()

    def tracker(state, more=False):
        both(state, more=more)
        tr(state, more=more)
    out = io.StringIO()
    nd, A, b2, x = common.make_node(spec, plan["case"], record=True, cap=spec.cap(plan["budget"]) * 4)
    use = tracker if plan["at"] % 2 else tr
    with contextlib.redirect_stdout(out):
        task = common.run(spec, nd, b2, plan["case"], plan["budget"], tracker=use, line_cap=4 * spec.lines(plan["budget"]) + 40000)
    note(st, nd, task)
    if task.error is not None:
        raise Violation("tracker:builtin", f"{spec.name} with the {kind} tracker: {type(task.error).__name__}: {task.error}")
    same(spec, f"with the {kind} tracker", task.result, task0.result)
    ev = ref.events
    text = out.getvalue()
    lines = text.splitlines()
    if kind == "noop" and text:
        raise Violation("tracker:builtin", f"the no-op tracker printed {text[:80]!r}")
    xn = [float(np.linalg.norm(np.asarray(getattr(e[2], "x_I", None) if hasattr(e[2], "x_I") else e[2].x, dtype=np.float64))) for e in ev]
    rn = [float(np.linalg.norm(np.asarray(e[2].r, dtype=np.float64))) for e in ev]
    if kind == "progress":
        if [int(v) for v in tr.iterations] != [e[0] for e in ev]:
            raise Violation("tracker:builtin", f"{spec.name}: progress tracker recorded iterations {[int(v) for v in tr.iterations]}, there were {[e[0] for e in ev]}")
        if not np.allclose(tr.x_norms, xn, rtol=1e-4, atol=1e-6) or not np.allclose(tr.r_norms, rn, rtol=2e-3, atol=1e-5 * max(1.0, rn[0])):
            raise Violation("tracker:builtin", f"{spec.name}: progress tracker recorded norms {tr.x_norms} {tr.r_norms}, the states say {xn} {rn}")
        if with_x0:
            if len(tr.snrs) != len(ev):
                raise Violation("tracker:builtin", f"{spec.name}: {len(tr.snrs)} SNR values for {len(ev)} states")
            for k, e in enumerate(ev):
                x64 = np.asarray(x, dtype=np.float64)
                err = float(np.sum((x64 - np.asarray(e[2].x, dtype=np.float64)) ** 2))
                ref_e = float(np.sum(x64 ** 2))
                if err > 1e-6 * ref_e and abs(10 * np.log10(ref_e / err) - float(tr.snrs[k])) > 0.05:
                    raise Violation("tracker:builtin", f"{spec.name}: SNR {float(tr.snrs[k]):.2f} dB at iteration {e[0]}, it is {10 * np.log10(ref_e / err):.2f} dB")
        want = sum(1 for e in ev if e[0] % plan["every"] == 0 or not e[1])
        got = sum(1 for ln in lines if ln.startswith("["))
        if got != want:
            raise Violation("tracker:builtin", f"{spec.name}: {got} progress lines, {want} expected (every {plan['every']})")
    if kind == "norm" and sum(1 for ln in lines if ln.startswith("[")) != len(ev):
        raise Violation("tracker:builtin", f"{spec.name}: norm tracker printed {len(lines)} lines for {len(ev)} states")
    if kind != "noop":
        if sum("converged in" in ln for ln in lines) != 1 or f"converged in {ev[-1][0]} iterations" not in lines[-1]:
            raise Violation("tracker:builtin", f"{spec.name}: {kind} tracker's closing line: {lines[-1:]}")
    st["log"] = [kind, len(lines), ref.key()]
    st["sig"] += [kind, plan["every"], plan["case"]["seed"], len(ev)]


def m_nested(plan, spec, st):
    o = plan["other"]
    ospec = SPECS[o["solver"]]
    ref, oref = Sink(), Sink()
    nd0, b, t0 = solo(spec, plan, ref)
    ond0, ob, ot0 = solo(ospec, o, oref)
    judge_error(spec, nd0, t0)
    judge_error(ospec, ond0, ot0)
    inner = Sink()
    box = {}

    def act():
        nd, A, b_, x = common.make_node(ospec, o["case"], record=True)
        inner.nd = nd
        box["res"] = ospec.run(nd, jnp.asarray(b_), o["case"], o["budget"], inner)
    sink = Sink(at=plan["at"] % len(ref.events), act=act)
    nd, A, b_, x = common.make_node(spec, plan["case"], record=True, cap=spec.cap(plan["budget"]) * 4)
    sink.nd = nd
    task = common.run(spec, nd, b_, plan["case"], plan["budget"], tracker=sink)
    note(st, nd, task)
    if task.error is not None:
        raise Violation("tracker:nested", f"{spec.name} with a {ospec.name} solve in its tracker: {type(task.error).__name__}: {task.error}")
    if sink.key() != ref.key() or inner.key() != oref.key():
        raise Violation("tracker:nested", f"{spec.name} with {ospec.name} in its tracker: notifications differ from separate solves")
    same(spec, "with another solve in its tracker", task.result, t0.result)
    same(ospec, "inside another solver's tracker", box["res"], ot0.result)
    st["log"] = [sink.key(), inner.key()]
    st["sig"] += [o["solver"], plan["at"], plan["case"]["seed"]]


def m_threads(plan, spec, st):
    o = plan["other"]
    ospec = SPECS[o["solver"]]
    ref, oref = Sink(), Sink()
    nd0, b, t0 = solo(spec, plan, ref)
    ond0, ob, ot0 = solo(ospec, o, oref)
    judge_error(spec, nd0, t0)
    judge_error(ospec, ond0, ot0)
    parts = []
    for sp_, part, r_ in ((spec, plan, ref), (ospec, o, oref)):
        nd, A, b_, x = common.make_node(sp_, part["case"], record=True, cap=sp_.cap(part["budget"]) * 4)
        kw = {}
        if plan.get("raiser") and sp_ is ospec and part is o:
            kw = {"at": plan["at"] % len(r_.events), "exc": "fault"}
        parts.append((sp_, part, nd, b_, Sink(nd, **kw), r_))
    sim = ThreadSim(schedule=plan["schedule"], mode=jax.disable_jit)
    tasks = sim.run([lambda p=p: p[0].run(p[2], jnp.asarray(p[3]), p[1]["case"], p[1]["budget"], p[4]) for p in parts])
    for k, (task, p, t_) in enumerate(zip(tasks, parts, (t0, ot0))):
        note(st, p[2], task)
        sink = p[4]
        if sink.at is not None:
            st["faults"]["tracker-exception"] = 1
            if type(task.error) is not SimFault or sink.key() != p[5].key()[:sink.at + 1]:
                raise Violation("tracker:threads", f"{p[0].name} (thread {k}): tracker exception not delivered to its own solve: {task.error!r}")
            continue
        if task.error is not None:
            raise Violation("tracker:threads", f"{p[0].name} (thread {k}): {type(task.error).__name__}: {task.error}")
        if sink.key() != p[5].key():
            raise Violation("tracker:threads", f"{p[0].name} (thread {k}): got {[(e[0], e[1]) for e in sink.events]}, alone {[(e[0], e[1]) for e in p[5].events]}")
        same(p[0], "when another tracked solve is interleaved", task.result, t_.result)
    st["faults"]["preempt"] = sim.switches
    st["log"] = [p[4].key() for p in parts] + [len(sim.trace)]
    st["sig"] += [o["solver"], digest(sim.trace)]


def m_jit(plan, spec, st):
    """Compiled solves: each compiled call notifies its own tracker, every time."""
    nd, A, b, x = common.make_node(spec, plan["case"])
    sinks = [Sink(), Sink()]
    funs = [jax.jit(lambda v, s=s: spec.run(nd, v, plan["case"], plan["budget"], s)) for s in sinks]
    order = [0, 1, 0] if plan["at"] % 2 else [0, 0, 1]
    first = {}
    for k in order:
        before = [len(s.events) for s in sinks]
        res = funs[k](jnp.asarray(b))
        jax.block_until_ready(res)
        jax.effects_barrier()
        if len(sinks[1 - k].events) != before[1 - k]:
            raise Violation("tracker:jit", f"{spec.name}: another compiled solve's tracker was notified")
        ev = sinks[k].events[before[k]:]
        check_events(spec, "compiled solve", ev, res, b, exact=True)
        key = [(e[0], e[1], digest(e[2])) for e in ev]
        if first.setdefault("ev", key) != key:
            raise Violation("tracker:jit", f"{spec.name}: repeating the compiled solve gives other notifications")
    st["requests"] += nd.seq
    st["log"] = first["ev"]
    st["sig"] += [plan["case"]["seed"], plan["budget"], order]


def m_api(plan, spec, st):
    """The library's own compiled entry points, with changing trackers."""
    c, k = plan["case"], plan["budget"]
    A, b, x = spec.problem(c)
    op = lop.jit(lop.matrix(jnp.asarray(A)))
    b = jnp.asarray(b)
    K = c.get("K", 3)
    opts = spgl1.SPGL1Options(max_iters=k)
    call = {"mp": lambda t: mp.solve(op, b, max_iters=k, tracker=t),
            "m-mp": lambda t: mp.matrix_solve(jnp.asarray(A), b, max_iters=k, tracker=t),
            "cosamp": lambda t: cosamp.solve(op, b, K, max_iters=k, tracker=t),
            "sp": lambda t: sp.solve(op, b, K, max_iters=k, tracker=t),
            "spgl1-lasso": lambda t: spgl1.solve_lasso_jit(op, b, c.get("tau", 2.0), options=opts, tracker=t),
            "spgl1-bpic": lambda t: spgl1.solve_bpic_jit(op, b, c.get("sigma", 0.1), options=opts, tracker=t),
            "spgl1-bp": lambda t: spgl1.solve_bp_jit(op, b, options=opts, tracker=t),
            "spgl1-bpic-from": lambda t: spgl1.solve_bpic_from_jit(op, b, c.get("sigma", 0.1), jnp.zeros(A.shape[1]), options=opts, tracker=t),
            }.get(spec.name)
    if call is None:
        return m_jit(plan, spec, st)
    sinks = [Sink(), Sink()]
    trackers = [lambda state, more=False, s=s: s(state, more=more) for s in sinks]
    first = {}
    base = call(crs.noop_tracker)
    for n in ([0, 1, 0] if plan["at"] % 2 else [0, 0, 1]):
        before = [len(s.events) for s in sinks]
        res = call(trackers[n])
        jax.block_until_ready(res)
        jax.effects_barrier()
        if len(sinks[1 - n].events) != before[1 - n]:
            raise Violation("tracker:jit", f"{spec.name}: the tracker of an earlier solve was notified")
        ev = sinks[n].events[before[n]:]
        check_events(spec, "library-compiled solve", ev, res, b, exact=False)
        if not np.allclose(np.asarray(res.x), np.asarray(base.x), rtol=1e-3, atol=1e-5 * (1 + float(np.max(np.abs(np.asarray(base.x)))))):
            raise Violation("tracker:interferes", f"{spec.name}: compiled result differs with and without a tracker")
        key = [(e[0], e[1], digest(e[2])) for e in ev]
        if first.setdefault("ev", key) != key:
            raise Violation("tracker:jit", f"{spec.name}: repeating the solve gives other notifications")
    st["log"] = first["ev"]
    st["sig"] += [c["seed"], k]


def shrink(plan):
    sch = plan.get("schedule")
    if sch:
        n = len(sch)
        for size in sorted({n // 2, n // 4, 1}, reverse=True):
            if size < 1:
                continue
            for at in range(0, n, size):
                p = dict(plan)
                p["schedule"] = sch[:at] + sch[at + size:]
                yield p
    for at in (0, 1):
        if plan["at"] > at:
            p = dict(plan)
            p["at"] = at
            yield p
    yield from common.shrink_solver_plan(plan)
