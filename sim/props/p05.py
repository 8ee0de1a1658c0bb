"""P05 - an aborted call reports the abort and leaves nothing behind."""
import jax
import jax.numpy as jnp
import numpy as np

import cr.sparse.lop as lop
from .. import ambient, catalog, common, nodes
from ..catalog import ENTRIES, EAGER, NAMES
from ..sched import Hang, ThreadSim, run_solo
from ..solvers import DataNode, SPECS
from ..util import SimFault, Violation, digest, rng_for

ID = "P05"
EXC = {"raise": SimFault, "memory": MemoryError, "interrupt": KeyboardInterrupt, "oserror": OSError}
COSTLY = {"sls.lanbpro", "sls.lansvd", "cluster.normalized_symmetric_fast_k", "cvx.spgl1", "cvx.spgl1_jit", "lop.sparse_binary_dict"}
SOLVERS = [n for n, s in SPECS.items() if s.node is not DataNode]
JIT = [n for n in NAMES if n not in COSTLY]
JIT_PER = 12                                   # calls per compiled history
_jit_n = -(-len(JIT) // JIT_PER)
EAGER_RUNS = {"quick": len(EAGER), "thorough": 9000}
SOLVE_RUNS = {"quick": 4 * len(SOLVERS), "thorough": 90 * len(SOLVERS)}
JIT_ROUNDS = {"quick": 2, "thorough": 16}      # even rounds: reference histories, odd rounds: the same calls with aborts
PARTY_RUNS = {"quick": 3, "thorough": 40}     # per call which takes an operator
SWEEPS = {"quick": 1, "thorough": 12}         # per call: an abort at every place of the code it goes through
SWEEP_COST = {"quick": 1600, "thorough": 12000}
GROUPS = 1


# calls which take the caller's operator: (operators, further data) -> result
def _key():
    return jax.random.PRNGKey(5)


def _vec(n, s=1.0):
    return jnp.asarray(np.cos(np.arange(n) * s + 0.3).astype(np.float32))


def _both(T):
    return [T.times(_vec(T.shape[1])), T.trans(_vec(T.shape[0], 2.0))]


PARTY = {
    "dot_test_real": lambda A, B: lop.dot_test_real(_key(), A, tol=1e-3),
    "dot_test_complex": lambda A, B: lop.dot_test_complex(_key(), A, tol=1e-3),
    "rdot_test_complex": lambda A, B: lop.rdot_test_complex(_key(), A, tol=1e-3),
    "to_matrix": lambda A, B: lop.to_matrix(A),
    "to_adjoint_matrix": lambda A, B: lop.to_adjoint_matrix(A),
    "to_complex_matrix": lambda A, B: lop.to_complex_matrix(A),
    "column": lambda A, B: lop.column(A, 2),
    "columns": lambda A, B: lop.columns(A, jnp.array([0, 3])),
    "normest": lambda A, B: lop.normest(A, max_iters=6),
    "upper_frame_bound": lambda A, B: lop.upper_frame_bound(A),
    "neg": lambda A, B: _both(lop.neg(A)),
    "scale": lambda A, B: _both(lop.scale(A, 2.0)),
    "add": lambda A, B: _both(lop.add(A, B)),
    "subtract": lambda A, B: _both(lop.subtract(A, B)),
    "compose": lambda A, B: _both(lop.compose(A, lop.transpose(B))),
    "hermitian": lambda A, B: _both(lop.hermitian(A)),
    "hcat": lambda A, B: _both(lop.hcat(A, B)),
    "power": lambda A, B: _both(lop.power(lop.gram(A), 2)),
    "gram": lambda A, B: _both(lop.gram(A)),
    "frame": lambda A, B: _both(lop.frame(A)),
    "partial_op": lambda A, B: _both(lop.partial_op(A, jnp.array([0, 2]))),
    "block_diag": lambda A, B: _both(lop.block_diag([A, B])),
    "windowed_op": lambda A, B: (lambda W: [W.trans(_vec(24)), W.times(W.trans(_vec(24)))])(lop.windowed_op(24, A, overlap=2)),
}
SQUARE = ("windowed_op",)
PARTIES = list(PARTY)
RUNS = {t: JIT_ROUNDS[t] * _jit_n + EAGER_RUNS[t] + SOLVE_RUNS[t] + PARTY_RUNS[t] * len(PARTIES) + SWEEPS[t] * len(EAGER) for t in EAGER_RUNS}


def chunks(tier):
    n = JIT_ROUNDS[tier] * _jit_n
    return [[i] for i in range(n)] + [list(range(a, min(a + 25, RUNS[tier]))) for a in range(n, RUNS[tier], 25)]


def gen(idx, seed, tier):
    n = JIT_ROUNDS[tier] * _jit_n
    if idx < n:
        return gen_jit(idx, seed)
    idx -= n
    if idx < EAGER_RUNS[tier]:
        return gen_eager(idx, seed)
    idx -= EAGER_RUNS[tier]
    if idx < SOLVE_RUNS[tier]:
        return gen_solve(idx, seed)
    idx -= SOLVE_RUNS[tier]
    if idx >= PARTY_RUNS[tier] * len(PARTIES):
        return gen_sweep(idx - PARTY_RUNS[tier] * len(PARTIES), seed, tier)
    r = rng_for("P05-party", seed, idx)
    return {"mode": "party", "what": PARTIES[idx % len(PARTIES)], "g": r.randrange(1 << 30), "exc": r.choice(sorted(EXC)),
            "at": None if r.random() < 0.6 else round(r.random(), 6)}


def gen_jit(idx, seed):
    rnd, part = divmod(idx, _jit_n)
    r = rng_for("P05-jit", seed, rnd // 2)
    names = list(JIT)
    r.shuffle(names)
    r = rng_for("P05-jit", seed, rnd // 2, part)
    calls = []
    for nm in names[part * JIT_PER:(part + 1) * JIT_PER]:
        e = ENTRIES[nm]
        for v in r.sample(range(e.variants), min(2, e.variants)):
            line = r.choice([1, 2, 3, r.randint(1, 10), r.randint(1, 40), r.randint(1, 200), r.randint(1, 800)])
            calls.append({"call": [nm, v, False], "line": line if rnd % 2 else 0, "exc": r.choice(sorted(EXC))})
            if rnd % 2 and r.random() < 0.75:
                calls[-1]["sweep"] = r.randrange(1 << 30)
    return {"mode": "jit", "calls": calls}


def gen_eager(idx, seed):
    r = rng_for("P05-eager", seed, idx)
    nm = EAGER[idx % len(EAGER)]
    e = ENTRIES[nm]
    plan = {"mode": "eager", "call": [nm, r.randrange(e.variants), e.np_ok and r.random() < 0.4],
            "at": []}
    n = r.choice([2, 3, 4, 5]) if nm not in COSTLY and not e.heavy else r.choice([1, 1, 2])
    for k in range(n):
        plan["at"].append([round((k + r.random()) / n, 6), round(r.random() ** 2, 6), r.choice(sorted(EXC))])
    if r.random() < 0.25:
        how = r.random()
        other = nm if how < 0.5 else r.choice([n for n in EAGER if ENTRIES[n].module == e.module])
        plan["other"] = [other, r.randrange(ENTRIES[other].variants), False]
        plan["schedule"] = [[r.randrange(2), r.choice([1, 1, 2, 3, 5, 9, 20])] for _ in range(r.choice([5, 15, 40]))]
    probe = r.choice([n for n in EAGER if ENTRIES[n].module == e.module and n not in COSTLY] or [nm])
    plan["probe"] = [probe, r.randrange(ENTRIES[probe].variants), False]
    return plan


def gen_sweep(idx, seed, tier):
    rnd, k = divmod(idx, len(EAGER))
    nm = EAGER[k]
    e = ENTRIES[nm]
    vs = list(range(e.variants))
    rng_for("P05-sweep-variants", seed, nm).shuffle(vs)
    r = rng_for("P05-sweep-all", seed, idx)
    return {"mode": "sweep", "call": [nm, vs[rnd % len(vs)], e.np_ok and r.random() < 0.3], "seed": r.randrange(1 << 30), "late": rnd > 0,
            "cost": SWEEP_COST[tier] // (8 if nm in COSTLY or e.heavy else 1), "only": None}


def gen_solve(idx, seed):
    name = SOLVERS[idx % len(SOLVERS)]
    r = rng_for("P05-solve", seed, idx)
    spec = SPECS[name]
    case = common.gen_case(r, spec)
    budget = common.gen_budget(r, spec)
    if name == "l1ls":
        budget = min(budget, 3)
        case["pcg"] = min(case["pcg"], 5)
    return {"mode": "solve", "solver": name, "case": case, "budget": budget, "at": round(r.random(), 6), "exc": r.choice(sorted(EXC)),
            "track": spec.tracker and r.random() < 0.3, "op": r.random() < 0.7}


def solo(claim):
    pre, nm, v, t = claim.split("|")
    call = [nm, int(v), t == "np"]
    if pre == "jit":
        return {"mode": "jit", "calls": [{"call": call, "line": 0, "exc": "raise"}]}
    return {"mode": "eager", "call": call, "at": [], "probe": None}


def key(pre, call):
    return f"{pre}|{call[0]}|{call[1]}|{'np' if call[2] else 'jnp'}"


def execute(plan):
    before = ambient.snapshot()
    st = {"jit": exec_jit, "eager": exec_eager, "solve": exec_solve, "sweep": exec_sweep, "party": exec_party}[plan["mode"]](plan)
    bad = ambient.changed(before, ambient.snapshot())
    if bad:
        raise Violation("ambient", f"process-wide state changed after an aborted {plan.get('call') or plan.get('calls') or plan.get('solver') or plan.get('what')}: {bad}")
    return st


def prep(call):
    return catalog.prepare(call[0], call[1], call[2])


def same(err, inst):
    """The caller sees the very exception (or one raised from it)."""
    seen = 0
    while err is not None and seen < 10:
        if err is inst:
            return True
        err = err.__cause__ or err.__context__
        seen += 1
    return False


def must_report(task, inst, what):
    if task.error is None:
        raise Violation("swallowed", f"{what}: {type(inst).__name__} was swallowed, the call returned a result")
    if isinstance(inst, (KeyboardInterrupt, MemoryError, OSError)) and not isinstance(task.error, type(inst)):
        raise Violation("swallowed", f"{what}: {type(inst).__name__} reported as {type(task.error).__name__}: {str(task.error)[:200]}")
    if not same(task.error, inst):
        raise Violation("swallowed", f"{what}: {type(inst).__name__} replaced by {type(task.error).__name__}: {str(task.error)[:200]}")


def once(call, what, places=None):
    c, fn = prep(call)
    task = run_solo(fn, mode=jax.disable_jit, places=places)
    if task.error is not None:
        raise Violation("raised", f"{what} {call}: {type(task.error).__name__}: {str(task.error)[:300]}")
    return digest(task.result), task.lines


def exec_eager(plan):
    call, places = plan["call"], {}
    ref, lines = once(call, "before any abort", places)
    spots = list(places.values())
    claims = {key("eager", call): ref}
    fired, where = {}, []
    other = plan.get("other")
    obj = None
    for n, (at, occ, exc) in enumerate(plan["at"] if spots else []):
        # a place in the code, then one of the times it is reached
        spot = spots[min(int(at * len(spots)), len(spots) - 1)]
        line = spot[min(int(occ * len(spot)), len(spot) - 1)]
        c, fn = prep(call)
        pre = digest(c.inputs)
        inst = EXC[exc]("injected")
        amb = ambient.snapshot()
        if other is not None and n == 0:
            c2, fn2 = prep(other)
            sim = ThreadSim(schedule=plan["schedule"], aborts={0: (line, lambda: inst)}, mode=jax.disable_jit)
            try:
                task, t2 = sim.run([fn, fn2])
            except Hang as e:
                raise Violation("deadlock", f"{call} aborted next to {other}: {e}")
            hit = 0 in sim.fired
            if t2.error is not None:
                raise Violation("bystander", f"{other} raised {type(t2.error).__name__}: {t2.error} while {call} was aborted")
            d2 = digest(t2.result)
            if claims.setdefault(key("eager", other), d2) != d2:
                raise Violation("bystander", f"{other} gives another result while {call} is aborted")
        else:
            task = run_solo(fn, abort=(line, lambda: inst), mode=jax.disable_jit)
            hit = task.fired is not None
        what = f"{call} aborted at line {line} of {lines}"
        if hit:
            fired[exc] = fired.get(exc, 0) + 1
            must_report(task, inst, what)
            where.append(line)
        if digest(c.inputs) != pre:
            raise Violation("inputs-modified", f"{what}: the caller's data changed")
        bad = ambient.changed(amb, ambient.snapshot())
        if bad:
            raise Violation("ambient", f"{what}: process-wide state left changed: {bad}")
        # the same call on the same data again
        again = run_solo(fn, mode=jax.disable_jit)
        if again.error is not None:
            raise Violation("residue", f"{what}: the retry raised {type(again.error).__name__}: {str(again.error)[:300]}")
        if digest(again.result) != ref:
            raise Violation("residue", f"{what}: the retry gives another result")
        obj = fn
    if obj is not None and hasattr(obj, "make"):
        abort_object(plan, call, obj, fired)
    if where and once(call, "after aborts")[0] != ref:
        raise Violation("residue", f"{call} aborted at lines {where}: a fresh call gives another result")
    if plan.get("probe"):
        d, _ = once(plan["probe"], "after an abort")
        if claims.setdefault(key("eager", plan["probe"]), d) != d:
            raise Violation("residue", f"{plan['probe']} gives another result after aborted {call}")
    return {"faults": fired, "steps": lines, "requests": 2 + 2 * len(plan["at"]), "claims": claims,
            "sig": ("eager", call, where, plan["at"], bool(other)), "nontrivial": bool(fired), "probes": {"eager-aborts": len(where)},
            "log": [sorted(claims.items()), where]}


def exec_sweep(plan):
    """An abort at every place of the code the call goes through, with retries in between."""
    call, places = plan["call"], {}
    ref, lines = once(call, "before any abort", places)
    r = rng_for("P05-sweep-run", plan["seed"])
    spots = [r.choice(s) if plan["late"] else s[0] for s in places.values()]
    while len(spots) > 4 and sum(spots) > plan["cost"] * 4:
        spots.pop(r.randrange(len(spots)))
    fired, amb, spent = {}, ambient.snapshot(), 0
    c, fn = prep(call)
    pre = digest(c.inputs)
    for n, line in enumerate(spots):
        exc = r.choice(["interrupt", "memory", "oserror", "raise", "raise"])
        retry = r.random() < 0.15 or n == len(spots) - 1
        if plan["only"] is not None and n not in plan["only"]:
            continue
        inst = EXC[exc]("injected")
        task = run_solo(fn, abort=(line, lambda: inst), mode=jax.disable_jit)
        if task.fired is None:
            continue
        spent += line
        fired[exc] = fired.get(exc, 0) + 1
        what = f"{call} aborted at line {line} of {lines} ({task.fired})"
        must_report(task, inst, what)
        if digest(c.inputs) != pre:
            raise Violation("inputs-modified", f"{what}: the caller's data changed")
        bad = ambient.changed(amb, ambient.snapshot())
        if bad:
            raise Violation("ambient", f"{what}: process-wide state left changed: {bad}")
        if retry:
            again = run_solo(fn, mode=jax.disable_jit)
            if again.error is not None:
                raise Violation("residue", f"{what}: the retry raised {type(again.error).__name__}: {str(again.error)[:300]}")
            if digest(again.result) != ref:
                raise Violation("residue", f"{what}: the retry gives another result")
    if fired and once(call, "after aborts")[0] != ref:
        raise Violation("residue", f"{call} aborted at {len(spots)} places: a fresh call gives another result")
    return {"faults": fired, "steps": lines + spent, "requests": 2 + len(spots), "claims": {key("eager", call): ref},
            "sig": ("sweep", call, plan["seed"]), "nontrivial": bool(fired), "probes": {"sweep-aborts": sum(fired.values())},
            "log": [ref, spots, sorted(fired.items())]}


def abort_object(plan, call, fn, fired):
    """A use of a kept object is aborted; the object goes on as if it had not been."""
    with jax.disable_jit():
        T = fn.make()
    at, occ, exc = plan["at"][-1]
    k = int(at * 1000) % len(fn.uses)
    places = {}
    ref = run_solo(lambda: fn.uses[k](fn.make()), mode=jax.disable_jit)
    first = run_solo(lambda: fn.uses[k](T), mode=jax.disable_jit, places=places)
    if ref.error is not None or first.error is not None:
        raise Violation("raised", f"{call} use {k}: {ref.error or first.error}")
    want = digest(ref.result)
    spots = list(places.values())
    if not spots or digest(first.result) != want:
        return          # nothing to abort; object reuse itself is P04's subject
    for a, o, exc in plan["at"]:
        spot = spots[min(int(a * len(spots)), len(spots) - 1)]
        line = spot[min(int(o * len(spot)), len(spot) - 1)]
        inst = EXC[exc]("injected")
        task = run_solo(lambda: fn.uses[k](T), abort=(line, lambda: inst), mode=jax.disable_jit)
        what = f"{call}: use {k} of a kept object aborted at line {line}"
        if task.fired is not None:
            fired[exc] = fired.get(exc, 0) + 1
            must_report(task, inst, what)
    again = run_solo(lambda: fn.uses[k](T), mode=jax.disable_jit)
    if again.error is not None:
        raise Violation("residue", f"{what}: the retry raised {type(again.error).__name__}: {str(again.error)[:300]}")
    if digest(again.result) != want:
        raise Violation("residue", f"{what}: the object gives another result afterwards")


def sweep_lines(r):
    """Abort positions for a call nobody has made yet: dense at first, then spreading out."""
    line = 0
    while line < 900:
        line += 1 if line < 12 else r.randint(1, 3) if line < 40 else max(2, int(line * r.uniform(0.1, 0.4)))
        yield line


def exec_jit(plan):
    """Aborts while the library is being traced; the compiled retry must match histories without aborts."""
    claims, fired, amb = {}, {}, ambient.snapshot()
    for n, item in enumerate(plan["calls"]):
        call = item["call"]
        c, fn = prep(call)
        pre = digest(c.inputs)
        if item.get("sweep") is not None:
            r, spent = rng_for("P05-sweep", item["sweep"]), 0
            for line in sweep_lines(r):
                inst = EXC[r.choice(sorted(EXC))]("injected")
                task = run_solo(fn, abort=(line, lambda: inst))
                if task.fired is None:
                    break
                fired["cold"] = fired.get("cold", 0) + 1
                must_report(task, inst, f"{call} aborted at line {line} of its first call ({task.fired})")
                spent += line
                if spent > 1500:
                    break
        elif item["line"]:
            inst = EXC[item["exc"]]("injected")
            task = run_solo(fn, abort=(item["line"], lambda: inst))
            if task.fired is not None:
                fired[item["exc"]] = fired.get(item["exc"], 0) + 1
                must_report(task, inst, f"{call} aborted while tracing ({task.fired})")
        if item["line"]:
            bad = ambient.changed(amb, ambient.snapshot())
            if bad:
                raise Violation("ambient", f"{call} aborted while tracing: process-wide state left changed: {bad}")
        for _ in range(2 if item["line"] else 1):
            task = run_solo(fn)
            if task.error is not None:
                raise Violation("residue", f"{call}: the retry raised {type(task.error).__name__}: {str(task.error)[:300]}")
            d = digest(task.result)
            if claims.setdefault(key("jit", call), d) != d:
                raise Violation("residue", f"{call}: the second compiled call gives another result")
        if digest(c.inputs) != pre:
            raise Violation("inputs-modified", f"{call}: the caller's data changed")
    return {"faults": fired, "steps": 0, "requests": len(plan["calls"]), "claims": claims, "sig": ("jit", plan["calls"]),
            "nontrivial": bool(fired), "probes": {"trace-aborts": sum(fired.values())}, "log": sorted(claims.items())}


def exec_solve(plan):
    """The operator party dies at one of its requests."""
    spec = SPECS[plan["solver"]]
    case, budget = plan["case"], plan["budget"]
    nd, A, b, x = common.make_node(spec, case, record=True, cap=spec.cap(budget) * 4)
    ref = common.run(spec, nd, b, case, budget, line_cap=4 * spec.lines(budget))
    if ref.error is not None:
        raise Violation("raised", f"{spec.name}: {type(ref.error).__name__}: {str(ref.error)[:300]}")
    want, total = digest(ref.result), nd.seq
    at = int(plan["at"] * total) if total else 0
    nd2, _, b2, _ = common.make_node(spec, case, record=True, cap=spec.cap(budget) * 4)
    inst = EXC[plan["exc"]]("injected")
    state = {"hit": False}

    def hook(name, k, args):
        if nd2.seq == at + 1 and not state["hit"]:
            state["hit"] = True
            raise inst
    nd2.hooks.append(hook)
    bj = jnp.asarray(b2)
    pre = digest([bj, nd2.mat])
    tr = (lambda s, more=False: None) if plan["track"] else None
    task = common.run(spec, nd2, bj, case, budget, tracker=tr, line_cap=4 * spec.lines(budget))
    what = f"{spec.name}: operator failed at request {at} of {total}"
    if state["hit"]:
        must_report(task, inst, what)
        if nd2.seq != at + 1:
            raise Violation("went-on", f"{what}, but {nd2.seq - at - 1} further requests followed")
    elif task.error is not None:
        raise Violation("raised", f"{what}: {type(task.error).__name__}: {task.error}")
    if digest([bj, nd2.mat]) != pre:
        raise Violation("inputs-modified", f"{what}: the caller's data changed")
    nd2.seq, start = 0, {k: c.count for k, c in nd2.channels.items()}
    again = common.run(spec, nd2, bj, case, budget, line_cap=4 * spec.lines(budget))
    if again.error is not None:
        raise Violation("residue", f"{what}: the retry raised {type(again.error).__name__}: {str(again.error)[:300]}")
    if digest(again.result) != want or nd2.seq != total:
        raise Violation("residue", f"{what}: the retry differs from an undisturbed solve ({nd2.seq} requests, {total} expected)")
    return {"faults": {"operator-" + plan["exc"]: int(state["hit"])}, "steps": ref.lines + task.lines + again.lines, "requests": 2 * total + at,
            "sig": (spec.name, budget, at, total, plan["exc"]), "nontrivial": state["hit"], "probes": {"operator-aborts": int(state["hit"])},
            "log": [want, at, total]}


def exec_party(plan):
    """The caller's operator fails while the library uses it outside of a solve."""
    g = np.random.default_rng(plan["g"])
    use = PARTY[plan["what"]]
    shape = (6, 6) if plan["what"] in SQUARE else (6, 9)
    ma, mb = (g.standard_normal(shape).astype(np.float32) for _ in range(2))

    def parties():
        a, b = nodes.OperatorNode(ma, record=True), nodes.OperatorNode(mb)
        b.op = b.base
        return a, b
    a, b = parties()
    ref = run_solo(lambda: use(a.op, b.op), mode=jax.disable_jit)
    if ref.error is not None:
        raise Violation("raised", f"{plan['what']}: {type(ref.error).__name__}: {str(ref.error)[:300]}")
    want, total, hits = digest(ref.result), a.seq, []
    ats = range(total) if plan["at"] is None else [int(plan["at"] * total)]
    for n, at in enumerate(list(ats)[:12]):
        exc = sorted(EXC)[(sorted(EXC).index(plan["exc"]) + n) % len(EXC)]
        a, b = parties()
        inst = EXC[exc]("injected")
        state = {"hit": False}

        def hook(name, k, args):
            if a.seq == at + 1 and not state["hit"]:
                state["hit"] = True
                raise inst
        a.hooks.append(hook)
        pre = digest([a.mat, b.mat])
        task = run_solo(lambda: use(a.op, b.op), mode=jax.disable_jit)
        what = f"{plan['what']}: operator failed at request {at} of {total}"
        if state["hit"]:
            hits.append(at)
            must_report(task, inst, what)
            if a.seq != at + 1:
                raise Violation("went-on", f"{what}, but {a.seq - at - 1} further requests followed")
        if digest([a.mat, b.mat]) != pre:
            raise Violation("inputs-modified", f"{what}: the caller's data changed")
        again = run_solo(lambda: use(a.op, b.op), mode=jax.disable_jit)
        if again.error is not None:
            raise Violation("residue", f"{what}: the retry raised {type(again.error).__name__}: {str(again.error)[:300]}")
        if digest(again.result) != want:
            raise Violation("residue", f"{what}: the retry gives another result")
    return {"faults": {"operator-" + plan["exc"]: len(hits)}, "steps": ref.lines * (1 + 2 * len(hits)), "requests": total * (1 + len(hits)),
            "sig": (plan["what"], plan["g"], hits), "nontrivial": bool(hits), "probes": {"party-aborts": len(hits)}, "log": [want, hits, total]}


def shrink(plan):
    if plan["mode"] == "party":
        if plan["at"] is None:
            for k in range(12):
                yield dict(plan, at=k / 12)
        return
    if plan["mode"] == "sweep":
        only = plan["only"] if plan["only"] is not None else list(range(80))
        size = -(-len(only) // 2)
        while len(only) > 1:
            for at in range(0, len(only), size):
                yield dict(plan, only=only[at:at + size])
            if size == 1:
                break
            size = -(-size // 2)
        return
    if plan["mode"] == "jit":
        calls = plan["calls"]
        size = len(calls) // 2
        while size >= 1:
            for at in range(0, len(calls), size):
                c = calls[:at] + calls[at + size:]
                if c:
                    yield dict(plan, calls=c)
            size //= 2
        return
    if plan["mode"] == "solve":
        for b in sorted({1, plan["budget"] // 2}):
            if SPECS[plan["solver"]].budgets[0] <= b < plan["budget"]:
                yield dict(plan, budget=b)
        for c in common.shrink_case(plan["case"]):
            yield dict(plan, case=c)
        for a in (0.0, plan["at"] / 2):
            if a < plan["at"]:
                yield dict(plan, at=a)
        return
    if len(plan["at"]) > 1:
        for a in plan["at"]:
            yield dict(plan, at=[a])
    if plan.get("other"):
        yield {k: v for k, v in plan.items() if k not in ("other", "schedule")}
        s = plan["schedule"]
        for at in range(0, len(s), max(1, len(s) // 4)):
            yield dict(plan, schedule=s[:at] + s[at + max(1, len(s) // 4):])
    if plan.get("probe"):
        yield dict(plan, probe=None)
