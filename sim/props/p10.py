"""P10 - randomness comes from the caller's key and from nothing else."""
import os
import random

import jax
import numpy as np

import cr.sparse.data as crdata
import cr.sparse.dict as crdict
from cr.sparse import lop
from .. import ambient, boot, catalog, simfs
from ..catalog import ENTRIES, KEYED
from ..experiment import Clock, World, gen_experiment, quiet_run
from ..sched import Hang, ThreadSim
from ..util import Violation, derive, digest, rng_for

ID = "P10"
PER = 4                                     # entries per process history
KEYS = 4                                    # keys per call
_parts = -(-len(KEYED) // PER)
ROUNDS = {"quick": 3, "thorough": 24}
THREADS = {"quick": 80, "thorough": 1600}
EXPS = {"quick": 24, "thorough": 400}
WIDES = {"quick": 40, "thorough": 600}
COVERS = {"quick": 24, "thorough": 360}
LAYOUTS = 6
RUNS = {t: ROUNDS[t] * _parts + THREADS[t] + EXPS[t] + WIDES[t] + COVERS[t] for t in ROUNDS}
GROUPS = 1
COSTLY = {"cluster.normalized_symmetric_fast_k"}
CONTINUOUS = ("dict.gaussian_mtx", "dict.random_onb", "dict.random_orthonormal_rows", "data.sparse_normal_representations",
              "data.sparse_biuniform_representations", "data.points_orthogonal_to", "data.sparse_normal_blocks", "data.random_subspaces",
              "data.uniform_points_on_subspaces")
COLUMNS = ("dict.rademacher_mtx", "dict.sparse_binary_mtx", "data.index_sets")


def chunks(tier):
    n = ROUNDS[tier] * _parts
    out = [[i] for i in range(n)]
    rest = list(range(n, RUNS[tier]))
    return out + [rest[a:a + 13] for a in range(0, len(rest), 13)]


def gen(idx, seed, tier):
    n = ROUNDS[tier] * _parts
    if idx < n:
        return gen_draws(idx, seed)
    idx -= n
    if idx < THREADS[tier]:
        return gen_threads(idx, seed)
    idx -= THREADS[tier]
    if idx < EXPS[tier]:
        return gen_exp(idx, seed)
    idx -= EXPS[tier]
    if idx < WIDES[tier]:
        return gen_wide(idx, seed)
    return gen_cover(idx - WIDES[tier], seed)


def gen_ambient(r):
    return {"np": r.randrange(1 << 31), "py": r.randrange(1 << 31), "draw": r.randrange(4), "start": r.choice([0.0, 7.25, 1e6]) + r.random(),
            "wall": r.choice([0.0, 1.7e9, 4.2e9]) + r.random(), "env": r.randrange(1000)}


def gen_draws(idx, seed):
    rnd, part = divmod(idx, _parts)
    r = rng_for("P10", seed, rnd)
    names = list(KEYED)
    r.shuffle(names)
    r = rng_for("P10", seed, rnd, part)
    steps = []
    for nm in names[part * PER:(part + 1) * PER]:
        e = ENTRIES[nm]
        for v in r.sample(range(e.variants), min(1 if nm in COSTLY else 2, e.variants)):
            for k in range(KEYS):
                steps.append({"call": [nm, v, k], "amb": gen_ambient(r)})
    r.shuffle(steps)
    for _ in range(len(steps) // 4):
        steps.insert(r.randrange(len(steps) + 1), {"call": r.choice(steps)["call"], "amb": gen_ambient(r)})
    return {"mode": "draws", "steps": steps}


def gen_threads(idx, seed):
    r = rng_for("P10-thr", seed, idx)
    pool = [n for n in KEYED if n not in COSTLY and ENTRIES[n].eager]
    base = pool[idx % len(pool)]
    names = [base, base if r.random() < 0.6 else r.choice(pool)]
    threads = [[[nm, r.randrange(ENTRIES[nm].variants), r.randrange(KEYS)] for _ in range(r.choice([1, 2]))] for nm in names]
    return {"mode": "threads", "threads": threads, "amb": gen_ambient(r),
            "schedule": [[r.randrange(2), r.choice([1, 1, 2, 3, 5, 9, 20])] for _ in range(r.choice([5, 15, 40]))]}


def gen_exp(idx, seed):
    r = rng_for("P10-exp", seed, idx)
    return {"mode": "exp", "layout": r.randrange(LAYOUTS), "amb": gen_ambient(r)}


def gen_wide(idx, seed):
    r = rng_for("P10-wide", seed, idx)
    return {"mode": "wide", "gen": list(GENS)[idx % len(GENS)], "size": r.choice([20, 40, 70, 130, 200]), "opt": r.randrange(4), "seed": r.randrange(1 << 30),
            "keys": r.choice(["consecutive", "split", "fold"]), "amb": gen_ambient(r)}


def gen_cover(idx, seed):
    r = rng_for("P10-cover", seed, idx)
    return {"mode": "cover", "gen": list(GENS)[idx % len(GENS)], "opt": r.randrange(4), "seed": r.randrange(1 << 30),
            "keys": r.choice(["consecutive", "split", "fold"]), "amb": gen_ambient(r)}


def solo(claim):
    pre, nm, v, k = claim.split("|")
    if pre == "exp":
        return {"mode": "exp", "layout": int(v), "amb": gen_ambient(rng_for("solo", claim))}
    if pre == "eager":
        return {"mode": "threads", "threads": [[[nm, int(v), int(k)]]], "schedule": [], "amb": gen_ambient(rng_for("solo", claim))}
    return {"mode": "draws", "steps": [{"call": [nm, int(v), int(k)], "amb": gen_ambient(rng_for("solo", claim))}]}


def prep(call):
    nm, v, k = call
    return catalog.prepare(nm, v, keyseed=derive("P10-key", nm, v, k) % (1 << 31))


class Surroundings:
    """Everything around a call that must not matter, set to planned values."""

    def __init__(self, amb):
        self.amb = amb

    def __enter__(self):
        a = self.amb
        np.random.seed(a["np"])
        random.seed(a["py"])
        for _ in range(a["draw"]):
            np.random.rand(), random.random()
        os.environ["SIM_NOISE"] = str(a["env"])
        self.before = ambient.snapshot()
        boot.set_clock(Clock(start=a["start"], wall=a["wall"]))
        return self

    def __exit__(self, *exc):
        boot.set_clock(None)
        self.bad = ambient.changed(self.before, ambient.snapshot())
        return False


def leaves(res):
    return [np.asarray(a) for a in jax.tree_util.tree_leaves(res) if hasattr(a, "shape") and np.size(a) > 1]


def judge_batch(nm, what, res):
    """The items drawn by one call are separate draws."""
    ls = leaves(res)
    if nm in CONTINUOUS:
        fl = [np.abs(a).ravel() for a in ls if a.dtype.kind in "fc"]
        a = np.concatenate(fl)
        a = a[a > 1e-6]
        if len(np.unique(a)) < 0.9 * len(a):
            raise Violation("repeated-draws", f"{what}: only {len(np.unique(a))} of {len(a)} drawn values are distinct")
    elif nm in COLUMNS:
        a = ls[0]
        a = a if a.ndim == 2 else a.reshape(a.shape[0], -1)
        axes = (0, 1) if nm != "data.index_sets" else (0,)
        for ax in axes:
            if a.shape[ax] > 1 and len({digest(x) for x in np.moveaxis(a, ax, 0)}) == 1:
                raise Violation("repeated-draws", f"{what}: all {a.shape[ax]} items along axis {ax} are the same draw")


def judge_relative(nm, what, c, res):
    """Draws seen through the caller's data: points on different subspaces are separate draws."""
    if nm != "data.uniform_points_on_subspaces":
        return
    bases, X = np.asarray(c.inputs[-1], float), np.asarray(res, float)
    n = X.shape[1] // len(bases)
    seen = {}
    for i, B in enumerate(bases):
        co = np.linalg.lstsq(B, X[:, i * n:(i + 1) * n], rcond=None)[0]
        co = co / np.linalg.norm(co, axis=0)
        for j in range(n):
            for at, other in seen.items():
                if np.abs(co[:, j] - other).max() < 1e-5:
                    raise Violation("repeated-draws", f"{what}: point {j} of subspace {i} has the coefficients of {at}")
        seen.update({f"point {j} of subspace {i}": co[:, j] for j in range(n)})


def judge_keys(by):
    """Different keys give different draws, in every random part of the result."""
    n = 0
    for (nm, v), draws in sorted(by.items()):
        if not ENTRIES[nm].varies or len(draws) < KEYS:
            continue
        for j in range(len(next(iter(draws.values())))):
            seen = {d[j] for d in draws.values()}
            n += 1
            if len(seen) < 2:
                raise Violation("key-ignored", f"{nm} variant {v}: part {j} of the result is the same for {len(draws)} different keys")
    return n


def exec_draws(plan):
    claims, by, n = {}, {}, 0
    for n, st in enumerate(plan["steps"]):
        nm, v, k = call = st["call"]
        c, fn = prep(call)
        pre = digest(c.inputs)
        what = f"step {n} {call}"
        try:
            with Surroundings(st["amb"]) as s:
                res = fn()
                jax.block_until_ready(res)
        except Exception as e:
            raise Violation("raised", f"{what}: {type(e).__name__}: {str(e)[:300]}")
        if s.bad:
            raise Violation("ambient", f"{what}: changed {s.bad}")
        if digest(c.inputs) != pre:
            raise Violation("inputs-modified", f"{what}: the caller's key or data changed")
        d = digest(res)
        if claims.setdefault(f"jit|{nm}|{v}|{k}", d) != d:
            raise Violation("not-reproducible", f"{what}: another result for the same key and arguments")
        by.setdefault((nm, v), {})[k] = [digest(a) for a in leaves(res)]
        judge_batch(nm, what, res)
        judge_relative(nm, what, c, res)
    parts = judge_keys(by)
    return claims, {"draws": len(plan["steps"]), "key-variation": parts}, ("draws", plan["steps"]), {"ambient-noise": len(plan["steps"])}


def _dense(op, n):
    return np.stack([np.asarray(op.times(jax.numpy.eye(n)[:, j])) for j in range(n)], 1)


# name: (kind, draw(key, n items, small, option)) -> items as columns.  "cont": continuous values, "disc": discrete ones
GENS = {
    "gaussian_mtx": ("cont", lambda k, n, sm, o: crdict.gaussian_mtx(k, 6 if sm else 24, n, normalize_atoms=bool(o % 2))),
    "gaussian_dict": ("cont", lambda k, n, sm, o: _dense(lop.gaussian_dict(k, 6 if sm else 24, n, normalize_atoms=bool(o % 2)), n)),
    "rademacher_mtx": ("disc", lambda k, n, sm, o: crdict.rademacher_mtx(k, 6 if sm else 40, n, normalize_atoms=bool(o % 2))),
    "rademacher_dict": ("disc", lambda k, n, sm, o: _dense(lop.rademacher_dict(k, 6 if sm else 40, n, normalize_atoms=bool(o % 2)), n)),
    "sparse_binary_mtx": ("disc", lambda k, n, sm, o: crdict.sparse_binary_mtx(k, 6 if sm else 64, n, d=3 if sm else 12, normalize_atoms=bool(o % 2), dense=True)),
    "sparse_binary_bcoo": ("disc", lambda k, n, sm, o: crdict.sparse_binary_mtx(k, 6 if sm else 64, n, d=3 if sm else 12, normalize_atoms=bool(o % 2)).todense()),
    "sparse_binary_dict": ("disc", lambda k, n, sm, o: _dense(lop.sparse_binary_dict(k, 6 if sm else 64, n, d=3 if sm else 12, dense=bool(o % 2)), n)),
    "random_onb": ("cont", lambda k, n, sm, o: crdict.random_onb(k, min(n, 48))),
    "random_orthonormal_rows": ("cont", lambda k, n, sm, o: crdict.random_orthonormal_rows(k, 4 if sm else 16, n)),
    "sparse_normal_representations": ("sparse", lambda k, n, sm, o: crdata.sparse_normal_representations(k, 6 if sm else 60, 3 if sm else 8, n)),
    "sparse_normal_single": ("sparse", lambda k, n, sm, o: [a[:, None] if a.ndim == 1 and j == 0 else a for j, a in enumerate(crdata.sparse_normal_representations(k, n, max(2, n // 3)))]),
    "sparse_biuniform_representations": ("sparse", lambda k, n, sm, o: crdata.sparse_biuniform_representations(k, 1.0, 3.0, 6 if sm else 60, 3 if sm else 8, n)),
    "sparse_spikes": ("sparse-disc", lambda k, n, sm, o: crdata.sparse_spikes(k, 6 if sm else 120, 3 if sm else 40, n)),
    "index_sets": ("disc", lambda k, n, sm, o: (lambda a: a.T if o % 2 == 0 else a)(crdata.index_sets(k, 8 if sm else 64, 3 if sm else 12, n, o % 2))),
    "points_orthogonal_to": ("cont", lambda k, n, sm, o: crdata.points_orthogonal_to(k, jax.numpy.arange(1.0, (6 if sm else 20) + 1), n).T),
    "sparse_normal_blocks": ("sparse", lambda k, n, sm, o: (lambda x, b, i: [x, i])(*crdata.sparse_normal_blocks(k, 8 if sm else 64, 2 if sm else 4, 2 if sm else 4, n, (0.0, 0.6)[o % 2], o > 1))),
    "random_subspaces": ("cont", lambda k, n, sm, o: jax.numpy.concatenate(crdata.random_subspaces(k, 6 if sm else 20, 2, max(1, min(n, 60) // 2)), 1)),
    "uniform_points_on_subspaces": ("cont", lambda k, n, sm, o: crdata.uniform_points_on_subspaces(k, [jax.numpy.eye(20)[:, :5]] * (1 if sm else 4), max(1, n // 4))[:5]),
    "binary_dict_alg": ("disc", lambda k, n, sm, o: _dense(lop.binary_dict_alg(k, 6 if sm else 40, min(n, 20)), min(n, 20))),
}


def some_keys(plan, n):
    s = plan["seed"]
    if plan["keys"] == "consecutive":
        return [jax.random.PRNGKey(s + j) for j in range(n)]
    if plan["keys"] == "split":
        return list(jax.random.split(jax.random.PRNGKey(s), n))
    return [jax.random.fold_in(jax.random.PRNGKey(s), j) for j in range(n)]


def items_of(kind, res):
    """The drawn items as columns, with the part they share (the common support) apart."""
    if kind.startswith("sparse"):
        x, omega = np.asarray(res[0], float), np.asarray(res[1])
        x = x[:, None] if x.ndim == 1 else x
        return x[np.sort(omega)], x, omega
    a = np.asarray(res, float)
    return a, a, None


def exec_wide(plan):
    """A large batch: no item, and no item of the next keys' batches, is drawn twice."""
    kind, draw = GENS[plan["gen"]]
    what = f"{plan['gen']} with {plan['size']} items, option {plan['opt']}, {plan['keys']} keys from {plan['seed']}"
    seen, n = {}, 0
    supports = set()
    values, total = set(), 0
    with Surroundings(plan["amb"]) as s:
        for j, key in enumerate(some_keys(plan, 3)):
            a, full, omega = items_of(kind, draw(key, plan["size"], False, plan["opt"]))
            if not np.isfinite(a).all():
                raise Violation("not-finite", f"{what}: draw {j} has values which are not finite")
            if omega is not None:
                supports.add(tuple(omega.tolist()))
            for col in range(a.shape[1]):
                x = a[:, col]
                n += 1
                if len(x) < 2:
                    continue
                if kind == "cont" or kind == "sparse":
                    nx = np.linalg.norm(x)
                    x = np.round(np.abs(x) / (nx or 1.0), 5) + 0.0
                d = digest(x)
                if d in seen:
                    raise Violation("repeated-draws", f"{what}: item {col} of key {j} is item {seen[d][1]} of key {seen[d][0]} over again")
                seen[d] = (j, col)
            if kind in ("cont", "sparse"):
                v = np.abs(a).ravel()
                v = v[v > 1e-3]
                total += len(v)
                values.update(v.tolist())
    if s.bad:
        raise Violation("ambient", f"{what}: changed {s.bad}")
    if total and len(values) < 0.97 * total:
        raise Violation("repeated-draws", f"{what}: only {len(values)} of {total} drawn values are distinct")
    if kind.startswith("sparse") and len(supports) < 2:
        raise Violation("key-ignored", f"{what}: three keys give the same support")
    return {}, {"wide-items": n}, ("wide", plan), {"ambient-noise": 1}


COVER_KEYS = 56


def exec_cover(plan):
    """Over many keys every entry that is drawn takes several values."""
    kind, draw = GENS[plan["gen"]]
    what = f"{plan['gen']}, option {plan['opt']}, {plan['keys']} keys from {plan['seed']}"
    out = []
    with Surroundings(plan["amb"]) as s:
        for key in some_keys(plan, COVER_KEYS):
            res = draw(key, 6, True, plan["opt"])
            out.append(np.asarray(res[0] if kind.startswith("sparse") else res, float))
    if s.bad:
        raise Violation("ambient", f"{what}: changed {s.bad}")
    a = np.stack(out)
    a = a.reshape(len(a), -1)
    spread = a.max(0) - a.min(0)
    stuck = np.flatnonzero(~(spread > 1e-6))
    if len(stuck):
        raise Violation("key-ignored", f"{what}: entries {stuck[:5].tolist()} are the same for {len(a)} different keys")
    return {}, {"cover-entries": a.shape[1]}, ("cover", plan), {"ambient-noise": 1}


def exec_threads(plan):
    prepared = [[(call, *prep(call)) for call in th] for th in plan["threads"]]
    sim = ThreadSim(schedule=plan["schedule"], mode=jax.disable_jit)
    with Surroundings(plan["amb"]) as s:
        try:
            tasks = sim.run([(lambda th=th: [fn() for _, _, fn in th]) for th in prepared])
        except Hang as e:
            raise Violation("deadlock", f"{plan['threads']}: {e}")
    claims = {}
    for t, (task, th) in enumerate(zip(tasks, prepared)):
        if task.error is not None:
            raise Violation("raised", f"thread {t} {plan['threads'][t]}: {type(task.error).__name__}: {str(task.error)[:300]}")
        for (call, c, fn), res in zip(th, task.result):
            d = digest(res)
            if claims.setdefault(f"eager|{call[0]}|{call[1]}|{call[2]}", d) != d:
                raise Violation("not-reproducible", f"{call}: two threads get different results for the same key")
    if s.bad:
        raise Violation("ambient", f"{plan['threads']}: changed {s.bad}")
    # the same calls again, alone, in other surroundings
    for th in plan["threads"]:
        for call in th:
            c, fn = prep(call)
            with Surroundings(dict(plan["amb"], np=plan["amb"]["np"] ^ 1, py=plan["amb"]["py"] ^ 1)), jax.disable_jit():
                d = digest(fn())
            if d != claims[f"eager|{call[0]}|{call[1]}|{call[2]}"]:
                raise Violation("not-reproducible", f"{call}: another result when interleaved with {plan['threads']}")
    return claims, {"interleaved": int(sim.switches > 1)}, ("thr", digest(sim.trace)), {"ambient-noise": 1, "preempt": sim.switches}


def exec_exp(plan):
    r = rng_for("P10-layout", plan["layout"])
    p = gen_experiment(r, small=True)
    claims = {}
    fs = simfs.SimFS(())
    try:
        world = World(p, fs, None)
        with Surroundings(plan["amb"]) as s:
            ev = world.build()
            exc = quiet_run(lambda: ev(fs.path("r.csv")), fs, Clock(start=plan["amb"]["start"], wall=plan["amb"]["wall"]))
        if exc is not None:
            raise Violation("raised", f"the experiment failed with {type(exc).__name__}: {exc}")
        if s.bad:
            raise Violation("ambient", f"the experiment changed {s.bad}")
        claims[f"exp|-|{plan['layout']}|-"] = digest([[c.solver, int(c.K), c.phi, c.y] for c in world.calls])
        n = len(world.calls)
    finally:
        fs.destroy()
    return claims, {"experiments": 1, "posed-problems": n}, ("exp", plan), {"ambient-noise": 1}


def execute(plan):
    claims, probes, sig, faults = {"draws": exec_draws, "threads": exec_threads, "exp": exec_exp, "wide": exec_wide, "cover": exec_cover}[plan["mode"]](plan)
    return {"faults": faults, "steps": 0, "requests": len(claims), "claims": claims, "sig": sig, "nontrivial": True, "probes": probes,
            "log": sorted(claims.items())}


def shrink(plan):
    if plan["mode"] == "draws":
        st = plan["steps"]
        size = len(st) // 2
        while size >= 1:
            for at in range(0, len(st), size):
                c = st[:at] + st[at + size:]
                if c:
                    yield dict(plan, steps=c)
            size //= 2
    elif plan["mode"] == "wide":
        for n in (8, 16, 20, 40, 70, 130):
            if n < plan["size"]:
                yield dict(plan, size=n)
    elif plan["mode"] == "threads":
        th = plan["threads"]
        for k in range(len(th)):
            if len(th) > 1:
                yield dict(plan, threads=th[:k] + th[k + 1:])
            if len(th[k]) > 1:
                for j in range(len(th[k])):
                    yield dict(plan, threads=th[:k] + [th[k][:j] + th[k][j + 1:]] + th[k + 1:])
        s = plan["schedule"]
        for at in range(0, len(s), max(1, len(s) // 4)):
            yield dict(plan, schedule=s[:at] + s[at + max(1, len(s) // 4):])
