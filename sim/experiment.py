"""Simulation of a recovery experiment: the experiment driver is real code, the
solvers, the clock and the disk are simulated parties."""
import csv
import io
import threading

import jax.numpy as jnp
import numpy as np

from cr.sparse.ef import RecoveryTrialsAtFixed_M_N
from cr.sparse import RecoveryFullSolution
from cr.sparse.pursuit import RecoverySolution

from . import boot
from .util import SimFault, SimAbort, digest, np_rng

FIELDS = ["method", "m", "n", "k", "trials", "successes", "failures", "success_rate",
          "min_iters", "max_iters", "mean_iters", "runtime", "mean_runtime"]


class Clock:
    """Simulated time.  mono: elapsed; cpu: excludes stalls; wall: can jump."""

    def __init__(self, start=1000.0, wall=1.7e9):
        self.now = start
        self.wall0 = wall
        self.cpu = 10.0
        self.reads = 0
        self.ident = threading.get_ident()
        self.jumps = 0

    def mine(self):
        return threading.get_ident() == self.ident

    def advance(self, secs, cpu=1.0):
        self.now += secs
        self.cpu += secs * cpu

    def jump(self, secs):
        self.wall0 += secs
        self.jumps += 1

    def read(self, name, *args):
        self.reads += 1
        if name == "sleep":
            self.advance(args[0], 0.0)
            return None
        base = name.removesuffix("_ns")
        v = {"perf_counter": self.now, "monotonic": self.now, "time": self.wall0 + self.now,
             "process_time": self.cpu, "thread_time": self.cpu}[base]
        return int(round(v * 1e9)) if name.endswith("_ns") else v


class Call:
    """What one solver call saw and answered."""
    __slots__ = ("solver", "K", "phi", "y", "x", "quality", "iters", "secs", "success", "order")


class SolverNode:
    """A solver as an independent party: recovers x from (Phi, y) exactly (the
    dictionaries are tall, so least squares identifies x), then answers with the
    quality, number of iterations and delay that the plan asks for."""

    def __init__(self, world, name, answers):
        self.world = world
        self.name = name
        self.answers = answers
        self.n = 0

    def __call__(self, Phi, y, K, *args, **kw):
        w = self.world
        a = self.answers[self.n % len(self.answers)]
        self.n += 1
        P, v = np.asarray(Phi, dtype=np.float64), np.asarray(y, dtype=np.float64)
        x, *_ = np.linalg.lstsq(P, v, rcond=None)
        x[np.abs(x) < 2e-5 * (np.abs(x).max() or 1.0)] = 0.0
        c = Call()
        c.solver, c.K, c.phi, c.y = self.name, int(K), digest(P), digest(v)
        c.x = x
        c.quality, c.iters, c.secs = a["q"], a["it"], a["secs"]
        c.success = a["q"] in ("exact", "close", "dense", "good", "extra", "permuted")
        if a["q"] == "swap":
            c.success = swapped(x, a) <= 0.25 * np.count_nonzero(x) - 1e-9
        c.order = len(w.calls)
        w.before_call(c)
        w.calls.append(c)
        clock = w.clock
        if clock is not None:
            clock.advance(a["secs"], a.get("cpu", 1.0))
            if a.get("jump"):
                clock.jump(a["jump"])
                w.fired["clock-jump"] = w.fired.get("clock-jump", 0) + 1
            if a.get("cpu", 1.0) < 1.0:
                w.fired["stall"] = w.fired.get("stall", 0) + 1
        if a["q"] == "raise":
            w.fired["solver-exception"] = w.fired.get("solver-exception", 0) + 1
            raise SimFault("solver failed")
        if a["q"] == "abort":
            w.fired["interrupt"] = w.fired.get("interrupt", 0) + 1
            raise SimAbort("interrupted in the solver")
        if a["q"] == "kill":
            from .simfs import SimCrash
            w.fired["kill-in-solver"] = w.fired.get("kill-in-solver", 0) + 1
            w.fs.dead = True
            raise SimCrash()
        return self.answer(x, int(K), a, P, v)

    def answer(self, x, K, a, P, v):
        n = len(x)
        I = np.flatnonzero(x)
        g = np_rng("answer", self.name, self.n)
        q = a["q"]
        if len(I) != K:                # should not happen, judged by the oracle
            I = np.argsort(-np.abs(x))[:K]
        vals = x[I]
        nx = np.linalg.norm(vals)
        noise = g.standard_normal(len(vals))
        noise = noise / (np.linalg.norm(noise) or 1.0) * nx
        if q == "close":
            vals = vals + 1e-3 * noise            # about 60 dB
        elif q == "good":
            vals = vals + 10 ** (-38 / 20) * noise   # 38 dB
        elif q == "fair":
            vals = vals + 10 ** (-24 / 20) * noise   # 24 dB
        elif q == "poor":
            vals = vals + 0.3 * noise             # about 10 dB
        elif q == "nan":
            vals = vals * np.nan
        elif q == "zero":
            vals = vals * 0.0
        elif q == "wrong":
            others = np.setdiff1d(np.arange(n), I)
            I = np.sort(g.choice(others, size=len(I), replace=len(others) < len(I)))
        elif q == "swap":
            j = swapped(x, a)
            small, others = np.argsort(np.abs(vals))[:j], np.setdiff1d(np.arange(n), I)
            leak = I[small], 1e-2 * vals[small]
            I = I.copy()
            I[small] = g.choice(others, size=j, replace=False)
        elif q == "permuted":
            at = g.permutation(len(I))
            I, vals = I[at], vals[at]
        full = np.zeros(n)
        full[I] = vals
        if q == "swap" and a.get("leak"):
            full[leak[0]] = leak[1]
            q = "dense"
        if q == "extra":
            others = np.setdiff1d(np.arange(n), I)
            full[others] = g.choice([-1, 1], size=len(others)) * 0.1 * min(np.abs(vals).min(), 0.05 * nx / np.sqrt(n))
            q = "dense"
        r = v - P @ full
        if q == "dense":
            return RecoveryFullSolution(x=jnp.asarray(full, dtype=jnp.float32), r=jnp.asarray(r, dtype=jnp.float32),
                                        iterations=count(a), n_times=0, n_trans=0)
        return RecoverySolution(x_I=jnp.asarray(vals, dtype=jnp.float32), I=jnp.asarray(I),
                                r=jnp.asarray(r, dtype=jnp.float32), r_norm_sqr=float(r @ r),
                                iterations=count(a), length=n)


def count(a):
    """Iterations as the library's own solvers report them: a number or a scalar array."""
    return jnp.asarray(a["it"]) if a.get("arr") else a["it"]


def swapped(x, a):
    """How many of the smallest coefficients can be misplaced with the recovery SNR still above 32 dB (at most a["j"])."""
    v = np.sort(np.abs(x[x != 0.0]))
    nx, j = np.linalg.norm(v), 0
    while j < min(a.get("j", 1), len(v), len(x) - len(v)) and 20 * np.log10(nx / (np.sqrt(2.0) * np.linalg.norm(v[:j + 1]))) > 32.0:
        j += 1
    return j


class World:
    """One experiment run and everything around it."""

    def __init__(self, plan, fs=None, clock=None):
        self.plan = plan
        self.fs = fs
        self.clock = clock
        self.calls = []
        self.fired = {}
        self.on_call = None

    def before_call(self, c):
        if self.on_call is not None:
            self.on_call(c)

    def build(self):
        p = self.plan
        ks = p["Ks"]
        ks = {"list": list, "tuple": tuple, "np": np.array, "jnp": jnp.array}[p.get("kt", "np")](ks)
        ev = RecoveryTrialsAtFixed_M_N(M=p["M"], N=p["N"], Ks=ks, num_dict_trials=p["nd"], num_signal_trials=p["ns"])
        for s in p["solvers"]:
            ev.add_solver(s["name"], SolverNode(self, s["name"], s["answers"]))
        return ev

    def levels(self):
        """The expected sequence of (solver, K)."""
        return [(s["name"], k) for s in self.plan["solvers"] for k in self.plan["Ks"]]


def gen_answers(r, n, faulty=True, timing=False):
    out = []
    qs = ["exact", "exact", "close", "dense", "good", "fair", "poor", "wrong", "zero", "nan", "swap", "swap", "swap", "extra", "permuted"]
    for _ in range(n):
        a = {"q": r.choice(qs) if faulty else "exact", "it": r.choice([r.randint(1, 40), r.randint(1, 40), r.randint(100, 70000)]), "secs": r.choice([0.0, 0.001, 0.25, 1.5, 7.0])}
        if a["q"] == "swap":
            a["j"] = r.randint(1, 3)
            a["leak"] = r.random() < 0.5
        if r.random() < 0.3:
            a["arr"] = True
        if timing:
            if r.random() < 0.3:
                a["cpu"] = r.choice([0.0, 0.2])
            if r.random() < 0.25:
                a["jump"] = r.choice([-86400.0, -3.0, 5.0, 3600.0])
        out.append(a)
    return out


def gen_experiment(r, timing=False, small=False):
    M, N = r.choice([(16, 8), (12, 8), (20, 10), (40, 24)])
    ks = r.sample([1, 2, 3, 4] if N < 20 else [1, 2, 4, 6, 8, 9], r.randint(1, 2 if small else 3))
    if r.random() < 0.6:
        ks.sort()
    if r.random() < 0.08:
        ks.append(r.choice(ks))
    nd, ns = r.choice([(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (2, 3), (4, 1), (1, 6), (3, 4)])
    names = r.sample(["OMP", "HTP", "IHT", "a,b", 'q"t', "S P"], r.choice([1, 1, 2, 2, 3]))
    if len(names) > 1 and r.random() < 0.12:
        names[-1] = names[0]
    return {"M": M, "N": N, "Ks": ks, "nd": nd, "ns": ns, "kt": r.choice(["np", "list", "tuple", "jnp"]),
            "solvers": [{"name": nm, "answers": gen_answers(r, r.randint(3, 9), timing=timing)} for nm in names]}


def parse(content):
    """Rows of a complete results table, or None when it is not one."""
    try:
        text = content.decode("utf-8")
    except UnicodeDecodeError:
        return None
    if not text.endswith("\n") or "\0" in text:
        return None
    try:
        rows = list(csv.reader(io.StringIO(text)))
    except csv.Error:
        return None
    if not rows or rows[0] != FIELDS:
        return None
    out = []
    for row in rows[1:]:
        if len(row) != len(FIELDS):
            return None
        d = dict(zip(FIELDS, row))
        try:
            for k in FIELDS[1:]:
                d[k] = float(d[k])
        except ValueError:
            return None
        out.append(d)
    return out


def quiet_run(fn, fs, clock=None):
    """Runs fn with the simulated disk (and clock) active; returns the exception or None."""
    boot.set_clock(clock)
    try:
        with fs:
            fn()
        return None
    except BaseException as exc:
        return exc
    finally:
        boot.set_clock(None)
        boot.set_fs(None)


def shrink_experiment(plan, need=None):
    def with_(**kw):
        p = dict(plan)
        p.update(kw)
        return p
    if len(plan["solvers"]) > 1:
        for k in range(len(plan["solvers"])):
            yield with_(solvers=plan["solvers"][:k] + plan["solvers"][k + 1:])
    if len(plan["Ks"]) > 1:
        for k in range(len(plan["Ks"])):
            yield with_(Ks=plan["Ks"][:k] + plan["Ks"][k + 1:])
    for key in ("nd", "ns"):
        if plan[key] > 1:
            yield with_(**{key: 1})
            yield with_(**{key: plan[key] - 1})
    fs = plan.get("faults", [])
    for k in range(len(fs)):
        yield with_(faults=fs[:k] + fs[k + 1:])
    for k, f in enumerate(fs):
        for at in sorted({0, f["at"] // 2, f["at"] - 1}):
            if 0 <= at < f["at"]:
                yield with_(faults=fs[:k] + [dict(f, at=at)] + fs[k + 1:])
    for i_, s in enumerate(plan["solvers"]):
        a = s["answers"]
        if len(a) > 1:
            for k in range(len(a)):
                yield with_(solvers=plan["solvers"][:i_] + [dict(s, answers=a[:k] + a[k + 1:])] + plan["solvers"][i_ + 1:])
        plain = [dict(q="exact", it=1, secs=0.0) if v["q"] not in ("raise", "abort", "kill") else v for v in a]
        if plain != a:
            yield with_(solvers=plan["solvers"][:i_] + [dict(s, answers=plain)] + plan["solvers"][i_ + 1:])
    for key, val in (("kt", "list"), ("M", 16), ("N", 8)):
        if plan.get(key) != val:
            yield with_(**{key: val})
