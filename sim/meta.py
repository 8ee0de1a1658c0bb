"""What the coordinator needs to know about each property (no jax import here)."""
import os

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

_SOLVER_REAL = ["every solver under cr.sparse (pursuit, cvx, fom, sls, opt, block, cs1bit, cluster.vq), eager mode",
                "cr.sparse.lop operator algebra", "jax/XLA CPU kernels, LAPACK"]
_EXP_REAL = ["cr.sparse.ef recovery experiment driver", "cr.sparse.RecoveryPerformance", "cr.sparse.data / cr.sparse.dict generators",
             "pandas CSV writer", "python file API"]
_EXP_STUB = ["solvers (answer with planned quality, iterations and delay)",
             "disk (page cache, directory entries, durability, faults; backed by a scratch directory)"]

META = {
    "P01": {
        "rule": "distinct sequence of disk operations + fault kinds fired + way the run ended",
        "components": {"real": _EXP_REAL, "stub": _EXP_STUB},
        "assumptions": ["one process writes the file at a time",
                        "a successful rename is atomic for readers; without fsync a power loss may keep, drop or truncate any not yet synced content",
                        "solvers are stand-ins: what they compute does not matter to durability"],
        "chunk": 20,
    },
    "P02": {
        "rule": "distinct sequence of solver answers x trial layout x interference x way the run ended",
        "components": {"real": _EXP_REAL, "stub": _EXP_STUB},
        "assumptions": ["dictionaries are tall, so the stand-in solver can identify the posed signal by least squares",
                        "recovery qualities stay at least 3 dB away from the documented success threshold"],
        "chunk": 20,
    },
    "P03": {
        "rule": "distinct sequence of trial durations x layout x disk delays",
        "components": {"real": _EXP_REAL, "stub": _EXP_STUB + ["clock (monotonic, wall with jumps, cpu time with stalls)"]},
        "assumptions": ["time passes only inside solver calls and disk operations"],
        "chunk": 20,
    },
    "P06": {
        "rule": "distinct (solver, budget, iterations done, operator requests, fault kinds fired) with at least one fault fired",
        "components": {"real": _SOLVER_REAL, "stub": ["the operator (or objective/projection callbacks, or data source) party"]},
        "assumptions": ["eager execution: the iteration logic is the same python code that is traced under jit",
                        "solvers which hand their data to LAPACK are given finite faults only (LAPACK itself may spin on nan)"],
        "chunk": 16, "timeout": 260,
    },
    "P07": {
        "rule": "distinct (solver, budget, counter values)",
        "components": {"real": _SOLVER_REAL, "stub": ["the operator party, which counts"]},
        "assumptions": ["eager execution"],
        "chunk": 24,
    },
    "P08": {
        "rule": "distinct (solver, problem, budget, iterations done) with at least one iteration",
        "components": {"real": _SOLVER_REAL, "stub": ["the operator party (fault free), the tracker sink"]},
        "assumptions": ["eager execution", "float32 tolerance 2e-4 relative to the problem's scale",
                        "records containing non-finite iterates are not judged"],
        "chunk": 16,
    },
    "P04": {
        "rule": "distinct call histories (compiled) and distinct sequences of context switches (threads)",
        "components": {"real": ["every public module of cr.sparse (see sim/catalog.py)", "jax tracing, compilation caches, XLA CPU"],
                       "stub": ["thread scheduler (line granularity, eager mode)"]},
        "assumptions": ["XLA CPU with one intra-op thread is bitwise reproducible for the same program and inputs",
                        "threads switch only at source lines of the library (finer switches inside numpy/jax C++ are not explored)"],
        "fresh": True, "hashseeds": True, "recheck": {"quick": 6, "thorough": 20}, "timeout": 260,
    },
    "P05": {
        "rule": "distinct (call, line of the abort or operator request that failed, exception, bystander)",
        "components": {"real": ["every public module of cr.sparse (see sim/catalog.py)", "jax tracing, compilation caches, XLA CPU"],
                       "stub": ["thread scheduler (line granularity, eager mode)", "operator party"]},
        "assumptions": ["aborts arrive at source lines of the library (or inside the caller's operator), not inside numpy/jax internals",
                        "jax and numpy themselves recover from exceptions"],
        "fresh": True, "hashseeds": True, "recheck": {"quick": 6, "thorough": 20}, "timeout": 260,
    },
    "P09": {
        "rule": "distinct (scenario, solver, problem, budget, point of failure, interleaving)",
        "components": {"real": _SOLVER_REAL + ["built-in trackers", "jax.debug.callback (eager and compiled)"],
                       "stub": ["operator party", "tracker sink party", "thread scheduler"]},
        "assumptions": ["compiled solves run on one CPU device, which delivers callbacks in program order"],
        "chunk": 16,
    },
    "P10": {
        "rule": "distinct histories of keyed calls and surroundings, interleavings, experiment layouts",
        "components": {"real": ["every public call of cr.sparse that takes a random key (generators, dictionaries, problems, clustering)",
                                "cr.sparse.ef recovery experiment driver", "jax.random, XLA CPU"],
                       "stub": ["global numpy and python random generators (seeded by the plan)", "clock", "hash seed", "disk", "solvers of the experiment",
                                "thread scheduler (line granularity, eager mode)"]},
        "assumptions": ["jax.random itself is a pure function of its key"],
        "fresh": True, "hashseeds": True, "recheck": {"quick": 6, "thorough": 20}, "timeout": 260,
    },
    "P11": {
        "rule": "distinct (solver, problem, iterations to convergence, budgets, fault kinds)",
        "components": {"real": _SOLVER_REAL, "stub": ["operator (or data) party"]},
        "assumptions": ["eager execution"],
        "chunk": 12,
    },
}
