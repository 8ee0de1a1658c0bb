"""Coordinator: seeded search over simulated runs for one property.

  python -m sim.main P06 [quick|thorough]      check (exit 0 / 1)
  python -m sim.main --replay FILE             replay a violation exactly
"""
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
sys.path.insert(0, HERE)
from sim import meta  # noqa: E402


class Dead(Exception):
    pass


class Worker:
    def __init__(self, pid, hashseed="0", env=None):
        e = dict(os.environ)
        e.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONHASHSEED=hashseed,
                 PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
                 MPLCONFIGDIR=os.path.join(HERE, ".cache", "mpl"))
        e.update(env or {})
        self.hashseed = hashseed
        self.p = subprocess.Popen([PY, os.path.join(HERE, "sim", "worker.py"), pid],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None,
                                  env=e, text=True, cwd=HERE)
        self.q = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()
        self.history = []
        self.info = self.read(180)

    def _read(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def read(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            self.kill()
            raise Dead("timeout")
        if line is None:
            self.kill()
            raise Dead(f"worker exited with {self.p.wait()}")
        return json.loads(line)

    def ask(self, req, timeout):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except OSError:
            raise Dead("worker is gone")
        return self.read(timeout)

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.kill()


def known_findings(pid):
    """known: property=<id> match=<regex over "kind detail"> :: <what fails>"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.meta = meta.META[pid]
        self.first = Worker(pid)
        info = self.first.info
        self.runs = int(info["runs"][tier] * float(os.environ.get("VERIF_SCALE", "1")))
        self.groups = info["groups"]
        self.chunk_list = (info.get("chunks") or {}).get(tier)
        self.lock = threading.Lock()
        self.t0 = time.monotonic()
        self.deadline = self.t0 + self.meta.get("deadline", {}).get(tier, 420 if tier == "quick" else 780)
        self.ok = 0
        self.sigs = set()
        self.nontrivial_sigs = set()
        self.faults, self.probes = {}, {}
        self.steps = self.requests = 0
        self.simtime = 0.0
        self.samples, self.violations, self.harness = [], [], []
        self.known_hit = {}
        self.known = known_findings(pid)
        self.logs = {}
        self.stop = threading.Event()
        self.skipped = 0
        self.spawned = 0
        self.claims = {}
        self.n_claims = 0
        self.unconfirmed = []
        self.q = None

    def chunks(self):
        if self.chunk_list:
            return self.chunk_list
        g = self.groups
        per = [[i for i in range(k, self.runs, g)] for k in range(g)]
        size = self.meta.get("chunk", 24)
        out = []
        for lst in per:
            out += [lst[i:i + size] for i in range(0, len(lst), size)]
        return sorted(out, key=lambda c: c[0] % g)

    def worker_main(self, q):
        w = None
        fresh = self.meta.get("fresh", False)
        try:
            while not self.stop.is_set():
                try:
                    chunk = q.get_nowait()
                except queue.Empty:
                    break
                if w is None or fresh:
                    if w:
                        w.close()
                    w = self.spawn()
                for n, idx in enumerate(chunk):
                    if self.stop.is_set():
                        q.put(chunk[n:])
                        break
                    if time.monotonic() > self.deadline:
                        with self.lock:
                            self.skipped += 1
                        continue
                    req = {"op": "run", "idx": idx, "seed": self.seed, "tier": self.tier,
                           "sample": idx < 2 * self.groups}
                    try:
                        res = w.ask(req, self.meta.get("timeout", 200))
                    except Dead as d:
                        res = {"status": "dead", "detail": str(d)}
                    self.absorb(idx, res, list(w.history), w.hashseed)
                    w.history.append(idx)
                    if res["status"] in ("dead",):
                        w = self.spawn()
        except Dead as d:
            with self.lock:
                self.harness.append(f"worker did not start: {d}")
        finally:
            if w:
                w.close()

    def spawn(self):
        with self.lock:
            w, self.first = self.first, None
            self.spawned += 1
            n = self.spawned
        return w or Worker(self.pid, hashseed=str(n * 7919) if self.meta.get("hashseeds") else "0")

    def claim(self, key, dg, idx, history, hs):
        """The same call must give the same bits in every process and history."""
        self.n_claims += 1
        prev = self.claims.setdefault(key, (dg, idx, history, hs))
        if prev[0] == dg:
            return
        text = f"claims {key}"
        for rx, what in self.known:
            if rx.search(text):
                self.known_hit[what] = self.known_hit.get(what, 0) + 1
                return
        self.violations.append({"idx": idx, "kind": "claims", "claim": key, "plan": None, "history": history,
                                "a": (prev[2] + [prev[1]], prev[3]), "b": (history + [idx], hs),
                                "detail": f"{key} gives different results in two histories"})
        self.stop.set()

    def absorb(self, idx, res, history, hs="0"):
        with self.lock:
            if res["status"] == "ok":
                for key, dg in (res.get("claims") or {}).items():
                    self.claim(key, dg, idx, history, hs)
                self.ok += 1
                self.sigs.add(res["sig"])
                if res.get("nontrivial"):
                    self.nontrivial_sigs.add(res["sig"])
                for dst, key in ((self.faults, "faults"), (self.probes, "probes")):
                    for k, v in (res.get(key) or {}).items():
                        dst[k] = dst.get(k, 0) + v
                self.steps += res.get("steps", 0)
                self.requests += res.get("requests", 0)
                self.simtime += res.get("simtime", 0.0)
                self.logs[idx] = res["log"]
                if res.get("plan") is not None and len(self.samples) < 4 and res.get("nontrivial"):
                    self.samples.append({"idx": idx, "plan": res["plan"]})
            elif res["status"] == "violation":
                text = f"{res['kind']} {res['detail']}"
                for rx, what in self.known:
                    if rx.search(text):
                        self.known_hit[what] = self.known_hit.get(what, 0) + 1
                        self.ok += 1
                        return
                self.violations.append({"idx": idx, "kind": res["kind"], "detail": res["detail"],
                                        "plan": res["plan"], "history": history})
                self.stop.set()
            elif res["status"] == "dead":
                self.violations.append({"idx": idx, "kind": "dead", "detail": "simulated system died or hung: " + res["detail"],
                                        "plan": None, "history": history})
                self.stop.set()
            else:
                self.harness.append(f"run {idx}: {res['detail']}")
                if len(self.harness) > 20:
                    self.stop.set()

    def run(self, workers=None):
        if self.q is None:
            self.q = queue.Queue()
            for c in self.chunks():
                self.q.put(c)
        q = self.q
        self.stop.clear()
        n = min(workers or meta.WORKERS, q.qsize())
        ths = [threading.Thread(target=self.worker_main, args=(q,)) for _ in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    # -- determinism: re-execute some runs in a fresh process ------------------
    def recheck(self, n):
        if not self.logs or n <= 0:
            return 0, 0
        ids = sorted(self.logs)
        pick = ids[:: max(1, len(ids) // n)][:n]
        bad = 0
        w = Worker(self.pid, hashseed="4242")
        done = 0
        for idx in reversed(pick):
            if time.monotonic() > self.deadline + 60:
                break
            try:
                res = w.ask({"op": "run", "idx": idx, "seed": self.seed, "tier": self.tier}, 200)
            except Dead:
                break
            done += 1
            if res.get("log") != self.logs[idx]:
                bad += 1
                self.mismatch = idx
        w.close()
        return done, bad

    # -- violations ------------------------------------------------------------
    def confirm(self, v):
        """Returns a replay dict that reproduces v in a fresh process, minimised."""
        pid = self.pid
        w = Worker(pid)
        try:
            plan = v["plan"]
            if plan is None:
                plan = self.plan_of(v["idx"])
                try:
                    r = w.ask({"op": "plan", "plan": plan}, 240)
                    if r["status"] != "violation":
                        return None
                    v["kind"], v["detail"] = r["kind"], r["detail"]
                except Dead as d:
                    return {"property": pid, "kind": "dead", "plans": [plan],
                            "detail": f"simulated system died or hung: {d}"}
            r = w.ask({"op": "plan", "plan": plan}, 240)
            if r["status"] == "violation":
                try:
                    s = w.ask({"op": "shrink", "plan": plan, "kind": r["kind"], "secs": self.meta.get("shrink", 60)}, 400)
                    cand, fin = s["plan"], s["final"]
                    w2 = Worker(pid)
                    r2 = w2.ask({"op": "plan", "plan": cand}, 240)
                    w2.close()
                    if r2["status"] == "violation" and r2["kind"] == r["kind"]:
                        return {"property": pid, "kind": r2["kind"], "plans": [cand], "detail": r2["detail"],
                                "shrink_candidates": s["tried"], "original": plan}
                except Dead:
                    pass
                return {"property": pid, "kind": r["kind"], "plans": [plan], "detail": r["detail"]}
        except Dead:
            pass
        finally:
            w.close()
        # depends on what ran before in that process
        prefix = [self.plan_of(k) for k in v["history"]] + [v["plan"] or self.plan_of(v["idx"])]
        best = None
        end = time.monotonic() + 150

        def violates(plans):
            w = Worker(pid)
            try:
                for p in plans[:-1]:
                    w.ask({"op": "plan", "plan": p}, 240)
                r = w.ask({"op": "plan", "plan": plans[-1]}, 240)
                return r if r["status"] == "violation" else None
            except Dead:
                return None
            finally:
                w.close()
        r = violates(prefix)
        if not r:
            return None
        best, bestr = prefix, r
        size = max(1, (len(best) - 1) // 2)
        while len(best) > 1 and time.monotonic() < end:
            cut = False
            for at in range(0, len(best) - 1, size):
                cand = best[:at] + best[min(at + size, len(best) - 1):]
                if len(cand) == len(best) or time.monotonic() > end:
                    continue
                r = violates(cand)
                if r:
                    best, bestr, cut = cand, r, True
                    break
            if not cut:
                if size == 1:
                    break
                size = max(1, size // 2)
        return {"property": pid, "kind": bestr["kind"], "plans": best, "detail": bestr["detail"]}

    def confirm_claim(self, v):
        key = v["claim"]
        pid = self.pid
        (ia, ha), (ib, hb) = v["a"], v["b"]
        pa, pb = [self.plan_of(k) for k in ia], [self.plan_of(k) for k in ib]
        w = Worker(pid)
        solo = w.ask({"op": "solo", "claim": key}, 60).get("plan")
        w.close()

        def rep(a, b, ha, hb, detail, kind="history-differs"):
            return {"property": pid, "kind": kind, "claim": key, "a": {"plans": a, "hashseed": ha},
                    "b": {"plans": b, "hashseed": hb}, "plans": b, "detail": detail}
        if solo:
            s1, s2 = claim_value(pid, [solo], key, "0"), claim_value(pid, [solo], key, "4242")
            if s1 != s2:
                if claim_value(pid, [solo], key, "0") == claim_value(pid, [solo], key, "4242"):
                    return None
                return rep([solo], [solo], "0", "4242", f"{key}: the call alone gives different results in two processes", "not-reproducible")
            for plans, hs in ((pb, hb), (pa, ha)):
                val = claim_value(pid, plans, key, hs)
                if val is None or val == s1 or claim_value(pid, plans, key, hs) in (None, s1) or claim_value(pid, [solo], key, "0") != s1:
                    continue
                end = time.monotonic() + 150
                bad = lambda pl: claim_value(pid, pl, key, hs) not in (None, s1)
                best = plans
                if len(best) > 1 and bad(best[-1:]):
                    best = best[-1:]
                size = max(1, (len(best) - 1) // 2)
                while len(best) > 1 and time.monotonic() < end:
                    cut = False
                    for at in range(0, len(best) - 1, size):
                        cand = best[:at] + best[min(at + size, len(best) - 1):]
                        if time.monotonic() < end and len(cand) < len(best) and bad(cand):
                            best, cut = cand, True
                            break
                    if not cut:
                        if size == 1:
                            break
                        size = max(1, size // 2)
                if len(best) == 1:
                    improved = True
                    w = Worker(pid)
                    while improved and time.monotonic() < end:
                        improved = False
                        for cand in w.ask({"op": "candidates", "plan": best[0], "claim": key}, 60)["plans"]:
                            if time.monotonic() > end:
                                break
                            if bad([cand]):
                                best, improved = [cand], True
                                break
                    w.close()
                return rep([solo], best, "0", hs, f"{key}: the result after this history differs from that of the call alone in a fresh process")
        va, vb = claim_value(pid, pa, key, ha), claim_value(pid, pb, key, hb)
        if va is not None and vb is not None and va != vb and claim_value(pid, pa, key, ha) != claim_value(pid, pb, key, hb):
            return rep(pa, pb, ha, hb, f"{key}: different results in two histories")
        return None

    def plan_of(self, idx):
        w = getattr(self, "_gen", None)
        if w is None:
            code = ("import sys,json,os; out=os.fdopen(os.dup(1),'w',buffering=1); os.dup2(2,1); sys.path.insert(0,%r)\nfrom sim import boot; boot.load()\n"
                    "import importlib; m=importlib.import_module('sim.props.%s')\n"
                    "[print(json.dumps(m.gen(int(l),%d,%r)),file=out) for l in sys.stdin]"
                    % (HERE, self.pid.lower(), self.seed, self.tier))
            e = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
            w = self._gen = subprocess.Popen([PY, "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                             stderr=subprocess.DEVNULL, text=True, env=e)
        w.stdin.write(f"{idx}\n")
        w.stdin.flush()
        return json.loads(w.stdout.readline())


def claim_value(pid, plans, key, hashseed):
    w = Worker(pid, hashseed=hashseed)
    r = {}
    try:
        for p in plans:
            r = w.ask({"op": "plan", "plan": p}, 240)
    except Dead:
        return None
    finally:
        w.close()
    if r.get("status") == "violation":
        return "violation:" + r["kind"]
    return (r.get("claims") or {}).get(key)


def differs(pid, plan):
    """Does one plan give different logs in two fresh processes, every time?"""
    for _ in range(2):
        logs = []
        for hs in ("0", "4242"):
            w = Worker(pid, hashseed=hs)
            try:
                logs.append(w.ask({"op": "plan", "plan": plan}, 240).get("log"))
            except Dead:
                return False
            finally:
                w.close()
        if logs[0] == logs[1]:
            return False
    return True


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(obj, fh, indent=1, sort_keys=True)
    os.replace(tmp, path)


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(pid, tier, seed)
    m = c.meta
    report = []
    c.run()
    while c.violations and not report:
        # only what a fresh process reproduces is reported; the search then goes on
        for v in c.violations:
            rep = c.confirm_claim(v) if v["kind"] == "claims" else c.confirm(v)
            if rep is None:
                c.unconfirmed.append(f"run {v['idx']}: {v['kind']}: {v['detail'][:300]}")
                continue
            path = os.path.join(HERE, "replays", f"{pid}-{seed}-{v['idx']}.json")
            rep["seed"], rep["run"] = seed, v["idx"]
            write_json(path, rep)
            report.append((path, rep))
            break
        if not report:
            c.violations = []
            if len(c.unconfirmed) > 8:
                c.harness.append("too many violations which a fresh process does not reproduce")
                break
            c.run()
    n_re, bad_re = (0, 0)
    if not report:
        n_re, bad_re = c.recheck(m.get("recheck", {}).get(tier, 10 if tier == "quick" else 40))
    if bad_re and m.get("determinism_is_property") and not report and differs(pid, c.plan_of(c.mismatch)):
        path = os.path.join(HERE, "replays", f"{pid}-{seed}-{c.mismatch}.json")
        rep = {"property": pid, "kind": "history-differs", "compare": True, "seed": seed, "run": c.mismatch,
               "plans": [c.plan_of(c.mismatch)],
               "detail": "the same plan gives different results in two processes (other string-hash seed, other preceding runs)"}
        write_json(path, rep)
        report.append((path, rep))
    wall = time.monotonic() - c.t0
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": c.ok,
            "distinct_nontrivial": len(c.nontrivial_sigs),
            "rule": m["rule"],
            "samples": c.samples or [{"note": "no nontrivial sample"}],
            "simulated_runs": c.ok,
            "runs_planned": c.runs,
            "runs_skipped_deadline": c.skipped,
            "runs_per_hour": round(c.ok / max(wall, 1e-9) * 3600),
            "seeds": {"base": seed, "plans": c.runs},
            "simulated_steps": {"lines_of_code_under_test": c.steps, "requests_to_simulated_parties": c.requests,
                                "simulated_seconds": round(c.simtime, 3)},
            "faults_injected": c.faults,
            "probes_reached": c.probes,
            "distinct_histories": len(set(c.logs.values())),
            "cross_process_comparisons": {"distinct_calls": len(c.claims), "results_compared": c.n_claims},
            "components": m["components"],
            "determinism": {"runs_repeated_in_fresh_process": n_re, "mismatches": bad_re},
            "known_findings_hit": c.known_hit,
            "harness_errors": len(c.harness),
            "not_reproduced": c.unconfirmed,
        },
        "assumptions": m["assumptions"],
        "wall_s": round(wall, 1),
        "violations": [{"replay": os.path.relpath(p, HERE), "kind": r["kind"], "detail": r["detail"]} for p, r in report],
    }
    write_json(os.path.join(HERE, "evidence", f"{pid}.json"), evidence)
    for what in sorted(c.known_hit):
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid} {tier}: {c.ok} runs, {len(c.nontrivial_sigs)} distinct nontrivial, "
          f"{sum(c.faults.values())} faults, {c.steps} steps, {wall:.0f}s, "
          f"repeat mismatches {bad_re}/{n_re}, harness errors {len(c.harness)}")
    for h in c.unconfirmed[:3]:
        print("not reproduced in a fresh process, not reported:", h[:400])
    for h in c.harness[:3]:
        print("HARNESS:", h[-1500:])
    if report:
        path, rep = report[0]
        print(f"violation kind={rep['kind']} {rep['detail'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if c.harness or c.ok == 0 or c.ok < 0.5 * c.runs and not c.skipped:
        return 2
    return 0


def replay(path):
    rep = json.load(open(path))
    pid = rep["property"]
    if rep.get("compare"):
        logs = []
        for hs in ("0", "4242"):
            w = Worker(pid, hashseed=hs)
            logs.append(w.ask({"op": "plan", "plan": rep["plans"][-1]}, 240))
            w.close()
        same = logs[0].get("log") == logs[1].get("log")
        print("logs", [r.get("log") for r in logs])
        if not same:
            print(f"VIOLATION property={pid} replay={path}")
        return 0 if same else 1
    if rep.get("claim"):
        vals = [claim_value(pid, rep[k]["plans"], rep["claim"], rep[k]["hashseed"]) for k in ("a", "b")]
        print(rep["claim"], vals)
        if vals[0] != vals[1]:
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 0
    w = Worker(pid)
    res = None
    try:
        for p in rep["plans"]:
            res = w.ask({"op": "plan", "plan": p}, 300)
    except Dead as d:
        res = {"status": "violation", "kind": "dead", "detail": str(d)}
    w.close()
    print(res["status"], res.get("kind", ""), res.get("detail", "")[:2000])
    if res["status"] == "violation":
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
