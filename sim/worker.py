"""One simulator process: executes plans sent on stdin, answers on stdout.

Requests (JSON lines):
  {"op": "run", "idx": k, "seed": s, "tier": t}     generate and execute plan k
  {"op": "plan", "plan": {...}}                     execute one explicit plan
  {"op": "shrink", "plan": {...}, "kind": k, "secs": n}
"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

_out = os.fdopen(os.dup(1), "w", buffering=1)
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)            # the code under test prints; keep the protocol clean

from sim import boot  # noqa: E402


def main(pid):
    boot.load()
    import importlib
    mod = importlib.import_module("sim.props." + pid.lower())
    from sim.util import Violation, digest

    def execute(plan):
        try:
            st = mod.execute(plan)
        except Violation as v:
            return {"status": "violation", "kind": v.kind, "detail": str(v)}
        except BaseException as e:
            if isinstance(e, (SystemExit, GeneratorExit)):
                raise
            text = "".join(traceback.format_exception(e))[-3000:]
            if any(fr.filename.startswith(boot.SRC) for fr in traceback.extract_tb(e.__traceback__)):
                # every plan makes valid calls only, unexpected errors of the code under test count
                return {"status": "violation", "kind": "crash", "detail": text[-1500:]}
            return {"status": "harness", "detail": text}
        st = dict(st)
        st["status"] = "ok"
        st["log"] = digest(st.get("log"))
        st["sig"] = digest(st.get("sig"))
        return st

    def shrink(plan, kind, secs):
        best, tried = plan, 0
        end = boot.real_now() + secs
        improved = True
        while improved and boot.real_now() < end:
            improved = False
            for cand in mod.shrink(best):
                if boot.real_now() > end:
                    break
                tried += 1
                res = execute(cand)
                if res["status"] == "violation" and res["kind"] == kind:
                    best, improved = cand, True
                    break
        res = execute(best)
        return {"status": "shrunk", "plan": best, "tried": tried, "final": res}

    send = lambda o: (_out.write(json.dumps(o) + "\n"), _out.flush())
    send({"status": "ready", "runs": mod.RUNS, "groups": mod.GROUPS,
          "chunks": {t: mod.chunks(t) for t in mod.RUNS} if hasattr(mod, "chunks") else None})
    for line in sys.stdin:
        req = json.loads(line)
        if req["op"] == "run":
            plan = mod.gen(req["idx"], req["seed"], req["tier"])
            plan = json.loads(json.dumps(plan))
            res = execute(plan)
            res["plan"] = plan if (res["status"] != "ok" or req.get("sample")) else None
            send(res)
        elif req["op"] == "plan":
            send(execute(req["plan"]))
        elif req["op"] == "shrink":
            send(shrink(req["plan"], req["kind"], req["secs"]))
        elif req["op"] == "solo":
            send({"status": "ok", "plan": mod.solo(req["claim"]) if hasattr(mod, "solo") else None})
        elif req["op"] == "candidates":
            send({"status": "ok", "plans": [p for _, p in zip(range(60), mod.shrink(req["plan"]))]})
        elif req["op"] == "quit":
            break


if __name__ == "__main__":
    main(sys.argv[1])
