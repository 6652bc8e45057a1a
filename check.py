#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--runs N] [--workers N] [--replay FILE] [--digests N]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int, help="print the trace digests of the first N runs")
    ap.add_argument("--one", type=int, help="run one index in the foreground and print the result")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from sim import boot
    if os.environ.get("SIM_BOOTED") != "1":
        env = boot.reexec_environment()
        env["SIM_BOOTED"] = "1"
        os.execve(PY, [PY, "-u", os.path.abspath(__file__)] + sys.argv[1:], env)
    from sim import runner
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        return runner.run_replay(a.property, a.replay)
    if a.one is not None:
        import json
        boot.boot()
        m = runner.scenario(a.property)
        if hasattr(m, "prepare"):
            m.prepare()
        plan = runner.plan_for(a.property, seed, a.one, a.tier)
        print(json.dumps(plan)[:3000])
        r = runner.run_isolated(a.property, plan)
        for t in r.pop("tail", []):
            print("  ", t)
        r["summary"].pop("states", None)
        r["summary"].pop("switches", None)
        print(r.pop("detail", ""))
        print(r)
        return 0
    if a.digests:
        boot.boot()
        m = runner.scenario(a.property)
        if hasattr(m, "prepare"):
            m.prepare()
        out = {}

        def got(r):
            out[r["index"]] = (r["status"], r["summary"].get("digest"))
            return False
        import time
        runner.search(a.property, seed, a.tier, a.digests, a.workers or 8, time.monotonic() + 3600, got)
        for i in sorted(out):
            print(i, *out[i])
        return 0
    return runner.run_check(a.property, a.tier, seed, a.runs, a.workers)


sys.exit(main())
