"""Seeded search: plans are derived from VERIF_SEED, every plan is executed in its own process forked from a booted
but otherwise unused process, violations are minimised, written to a replay file and confirmed in a fresh interpreter."""
import copy
import ctypes
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import selectors
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 120.0
_REFCACHE = {}


class HarnessError(Exception):
    pass


def scenario(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


# --------------------------------------------------------------------------------------------------- isolated runs
def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd, deadline=None):
    def rd(n):
        out = b""
        while len(out) < n:
            if deadline is not None:
                import select
                r, _, _ = select.select([fd], [], [], max(0.0, deadline - time.monotonic()))
                if not r:
                    raise TimeoutError()
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError()
            out += c
        return out
    n, = struct.unpack("<I", rd(4))
    return pickle.loads(rd(n))


def _child_setup():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get("SIM_STDERR"):
        os.dup2(null, 2)
    sys.stdout = open(os.devnull, "w")
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _from_repo(tb):
    src = os.path.realpath(boot.SRC) + os.sep
    return any(os.path.realpath(f.filename).startswith(src) for f in traceback.extract_tb(tb))


def execute(prop, plan, ref):
    """Runs one plan in this process; returns the result dictionary."""
    from .core import Sim, Violation
    mod = scenario(prop)
    from . import env
    env.start(json.dumps(plan.get("seed", 0)) + "/" + str(plan.get("index", 0)))
    from . import world
    world.wipe()
    sim = Sim(plan, ref)
    res = {"status": "ok"}
    try:
        mod.run(plan, sim)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "detail": v.detail}
        sim.event("violation", v.kind)
    except Exception as e:
        if _from_repo(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__)][-1]
            res = {"status": "violation", "kind": "unexpected-exception:" + type(e).__name__,
                   "detail": "".join(traceback.format_exception(e))[-1500:]}
        else:
            res = {"status": "error", "detail": "".join(traceback.format_exception(e))[-3000:]}
    env.stop()
    res["summary"] = sim.summary()
    res["tail"] = sim.tail[-40:]
    return res


def _fork(fn, extra_close=()):
    r, w = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.close(w2)
            for f in extra_close:
                try:
                    os.close(f)
                except OSError:
                    pass
            _child_setup()
            fn(r2, w)
        except BaseException:
            try:
                _send(w, ("result", {"status": "error", "detail": traceback.format_exc()[-3000:], "summary": {}, "tail": []}))
            except BaseException:
                pass
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    os.close(r2)
    return pid, r, w2


def compute_ref(prop, spec, close=()):
    key = hashlib.sha1(json.dumps([prop, spec], sort_keys=True).encode()).hexdigest()
    if key in _REFCACHE:
        return _REFCACHE[key]

    def body(rfd, wfd):
        mod = scenario(prop)
        from . import inject
        inject.set_active(None)
        try:
            v = ("ok", mod.ref(spec))
        except Exception as e:
            if _from_repo(e.__traceback__):
                v = ("exc", type(e).__name__ + ": " + "".join(traceback.format_exception(e))[-800:])
            else:
                v = ("harness", traceback.format_exc()[-3000:])
        _send(wfd, v)

    pid, r, w = _fork(body, close)
    try:
        v = _recv(r, time.monotonic() + RUN_TIMEOUT)
    except (EOFError, TimeoutError) as e:
        v = ("crash", type(e).__name__)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.close(r)
    os.close(w)
    os.waitpid(pid, 0)
    if len(_REFCACHE) > 1500:
        _REFCACHE.clear()
    _REFCACHE[key] = v
    return v


def run_isolated(prop, plan, timeout=RUN_TIMEOUT):
    """Fork, run the plan, answer its requests for reference results, return the result."""

    def body(rfd, wfd):
        from .core import Violation

        def ref(spec):
            _send(wfd, ("ref", spec))
            kind, val = _recv(rfd)
            if kind == "ok":
                return val
            if kind == "exc":
                raise Violation("reference-failed", f"a fresh process cannot serve {json.dumps(spec)[:300]}: {val}")
            if kind == "crash":
                raise Violation("reference-crashed", f"{json.dumps(spec)[:300]}: {val}")
            raise HarnessError(val)

        _send(wfd, ("result", execute(prop, plan, ref)))

    mod = scenario(prop)
    if hasattr(mod, "warm"):
        mod.warm(plan)          # builds the plan's source files; no code under test runs here
    t0 = time.monotonic()
    pid, r, w = _fork(body)
    res = None
    try:
        while True:
            what, val = _recv(r, t0 + timeout)
            if what == "ref":
                _send(w, compute_ref(prop, val, (r, w)))
            else:
                res = val
                break
    except TimeoutError:
        res = {"status": "violation", "kind": "hang", "detail": f"no result after {timeout} s", "summary": {}, "tail": []}
    except EOFError:
        res = {"status": "violation", "kind": "process-crash", "detail": "", "summary": {}, "tail": []}
    finally:
        os.close(r)
        os.close(w)
        if res is None or res.get("kind") in ("hang", "process-crash"):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
        if res is not None and res.get("kind") == "process-crash":
            res["detail"] = f"exit status {st}"
    res["wall"] = time.monotonic() - t0
    return res


# --------------------------------------------------------------------------------------------------------- search
def plan_for(prop, seed, index, tier):
    h = hashlib.sha256(f"{seed}/{prop}/{index}".encode()).digest()
    rng = random.Random(int.from_bytes(h[:8], "big"))
    plan = scenario(prop).gen(rng, tier, index)
    plan["seed"] = seed
    plan["index"] = index
    return json.loads(json.dumps(plan))


def _worker(prop, seed, tier, indices, wfd, deadline):
    stop = []
    signal.signal(signal.SIGTERM, lambda *a: stop.append(1))
    for i in indices:
        if stop or time.monotonic() > deadline:
            break
        plan = plan_for(prop, seed, i, tier)
        res = run_isolated(prop, plan)
        if res["status"] == "violation" and res["kind"] in ("hang", "process-crash"):
            res2 = run_isolated(prop, plan, RUN_TIMEOUT * 1.5)
            if res2.get("kind") != res["kind"]:
                res2["anomaly"] = res["kind"]
                res = res2
        res["index"] = i
        res["plan_digest"] = hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12]
        s = res.get("summary") or {}
        s.pop("switches", None)
        if res["status"] == "ok":
            res.pop("tail", None)
        _send(wfd, res)
    os._exit(0)


def search(prop, seed, tier, nruns, workers, deadline, on_result):
    sel = selectors.DefaultSelector()
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                _worker(prop, seed, tier, range(k, nruns, workers), w, deadline)
            except BaseException:
                try:
                    _send(w, {"status": "error", "detail": traceback.format_exc()[-3000:], "summary": {}, "index": -1})
                except BaseException:
                    pass
            os._exit(1)
        os.close(w)
        sel.register(r, selectors.EVENT_READ)
        pids[r] = pid
    stopping = False
    while pids:
        for key, _ in sel.select():
            fd = key.fd
            try:
                res = _recv(fd)
            except EOFError:
                sel.unregister(fd)
                os.close(fd)
                os.waitpid(pids.pop(fd), 0)
                continue
            if on_result(res) and not stopping:
                stopping = True
                for p in pids.values():
                    os.kill(p, signal.SIGTERM)


# ------------------------------------------------------------------------------------------------------ minimising
LISTS = ("ops", "faults", "threads", "switches", "features", "tiles", "pre", "post")


def _lists(node, path=()):
    out = []
    if isinstance(node, dict):
        for k, v in node.items():
            if isinstance(v, list) and k in LISTS:
                out.append(path + (k,))
            out.extend(_lists(v, path + (k,)))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, list) and path and path[-1] == "threads":
                out.append(path + (i,))
            out.extend(_lists(v, path + (i,)))
    return out


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def minimise(prop, plan, kind, budget_s=75.0, budget_n=250):
    t0 = time.monotonic()
    n = 0
    best = copy.deepcopy(plan)

    def attempt(p):
        nonlocal n
        if n >= budget_n or time.monotonic() - t0 > budget_s:
            return None
        n += 1
        r = run_isolated(prop, p)
        return r if r["status"] == "violation" and r["kind"] == kind else None

    r = run_isolated(prop, best)
    if r["status"] != "violation" or r["kind"] != kind:
        return best, r, n
    # make the schedule explicit
    if isinstance(best.get("sched"), dict) and best["sched"].get("mode") not in (None, "list") and (r["summary"] or {}).get("switches"):
        p = copy.deepcopy(best)
        p["sched"] = {"mode": "list", "switches": r["summary"]["switches"], "opcode": best["sched"].get("opcode", False)}
        r2 = attempt(p)
        if r2:
            best, r = p, r2
    changed = True
    while changed and time.monotonic() - t0 < budget_s and n < budget_n:
        changed = False
        for path in sorted(_lists(best), key=lambda q: len(q)):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError):
                continue
            size = len(lst)
            chunk = max(1, size // 2)
            while size and chunk >= 1:
                i = 0
                while i < len(_get(best, path)):
                    p = copy.deepcopy(best)
                    l = _get(p, path)
                    del l[i:i + chunk]
                    r2 = attempt(p)
                    if r2:
                        best, r = p, r2
                        changed = True
                    else:
                        i += chunk
                    if n >= budget_n or time.monotonic() - t0 > budget_s:
                        break
                if n >= budget_n or time.monotonic() - t0 > budget_s:
                    break
                chunk //= 2
    return best, r, n


def known_findings():
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split(" | ")[0].split())
                d["text"] = line.split(" | ", 1)[1] if " | " in line else ""
                out.append(d)
    except FileNotFoundError:
        pass
    return out


# ----------------------------------------------------------------------------------------------------------- check
def run_check(prop, tier, seed, nruns=None, workers=None):
    t0 = time.monotonic()
    mod = scenario(prop)
    boot.boot()
    if hasattr(mod, "prepare"):
        mod.prepare()
    t_boot = time.monotonic() - t0
    n = nruns or mod.RUNS[tier]
    workers = workers or max(1, min(8, os.cpu_count() or 1, len(os.sched_getaffinity(0))))
    cap = 420.0 if tier == "quick" else 3 * 3600.0
    deadline = t0 + cap
    agg = {"probes": {}, "faults": {}, "states": set(), "inter": set(), "digests": set(), "plans": set(), "steps": 0,
           "events": 0, "seam": 0, "runs": 0, "nontrivial": set(), "anomalies": []}
    found = []
    errors = []
    samples = []
    known = [k for k in known_findings() if k.get("property") == prop]
    seen_known = {}

    def on_result(r):
        if r["status"] == "error":
            errors.append(r)
            return True
        agg["runs"] += 1
        if r.get("anomaly"):
            agg["anomalies"].append([r["index"], r["anomaly"]])
        s = r["summary"]
        for k in ("probes", "faults"):
            for a, b in (s.get(k) or {}).items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["states"].update(s.get("states") or [])
        if s.get("inter"):
            agg["inter"].add(s["inter"])
        if s.get("digest"):
            agg["digests"].add(s["digest"])
        agg["steps"] += s.get("steps") or 0
        agg["events"] += s.get("events") or 0
        agg["seam"] += s.get("seam_calls") or 0
        agg["plans"].add(r["plan_digest"])
        if r["status"] == "ok" and mod.nontrivial(s):
            agg["nontrivial"].add(s["digest"])
        if len(samples) < 3 and r["status"] == "ok":
            samples.append(r["index"])
        if r["status"] == "violation":
            for k in known:
                if k.get("kind") == r["kind"]:
                    seen_known[r["kind"]] = k
                    return False
            found.append(r)
            return True
        return False

    search(prop, seed, tier, n, workers, deadline, on_result)
    t_search = time.monotonic() - t0 - t_boot

    # determinism of the search itself: repeat a few runs and compare their traces
    det = {"repeated": 0, "identical": 0}
    if not found and not errors:
        for i in (samples[:2] if tier == "quick" else samples[:3]):
            a = run_isolated(prop, plan_for(prop, seed, i, tier))
            b = run_isolated(prop, plan_for(prop, seed, i, tier))
            det["repeated"] += 1
            det["identical"] += int(a["summary"].get("digest") == b["summary"].get("digest"))

    violation = None
    unreproduced = []
    for r in sorted(found, key=lambda x: x["index"]):
        plan = plan_for(prop, seed, r["index"], tier)
        rep = None
        hard = t0 + 780.0 if tier == "quick" else float("inf")
        for _ in range(4):
            left = hard - time.monotonic()
            if left < 5:
                break
            rep = run_isolated(prop, plan, min(RUN_TIMEOUT * 1.5, left))
            if rep["status"] == "violation" and rep["kind"] not in [k.get("kind") for k in known]:
                break
            rep = None
        if rep is None:
            unreproduced.append([r["index"], r["kind"]])
            continue
        nops0 = sum(len(_get(plan, p)) for p in _lists(plan))
        slow = rep["kind"] in ("hang",) or rep["wall"] > 20 or time.monotonic() > hard - 150
        if slow:
            best, rr, tries = plan, rep, 0
        else:
            best, rr, tries = minimise(prop, plan, rep["kind"], budget_s=75.0 if tier == "quick" else 300.0)
            if rr["status"] != "violation":
                best, rr = plan, rep
        nops1 = sum(len(_get(best, p)) for p in _lists(best))
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replays", f"{prop}-{seed}-{r['index']}.json")
        rr2 = dict(rr)
        s = dict(rr2.get("summary") or {})
        json.dump({"property": prop, "kind": rr["kind"], "detail": rr["detail"], "digest": s.get("digest"),
                   "seed": seed, "index": r["index"], "tier": tier, "plan": best,
                   "minimised": {"from_elements": nops0, "to_elements": nops1, "executions": tries},
                   "trace": rr.get("tail", [])}, open(path, "w"), indent=1)
        confirm = None
        if rep["kind"] != "hang" and time.monotonic() < hard - 60:
            try:
                cp = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop, "--replay", path],
                                    capture_output=True, text=True, timeout=min(RUN_TIMEOUT * 2, 60.0))
                confirm = cp.returncode
            except subprocess.TimeoutExpired:
                confirm = "timeout"
        violation = {"kind": rr["kind"], "detail": rr["detail"], "replay": path, "fresh_process_replay_exit": confirm,
                     "index": r["index"], "elements": [nops0, nops1]}
        break

    wall = time.monotonic() - t0
    sample_plans = []
    for i in samples[:2]:
        p = plan_for(prop, seed, i, tier)
        t = json.dumps(p)
        sample_plans.append({"run": i, "plan": p if len(t) < 6000 else t[:6000] + "..."})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": mod.RULE,
            "samples": sample_plans,
            "planned_runs": n,
            "seeds_per_hour": int(agg["runs"] / max(t_search, 0.001) * 3600),
            "simulated_time": {"note": "the code under test reads no clock; simulated time is counted in scheduler and seam steps",
                               "steps": agg["steps"], "seam_calls": agg["seam"], "logged_events": agg["events"]},
            "faults_fired": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "distinct_traces": len(agg["digests"]),
            "distinct_interleavings": len(agg["inter"]),
            "distinct_states": {"measure": getattr(mod, "STATE_MEASURE", "scenario state after each operation"),
                                "count": len(agg["states"])},
            "determinism_repeat": det,
            "anomalies_not_reproduced": agg["anomalies"] + unreproduced,
            "real_components": mod.REAL,
            "stubs": mod.STUBS,
            "workers": workers, "boot_s": round(t_boot, 2),
        },
        "assumptions": mod.ASSUMPTIONS,
    }
    if violation:
        ev["coverage"]["violation"] = violation
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k.get('text')}" + ("" if k.get("kind") in seen_known else " (not met in this run)"))
    if violation:
        print(f"{prop}: {violation['kind']}: {violation['detail'][:600]}")
        print(f"VIOLATION property={prop} replay={violation['replay']}")
        return 1
    if errors:
        print("HARNESS ERROR", errors[0]["detail"], file=sys.stderr)
        return 2
    if agg["runs"] < max(1, n // 5):
        print(f"only {agg['runs']} of {n} runs completed in time", file=sys.stderr)
        return 3
    if det["repeated"] != det["identical"]:
        print("note: repeated runs did not give identical traces", file=sys.stderr)
    print(f"{prop}: held in {agg['runs']} simulated runs ({len(agg['nontrivial'])} distinct non-trivial), "
          f"{sum(agg['faults'].values())} faults fired, {len(agg['inter'])} interleavings, {wall:.1f} s")
    return 0


def run_replay(prop, path):
    d = json.load(open(path))
    boot.boot()
    mod = scenario(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    r = run_isolated(prop, d["plan"], RUN_TIMEOUT * 1.5)
    same = r["status"] == "violation" and r["kind"] == d["kind"]
    print(json.dumps({"status": r["status"], "kind": r.get("kind"), "detail": r.get("detail"),
                      "digest": (r.get("summary") or {}).get("digest"), "same_trace": (r.get("summary") or {}).get("digest") == d.get("digest")}, indent=1))
    for l in r.get("tail", []):
        print("  ", l)
    if r["status"] == "error":
        return 2
    if r["status"] == "violation":
        print(f"VIOLATION property={prop} replay={path}")
        return 1 if same else 4
    return 0
