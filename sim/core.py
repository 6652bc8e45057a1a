"""Run context shared by all scenarios: event log, probes, checks, reference results."""
import hashlib
import json

from . import inject, sched


class Violation(Exception):
    """The property does not hold. `kind` identifies the class of the violation, `site` where it was observed."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:2000]


class Sim:
    def __init__(self, plan, ref=None):
        self.plan = plan
        self.digest = hashlib.sha256()
        self.nevents = 0
        self.tail = []
        self.probes = {}
        self.fault_counts = {}
        self.states = set()
        self.ref_fn = ref
        self.switches = None
        self.steps = 0
        self.inter = None
        self.injector = inject.Injector(self.event)
        inject.set_active(self.injector)

    # -- log ---------------------------------------------------------------------------------------------------
    def event(self, *ev):
        s = repr(ev)
        self.nevents += 1
        self.digest.update(s.encode("utf-8", "replace"))
        self.tail.append(s if len(s) < 300 else s[:300])
        if len(self.tail) > 60:
            del self.tail[:20]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.fault_counts[name] = self.fault_counts.get(name, 0) + n

    def state(self, x):
        if len(self.states) < 5000:
            self.states.add(hashlib.sha1(repr(x).encode()).hexdigest()[:12])

    # -- oracles -----------------------------------------------------------------------------------------------
    def check(self, cond, kind, detail=""):
        self.probe("checks")
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def ref(self, spec):
        """Result of `spec` computed by the code under test in a pristine process."""
        return self.ref_fn(spec)

    # -- threads -----------------------------------------------------------------------------------------------
    def threads(self, fns, cfg):
        s = sched.Scheduler(cfg, self.event)
        try:
            res = s.run(fns)
        except sched.Deadlock as e:
            raise Violation("deadlock", str(e))
        except sched.StepLimit as e:
            raise Violation("no-progress", str(e))
        finally:
            self.switches = s.switches
            self.steps += s.points
            self.inter = s.digest.hexdigest()[:16]
            self.event("switches", s.points, self.inter)
        self.probe("thread-runs")
        self.probe("switches", len(s.switches))
        out = []
        for kind, val in res:
            if kind == "exc":
                raise val
            out.append(val)
        return out

    def summary(self):
        self.event("end", self.nevents)
        return {"digest": self.digest.hexdigest()[:24], "events": self.nevents, "probes": self.probes,
                "faults": self.fault_counts, "states": sorted(self.states), "switches": self.switches,
                "steps": self.steps + self.injector.calls, "inter": self.inter, "seam_calls": self.injector.calls}


def jkey(x):
    return json.dumps(x, sort_keys=True)
