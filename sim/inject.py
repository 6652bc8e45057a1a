"""Storage and library seams: every call the code under test makes into GDAL goes through a wrapper that can
   - count and log it (part of the run's trace),
   - give the scheduler a chance to switch threads,
   - inject a fault decided by the plan.
The wrappers always stay installed; without an active injector they only forward the call."""
from . import sched

_active = None


class Slot:
    """Fault plan of one simulated thread (or of the main thread)."""

    def __init__(self):
        self.faults = []
        self.count = {}
        self.total = 0
        self.fired = []
        self.hooks = []
        self.line = None


class Injector:
    """faults: list of dicts {"fn": name or "*", "n": k-th matching call since armed (0 based), "kind": ...}
       kinds: err    what GDAL does when the operation fails: an exception or an empty result, depending on its mode
              raise  RuntimeError as GDAL does when exceptions are enabled
              none   empty result as GDAL does when exceptions are disabled
              after  the call is carried out, then reported as failed (as err)
              mem    MemoryError (failed allocation)
       {"fn": "line", "n": n} raises a MemoryError at the n-th executed line of the toolkit (not in simulated threads).
       Only calls made while the calling thread is armed are counted and can fail."""

    def __init__(self, log):
        self.log = log
        self.slots = {}
        self.opened = 0
        self.closed = 0
        self.calls = 0

    @property
    def armed(self):
        return sched.me() in self.slots

    def arm(self, faults, hooks=()):
        s = Slot()
        s.faults = [dict(f) for f in faults]
        s.hooks = list(hooks)     # callables(name, j) run before every armed call (storage changes in mid request)
        self.slots[sched.me()] = s
        at = next((f for f in faults if f["fn"] == "line"), None)
        if at is not None and sched.me() is None:
            s.line = sched.LineFault(at["n"], MemoryError("simulated allocation failure"))
            s.line.__enter__()

    def disarm(self):
        s = self.slots.pop(sched.me(), None)
        self.last_total = s.total if s else 0
        if s and s.line:
            s.line.__exit__()
            if s.line.fired:
                s.fired.append(["line", s.line.n, "mem"])
                self.log(("fault", "line", s.line.n))
        return s.fired if s else []

    def decide(self, name):
        s = self.slots.get(sched.me())
        if s is None:
            return None
        i = s.count.get(name, 0)
        s.count[name] = i + 1
        j = s.total
        s.total += 1
        for h in s.hooks:
            h(name, j)
        if name not in FAULTABLE:
            return None
        fi = s.count.get("*", 0)
        s.count["*"] = fi + 1
        for f in s.faults:
            if f.get("done"):
                continue
            if f["fn"] == name and f["n"] == i or f["fn"] == "*" and f["n"] == fi:
                f["done"] = True
                kind = f["kind"]
                if kind == "after" and name not in AFTER_OK:
                    kind = "err"
                s.fired.append([name, i, kind])
                return kind
        return None


LINES = [0, 1, 2, 3, 5, 8, 13, 20, 30, 45, 70, 100, 150, 250, 500, 1000]


def add_line_faults(rng, ops, p):
    """Lets some of the operations that have no other fault fail at an arbitrary line."""
    for o in ops:
        if not o.get("faults") and rng.random() < p:
            o["faults"] = [{"fn": "line", "n": rng.choice(LINES) if rng.random() < 0.5 else rng.randrange(200), "kind": "mem"}]


def set_active(inj):
    global _active
    _active = inj


def get_active():
    return _active


# functions whose failure the toolkit has to expect
FAULTABLE = set()
AFTER_OK = {"Translate", "Warp", "CreateCopy", "Driver.CreateCopy"}


def _exceptions():
    from osgeo import gdal
    return bool(gdal.GetUseExceptions())


def _wrap(name, fn, method):
    def call(*a, **k):
        inj = _active
        if inj is None:
            return fn(*a, **k)
        inj.calls += 1
        sched.seam_point()
        kind = inj.decide(name)
        if kind is None:
            r = fn(*a, **k)
        else:
            inj.log(("fault", name, kind))
            if kind == "err":
                kind = "raise" if _exceptions() else "none"
            elif kind == "after":
                r = fn(*a, **k)
                r = None
                kind = "raise" if _exceptions() else "none"
            elif kind == "after-raise":
                r = fn(*a, **k)
                kind = "raise"
            if kind == "raise":
                raise RuntimeError(f"simulated I/O error in {name}")
            if kind == "mem":
                raise MemoryError(f"simulated allocation failure in {name}")
            if kind != "none":
                raise AssertionError(kind)
            r = None
        if name in ("VSIFOpenL", "VSIFOpenExL") and r is not None:
            inj.opened += 1
        elif name == "VSIFCloseL":
            inj.closed += 1
        if inj.armed:
            inj.log(("call", name, r is None))
        return r

    call.__name__ = getattr(fn, "__name__", name)
    call.__doc__ = getattr(fn, "__doc__", None)
    call._sim_real = fn
    return call


def real(fn):
    return getattr(fn, "_sim_real", fn)


FUNCS = ["Open", "OpenEx", "OpenShared", "Translate", "Warp", "BuildVRT", "VSIFOpenL", "VSIFOpenExL", "VSIFReadL", "VSIStatL", "VSIFCloseL",
         "VSIGetMemFileBuffer_unsafe", "Unlink", "UnlinkBatch", "RmdirRecursive", "Rmdir", "Mkdir", "ReadDir", "FileFromMemBuffer",
         "SetConfigOption", "GetConfigOption", "SetThreadLocalConfigOption", "Info"]
FAULT_FUNCS = ["Open", "OpenEx", "OpenShared", "Translate", "Warp", "BuildVRT", "VSIFOpenL", "VSIFOpenExL", "VSIFReadL", "VSIStatL"]
METHODS = {"Dataset": ["ReadAsArray", "ReadRaster", "GetRasterBand", "GetMetadata", "GetGeoTransform", "GetGCPs", "GetProjection",
                       "FlushCache", "GetDriver"],
           "Band": ["ReadAsArray", "ReadRaster", "ReadBlock", "GetStatistics", "ComputeStatistics", "ComputeRasterMinMax", "GetHistogram",
                    "GetMinimum", "GetMaximum", "GetOverview", "GetOverviewCount", "GetNoDataValue", "GetDefaultHistogram"],
           "Driver": ["CreateCopy", "Create", "Delete"]}
FAULT_METHODS = ["Dataset.ReadAsArray", "Dataset.ReadRaster", "Band.ReadAsArray", "Band.ReadRaster", "Band.ReadBlock",
                 "Band.GetStatistics", "Band.ComputeStatistics", "Band.ComputeRasterMinMax", "Band.GetHistogram",
                 "Driver.CreateCopy", "Driver.Create"]


def install():
    from osgeo import gdal
    for n in FUNCS:
        if hasattr(gdal, n):
            setattr(gdal, n, _wrap(n, getattr(gdal, n), False))
    for cls, names in METHODS.items():
        c = getattr(gdal, cls)
        for n in names:
            if hasattr(c, n):
                setattr(c, n, _wrap(f"{cls}.{n}", getattr(c, n), True))
    FAULTABLE.update(FAULT_FUNCS)
    FAULTABLE.update(FAULT_METHODS)
