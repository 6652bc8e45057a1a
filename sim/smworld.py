"""Sensor models and elevation models of the simulated world."""
import json
import math

from . import sched, world

_meta = {}

# size of the full image each kind of metadata describes
DIMS = {"gt": (500, 400), "gt4326": (500, 400), "gtutm": (500, 400), "gtgcp": (40, 30), "gtsouth": (500, 400), "gtrot": (500, 400), "gtsite": (500, 400), "gtsite2": (500, 400), "gtdate": (500, 400),
        "nitfgeo": (40, 30),
        "rpc": (7168, 8192), "rpcchip": (2048, 2048), "rsm": (9122, 9292), "rsmsec": (9122, 9292), "rsmgeo": (9122, 9292),
        "rsm2pi": (9122, 9292),
        "sicd-capella": (6679, 3859), "sicd-pfa": (3000, 3000), "sicd-rma": (3000, 3000), "sicd-rgaz": (3000, 3000),
        "sidd": (9000, 9000), "sidd-chip": (512, 512), "sidd100": (9000, 9000)}
KINDS = list(DIMS)


def metadata(spec):
    """Image metadata as GDAL reports it for a small file of this kind (cached)."""
    key = json.dumps(spec, sort_keys=True)
    if key not in _meta:
        img = {"kind": spec["kind"], "w": 40, "h": 30, "bands": 1, "dtype": "u1", "pseed": 1}
        if spec["kind"].startswith("sicd"):
            img.update(bands=2, dtype="f4")
        if spec.get("ver"):
            img["ver"] = spec["ver"]
        with world.bare():
            world.put("/vsimem/_meta", world.image_bytes(img))
            d = world.G("Open")("/vsimem/_meta")
            _meta[key] = {"gt": d.GetGeoTransform(can_return_null=True), "gcps": d.GetGCPs(), "wkt": d.GetProjection(),
                          "tre": d.GetMetadata("xml:TRE"), "des": d.GetMetadata("xml:DES")}
            d = None
            world.unlink("/vsimem/_meta")
    return _meta[key]


def build(spec):
    """A new sensor model: {"kind", optional "types": [sensor model types], "ver"}"""
    from defusedxml import ElementTree
    from aws.osml.gdal.sensor_model_factory import SensorModelFactory, SensorModelTypes
    m = metadata({k: v for k, v in spec.items() if k in ("kind", "ver")})
    w, h = DIMS[spec["kind"]]
    gt = m["gt"]
    if spec["kind"] == "rsm":       # corner coordinates that fit the ground domain of the replacement sensor model
        gt = (-117.039, 0.056 / w, 0.0, 33.205, 0.0, -0.044 / h)
    if spec.get("gt"):
        gt = tuple(spec["gt"])
    types = [SensorModelTypes(t) for t in spec["types"]] if spec.get("types") else None
    return SensorModelFactory(w, h, xml_tres=ElementTree.fromstring(m["tre"][0]) if m["tre"] else None, xml_dess=m["des"],
                              geo_transform=gt, proj_wkt=m["wkt"], ground_control_points=m["gcps"], selected_sensor_model_types=types).build()


# pairs of models that have much, but not all, in common
PAIRS = [("gtsite", "gtsite2"), ("gt4326", "gtrot"), ("gtutm", "gtsite"), ("rpc", "rpcchip"), ("rsm", "rsmsec"), ("sicd-pfa", "sicd-rma"), ("sicd-pfa", "sicd-rgaz"), ("rsm", "rsmgeo"), ("rsmgeo", "rsm2pi"), ("sidd", "sidd100"),
         ("sicd-capella", "sidd"), ("sidd", "sidd-chip"), ("gtgcp", "nitfgeo")]


def gen_model(rng, kinds=None):
    k = rng.choice(kinds or KINDS)
    s = {"kind": k}
    if k in ("rpc", "rpcchip") and rng.random() < 0.5:
        s["types"] = rng.choice([["RPC"], ["PROJECTIVE"], ["RPC", "RSM"]])
    if k in ("rsm", "rsmsec") and rng.random() < 0.5:
        s["types"] = ["RSM"]
    if k.startswith("sicd") and rng.random() < 0.3:
        s["ver"] = "1.3.0"
    return s


def terrain_value(spec, lon, lat):
    """Smooth analytic terrain (degrees in, metres out)."""
    return spec["base"] + spec["amp"] * math.sin(spec["f"] * lon + spec["ph"]) * math.cos(spec["f"] * lat - spec["ph"])


class SimFailure(RuntimeError):
    """Raised by simulated elevation models."""


# real elevation models raise all kinds of exceptions
FAILURES = [SimFailure] + [type("SimFailure", (SimFailure, k), {}) for k in (ValueError, FloatingPointError, OSError, KeyError)]


def elevation_model(spec):
    """None, constant, analytic terrain or the toolkit's tiled model over a simulated tile factory."""
    from aws.osml.photogrammetry import ConstantElevationModel, DigitalElevationModel, ElevationModel, ElevationRegionSummary
    if spec is None:
        return None
    if spec["type"] == "const":
        return ConstantElevationModel(spec["base"])

    class Terrain(ElevationModel):
        def __init__(self):
            super().__init__()
            self.left = {}
            self.calls = 0

        def _call(self):
            self.calls += 1
            sched.seam_point()
            me = sched.me()
            n = self.left.get(me)
            if n is not None:
                if n == 0:
                    self.left.pop(me)
                    raise FAILURES[self.calls % len(FAILURES)]("simulated elevation failure")
                self.left[me] = n - 1

        def set_elevation(self, c):
            self._call()
            c.elevation = terrain_value(spec, math.degrees(c.longitude), math.degrees(c.latitude))

        def describe_region(self, c):
            self._call()
            return ElevationRegionSummary(spec["base"] - spec["amp"], spec["base"] + spec["amp"], -32767, 30.0)

    if spec["type"] == "terrain":
        return Terrain()

    # the real tiled model; tiles exist everywhere and are produced on demand
    import numpy as np
    from aws.osml.photogrammetry import DigitalElevationModelTileFactory, DigitalElevationModelTileSet, GDALAffineSensorModel
    inner = Terrain()
    n, cell, gaps = spec.get("n", 40), spec.get("cell", 1.0), spec.get("gaps", 0)

    class Set(DigitalElevationModelTileSet):
        def find_tile_id(self, c):
            i, j = math.floor(math.degrees(c.longitude) / cell), math.floor(math.degrees(c.latitude) / cell)
            return None if gaps and (7 * i + 3 * j) % gaps == 0 else f"{i}/{j}"

    class Factory(DigitalElevationModelTileFactory):
        def get_tile(self, path):
            inner._call()
            ti, tj = (int(v) for v in path.split("/"))
            if gaps and (5 * ti + tj) % gaps == 0:
                return None, None, None
            lon, lat, step = ti * cell, tj * cell, cell / (n - 1)
            a = np.array([[terrain_value(spec, lon + i * step, lat + cell - j * step) for i in range(n)] for j in range(n)])
            return (a, GDALAffineSensorModel([lon, step, 0.0, lat + cell, 0.0, -step]),
                    ElevationRegionSummary(float(a.min()), float(a.max()), -32767, 30.0))

    d = DigitalElevationModel(Set(), Factory(), spec.get("cache", 2))
    d.sim_inner = inner
    return d


def fail_after(model, n):
    """The n-th call from now (of this thread) to the simulated part of an elevation model fails; None switches it off."""
    t = getattr(model, "sim_inner", model)
    if hasattr(t, "left"):
        if n is None:
            t.left.pop(sched.me(), None)
        else:
            t.left[sched.me()] = n
        return True
    return False


def gen_dem(rng, small=False):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.45:
        return {"type": "const", "base": rng.choice([0.0, 120.0, 1500.0])}
    s = {"type": "terrain" if r < 0.75 else "tiled", "base": rng.choice([100, 400, 900]), "amp": rng.choice([5, 60, 90]),
         "f": rng.choice([3.0, 20.0]), "ph": rng.choice([0.0, 1.0, 2.5])}
    if s["type"] == "tiled":
        s["cache"] = rng.choice([1, 2, 10])
        s["f"] = 3.0
        if small and rng.random() < 0.6:      # small tiles with ranges of their own, some of them missing
            s.update(cell=rng.choice([0.01, 0.02]), n=8, f=rng.choice([60.0, 150.0]), gaps=rng.choice([0, 0, 3]))
    return s
