"""Elevation data in the simulated world: tile sets, instrumented tile factories and their storage."""
import json
import math
import weakref

import numpy as np

from . import sched, world

_posts = {}


def posts(spec):
    k = json.dumps(spec, sort_keys=True)
    if k not in _posts:
        _posts[k] = world.dem_posts(spec)
    return _posts[k]


def value(spec, lon, lat):
    a = posts(spec)
    gt = world.dem_geotransform(spec)
    x, y = (lon - gt[0]) / gt[1], (lat - gt[3]) / gt[5]
    ny, nx = a.shape
    x, y = min(max(x, 0.0), nx - 1.0), min(max(y, 0.0), ny - 1.0)
    i, j = min(int(math.floor(x)), nx - 2), min(int(math.floor(y)), ny - 2)
    fx, fy = x - i, y - j
    q = a[j:j + 2, i:i + 2].astype("f8")
    return float((q[0, 0] * (1 - fx) + q[0, 1] * fx) * (1 - fy) + (q[1, 0] * (1 - fx) + q[1, 1] * fx) * fy)


def name_of(tileset, lon, lat):
    """Independent statement of the file naming conventions for the 1-degree cell with lower left corner lon, lat."""
    ns, ew = ("n" if lat >= 0 else "s"), ("e" if lon >= 0 else "w")
    if tileset == "srtm":
        return f"{ns}{abs(lat):02d}_{ew}{abs(lon):03d}_1arc_v3.tif"
    if tileset == "srtm3":
        return f"sub/{ns}{abs(lat):02d}_{ew}{abs(lon):03d}_3arc_v2.tif"
    if tileset == "generic":
        return f"{abs(lon):03d}{ew}/{abs(lat):02d}{ns}.dt2"
    if tileset == "generic2":
        return f"dted/{ew}{abs(lon):03d}/{ns}{abs(lat):02d}.tif"
    return f"c{lon}_{lat}"


def make_tileset(kind):
    from aws.osml.photogrammetry import DigitalElevationModelTileSet, SRTMTileSet
    from aws.osml.photogrammetry.generic_dem_tile_set import GenericDEMTileSet
    if kind == "srtm":
        return SRTMTileSet()
    if kind == "srtm3":
        return SRTMTileSet(prefix="sub/", version="3arc_v2")
    if kind == "generic":
        return GenericDEMTileSet()
    if kind == "generic2":
        return GenericDEMTileSet(format_spec="dted/%oh%od/%lh%ld.tif")

    class Custom(DigitalElevationModelTileSet):
        def find_tile_id(self, c):
            sched.seam_point()
            lo, la = math.floor(math.degrees(c.longitude)), math.floor(math.degrees(c.latitude))
            return f"c{lo}_{la}" if abs(la) < 85 else None
    return Custom()


class Rec:
    """What the harness knows about the loads of one elevation model."""

    def __init__(self):
        self.loads = []           # (tile id, outcome)
        self.alive = []           # (tile id, weakref of model, weakref of array)
        self.on_load = None       # callable(tile id) -> None | "raise" | "none"
        self.on_note = None       # callable(tile id, outcome) after every load


def make_factory(kind, directory, tiles, tileset, rec, sim):
    """kind gdal: the real GDAL factory reading simulated storage; kind stub: posts handed over directly."""
    from aws.osml.gdal.gdal_dem_tile_factory import GDALDigitalElevationModelTileFactory
    from aws.osml.photogrammetry import DigitalElevationModelTileFactory, ElevationRegionSummary, GDALAffineSensorModel

    by_id = {name_of(tileset, t["lon"], t["lat"]): t for t in tiles}

    def note(tile, outcome, res=None):
        rec.loads.append((tile, outcome))
        if rec.on_note:
            rec.on_note(tile, outcome)
        sim.event("load", tile, outcome)
        sim.probe("loads-" + outcome)
        if outcome == "ok":
            rec.alive.append((tile, weakref.ref(res[1]), weakref.ref(res[0])))

    if kind == "gdal":
        class Real(GDALDigitalElevationModelTileFactory):
            def get_tile(self, tile_path):
                try:
                    res = super().get_tile(tile_path)
                except BaseException as e:
                    note(tile_path, "raise")
                    raise
                note(tile_path, "ok" if res[0] is not None and res[1] is not None else "none", res)
                return res
        return Real(directory)

    class Stub(DigitalElevationModelTileFactory):
        def get_tile(self, tile_path):
            for _ in range(3):
                sched.seam_point()
            t = by_id.get(tile_path)
            how = rec.on_load(tile_path) if rec.on_load else None
            if how == "raise":
                note(tile_path, "raise")
                raise OSError("simulated load failure of " + tile_path)
            if t is None or how == "none" or t.get("_state", "ok") != "ok":
                note(tile_path, "none")
                return None, None, None
            a = np.array(posts(strip(t)), dtype="f8")
            res = (a, GDALAffineSensorModel(list(world.dem_geotransform(t))),
                   ElevationRegionSummary(float(a.min()), float(a.max()), -32767, 30.0))
            for _ in range(3):
                sched.seam_point()
            note(tile_path, "ok", res)
            return res
    return Stub()


def strip(t):
    return {k: v for k, v in t.items() if not k.startswith("_")}


def set_state(directory, tileset, t, state):
    """Bring the storage of one tile into a state: ok, missing, cut (damaged pixels), zap (damaged header), nogeo."""
    p = directory + "/" + name_of(tileset, t["lon"], t["lat"])
    t["_state"] = state
    world.unlink(p)
    world.unlink(p + ".aux.xml")
    if state == "ok":
        world.put(p, world.dem_bytes(strip(t)))
    elif state == "cut":
        b = world.dem_bytes(strip(t))
        world.put(p, cut_pixels(b))
    elif state == "zap":
        b = bytearray(world.dem_bytes(strip(t)))
        b[0:4] = b"\0\0\0\0"
        world.put(p, b)
    elif state == "empty":
        world.put(p, b"")
    elif state == "nogeo":
        world.put(p, world.dem_bytes(dict(strip(t), nogeo=True)))
    else:
        assert state == "missing"


_cut = {}


def cut_pixels(b):
    """Shorten a tile so that its header stays readable and its pixels do not."""
    if b in _cut:
        return _cut[b]
    from osgeo import gdal
    with world.bare():
        for frac in (0.9, 0.8, 0.7, 0.6, 0.5):
            c = b[:int(len(b) * frac)]
            world.put("/vsimem/_cut.tif", c)
            d = world.G("Open")("/vsimem/_cut.tif")
            bad = d is not None and d.ReadAsArray() is None
            openable = d is not None
            d = None
            world.unlink("/vsimem/_cut.tif")
            world.unlink("/vsimem/_cut.tif.aux.xml")
            if bad or not openable:
                _cut[b] = c
                return c
    _cut[b] = b[:16]
    return b[:16]
