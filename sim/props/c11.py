"""C11: losing the elevation data degrades to the image's own elevation."""
import json
import math

RUNS = {"quick": 700, "thorough": 20000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of an image's sensor model used with a tiled elevation model whose tiles vanish, get damaged, "
        "fail to load and come back; non-trivial if at least one location was converted without usable elevation data and compared with the "
        "conversion without an elevation model; distinct by the digest of the event trace")
REAL = ["all sensor models", "Geolocator", "DigitalElevationModel", "SRTMTileSet", "GenericDEMTileSet", "GDALDigitalElevationModelTileFactory",
        "GDAL GTiff driver"]
STUBS = ["in a third of the runs a stub tile factory hands over posts or nothing", "storage is GDAL's in-memory file system"]
ASSUMPTIONS = ["a failed load may be remembered by the elevation model that experienced it", "within 0.001 degrees of a tile border the value of "
               "either side is accepted", "where only part of the surroundings is covered a location agrees with the data to about 2 pixels"]
STATE_MEASURE = "sensor model kind, tile states and the outcome (fallback, terrain) of each conversion"
BAD = ["missing", "missing", "cut", "zap", "nogeo", "empty"]


def gen_tiles(rng, smooth):
    out = []
    base = rng.choice([0, 50, 300, 1000])
    for dx in (-1, 0, 1):
        for dy in (-1, 0, 1):
            if rng.random() < 0.12:
                continue
            out.append({"dx": dx, "dy": dy, "n": rng.choice([3, 5, 9]), "seed": rng.randrange(1000), "dtype": rng.choice(["i2", "f4"]),
                        "range": [base, base + rng.choice([2, 20, 60])], "state": rng.choice(BAD + ["ok", "ok", "ok", "ok"])})
    return out


def gen_op(rng, W, H, nt, thr):
    r = rng.random()
    if not thr and r < 0.22:
        how = rng.choice(["all-bad", "all-ok", "all-missing", "one", "one"])
        if how == "one":
            return {"op": "storage", "tiles": [[rng.randrange(nt), rng.choice(BAD + ["ok"] * 3)] for _ in range(rng.choice([1, 2, 3]))]}
        return {"op": "storage", "tiles": [[i, {"all-bad": rng.choice(BAD), "all-ok": "ok", "all-missing": "missing"}[how]] for i in range(nt)]}
    if not thr and r < 0.4:
        return {"op": "new", "cache": rng.choice([0, 1, 2, 10, 10])}
    o = {"op": "convert", "px": [round(rng.uniform(0, W), 2), round(rng.uniform(0, H), 2)]}
    if r > 0.85:
        cx, cy = o["px"]
        o = {"op": "geo", "features": []}
        for i in range(rng.choice([1, 2])):
            p = {"imageGeometry": {"type": "Point", "coordinates": [cx + i, cy - i]}}
            if rng.random() < 0.4:
                p = {"imageBBox": [cx - 2, cy - 3, cx + 4, cy + 1]}
            o["features"].append({"type": "Feature", "geometry": None, "properties": p})
    if not thr and rng.random() < 0.25:
        o["faults"] = [{"fn": rng.choice(["Open", "Open", "Band.ReadAsArray", "Dataset.ReadAsArray", "*"]), "n": rng.randrange(0, 3), "kind": "err",
                        "count": rng.choice([1, 1, 50])}]
    elif not thr and o["op"] == "convert" and rng.random() < 0.2:
        o["opts"] = rng.choice(["guess", "dist"])
    return o


def gen(rng, tier, index):
    from .. import smworld as S
    model = S.gen_model(rng)
    tileset = rng.choice(["srtm", "srtm", "srtm3", "generic", "generic2", "custom"])
    if rng.random() < 0.3:
        # an image at a chosen place: across tile borders, beyond the coverage of the tile set, at the edge of the world
        lon, lat = rng.choice([(11.95, 48.05), (20.3, 65.4), (20.3, 60.05), (-40.2, -56.93), (-0.05, 0.05), (30.4, 86.0), (-179.9, 10.5), (179.5, 12.3)])
        d = rng.choice([0.0002, 0.00025])
        model = {"kind": "gt", "gt": [lon, d, 0.0, lat, 0.0, -d]}
    W, H = S.DIMS[model["kind"]]
    tiles = gen_tiles(rng, True)
    thr = rng.random() < 0.3
    plan = {"model": model, "tileset": tileset, "factory": rng.choice(["gdal", "gdal", "stub"]), "exc": rng.random() < 0.5, "tiles": tiles,
            "cache": rng.choice([0, 1, 2, 10, 10]), "pre": [], "threads": [], "post": []}
    if rng.random() < 0.5:
        s = rng.choice(BAD)
        for t in tiles:
            t["state"] = s
    nt = max(1, len(tiles))
    heavy = not model["kind"].startswith("gt")
    plan["pre"] = [gen_op(rng, W, H, nt, False) for _ in range(rng.choice([2, 4, 7] if heavy else [3, 8, 14]))]
    if thr and (not heavy or model["kind"] in ("rpc", "rpcchip", "nitfgeo")):
        plan["threads"] = [[gen_op(rng, W, H, nt, True) for _ in range(rng.choice([1, 2]) if heavy else rng.choice([1, 3, 5]))] for _ in range(rng.choice([2, 2, 3]))]
        if heavy:
            plan["threads"] = [[o for o in t if o["op"] == "convert"][:1] for t in plan["threads"]]
        plan["post"] = [gen_op(rng, W, H, nt, False) for _ in range(rng.choice([0, 2, 4]))]
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.01, 0.05, 0.2]),
                     "d": rng.choice([2, 4]), "span": rng.choice([500, 4000]), "opcode": False}
    return plan


def warm(plan):
    from .. import smworld as S
    S.metadata({k: v for k, v in plan["model"].items() if k in ("kind", "ver")})


def opts_of(o, where):
    from aws.osml.photogrammetry.sensor_model import SensorModelOptions as K
    if o.get("opts") == "guess":
        return {K.INITIAL_GUESS: [math.radians(where[0]) + 1e-4, math.radians(where[1]) - 1e-4]}
    if o.get("opts") == "dist":
        return {K.INITIAL_SEARCH_DISTANCE: 0.002}
    return None


def ref(spec):
    """What happens when no elevation model is supplied."""
    import contextlib
    import io
    from .. import smworld as S
    from aws.osml.photogrammetry import ImageCoordinate
    m = S.build(spec["model"])
    if spec["what"] == "convert":
        c = m.image_to_world(ImageCoordinate(spec["px"]), options=opts_of(spec["o"], spec["where"])) if spec.get("o") else m.image_to_world(ImageCoordinate(spec["px"]))
        return [math.degrees(c.longitude), math.degrees(c.latitude), float(c.elevation)]
    from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
    fs = load(spec["features"])
    with contextlib.redirect_stdout(io.StringIO()):
        Geolocator(ImagedFeaturePropertyAccessor(), m, None, spec["grid"]).geolocate_features(fs)
    return json.loads(json.dumps(fs))


def load(features):
    import geojson
    return [geojson.loads(json.dumps(f)) for f in features]


def close(a, b, t):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], t) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, t) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or abs(a - b) <= t * max(1.0, abs(b))
    return a == b


def run(plan, sim):
    import contextlib
    import io
    from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
    from aws.osml.photogrammetry import DigitalElevationModel, ImageCoordinate
    from .. import demworld, smworld as S, world
    world.use_exceptions(plan["exc"])
    kind = plan["model"]["kind"]
    sar = kind.startswith("si")
    W, H = S.DIMS[kind]
    where = sim.ref({"what": "convert", "model": plan["model"], "px": [W / 2, H / 2]})
    lon0, lat0 = math.floor(where[0]), math.floor(where[1])
    ts, directory = plan["tileset"], "/vsimem/dem"
    tiles = []
    for t in plan["tiles"]:
        t = dict(t, lon=lon0 + t["dx"], lat=lat0 + t["dy"])
        t["_want"] = t.pop("state")
        t.pop("dx"), t.pop("dy")
        if not (-180 <= t["lon"] < 180 and -90 <= t["lat"] < 90):
            continue
        demworld.set_state(directory, ts, t, t.pop("_want"))
        tiles.append(t)
    sm = S.build(plan["model"])
    cur = {}
    parallel = [False]

    def new(cache):
        rec = demworld.Rec()
        fac = demworld.make_factory(plan["factory"], directory, tiles, ts, rec, sim)
        cur.update(rec=rec, dem=DigitalElevationModel(demworld.make_tileset(ts), fac, cache), dirty=False)
        cur["geo"] = Geolocator(ImagedFeaturePropertyAccessor(), sm, cur["dem"], 3)

    new(plan["cache"])

    def covered(lat):
        return -56 <= lat <= 59 if ts.startswith("srtm") else abs(lat) < 85 if ts == "custom" else True

    def tile_at(lon, lat):
        """The tile, its state in storage and what the elevation model last got for it."""
        a, b = math.floor(lon), math.floor(lat)
        if not covered(b):
            return None, "uncovered", None
        tid = demworld.name_of(ts, a, b)
        t = next((t for t in tiles if (t["lon"], t["lat"]) == (a, b)), None)
        got = [x for i, x in cur["rec"].loads if i == tid]
        return t, (t["_state"] if t else "missing"), (got[-1] if got else None)

    def border(lon, lat, d):
        return min(lon - math.floor(lon), math.ceil(lon) - lon, lat - math.floor(lat), math.ceil(lat) - lat) < d

    def step(o):
        if o["op"] == "storage":
            for i, s in o["tiles"]:
                if i < len(tiles) and tiles[i]["_state"] != s:
                    demworld.set_state(directory, ts, tiles[i], s)
                    cur["dirty"] = True        # what this elevation model has seen no longer tells what is stored
                    if s != "ok":
                        sim.fault("storage:" + s)
            sim.event("storage", [t["_state"] for t in tiles])
            return
        if o["op"] == "new":
            new(o["cache"])
            sim.event("new")
            return
        faults = o.get("faults", []) if plan["factory"] == "gdal" else []
        fs = load(o["features"]) if o["op"] == "geo" else None
        if faults:
            # a failing storage operation may end as a remembered failure of any tile that is loaded meanwhile
            sim.injector.arm(faults)
        got = None
        nl = len(cur["rec"].loads)
        try:
            if o["op"] == "convert":
                c = sm.image_to_world(ImageCoordinate(o["px"]), elevation_model=cur["dem"], options=opts_of(o, where)) if o.get("opts") else \
                    sm.image_to_world(ImageCoordinate(o["px"]), elevation_model=cur["dem"])
                got = [math.degrees(c.longitude), math.degrees(c.latitude), float(c.elevation)]
            else:
                with contextlib.redirect_stdout(io.StringIO()):
                    cur["geo"].geolocate_features(fs)
                got = json.loads(json.dumps(fs))
        finally:
            fired = sim.injector.disarm() if faults else []
        for f in fired:
            sim.fault(f"{f[0]}:{f[2]}")
        if fired:
            cur["dirty"] = True
        sim.event(o["op"], o.get("px"), json.dumps(got)[:300])
        lost = not any(x == "ok" for _, x in cur["rec"].loads)      # this elevation model never had any data
        if lost:
            sim.probe("without-data")
        if o["op"] == "geo":
            if lost:
                fb = sim.ref({"what": "geo", "model": plan["model"], "features": o["features"], "grid": 3})
                sim.check(close(got, fb, 1e-8), "geolocation-differs-without-data", lambda: f"{plan['model']}: {json.dumps(got)} instead of {json.dumps(fb)}")
                if not cur["dirty"] and not parallel[0]:
                    for f in got:
                        available(f["properties"]["center_longitude"], f["properties"]["center_latitude"], "geolocation")
            else:
                for f in got:
                    if f["geometry"] is None or border(*f["geometry"]["coordinates"][:2], 0.001):
                        continue
                    lon, lat, e = f["geometry"]["coordinates"]
                    t, state, seen = tile_at(lon, lat)
                    if seen == "ok":
                        v = demworld.value(demworld.strip(t), lon, lat)
                        sim.check(abs(v - e) < 0.05, "wrong-elevation", lambda: f"geolocation {plan['model']} at {lon},{lat}: {e}, terrain {v}")
                        sim.probe("with-data")
                    elif not cur["dirty"] and not parallel[0]:
                        available(lon, lat, "geolocation")
            return
        fb = sim.ref(dict({"what": "convert", "model": plan["model"], "px": o["px"]}, **({"o": o, "where": where} if o.get("opts") else {})))
        lon, lat, e = got
        t, state, seen = tile_at(lon, lat)
        sim.state((kind, sorted((t["lon"], t["lat"], t["_state"]) for t in tiles), lost, seen))
        who = f"{plan['model']} pixel {o['px']} (tile {state}, load {seen})"
        if lost:
            sim.check(abs(lon - fb[0]) < 1e-9 and abs(lat - fb[1]) < 1e-9 and abs(e - fb[2]) < 1e-4 and all(v == v for v in got),
                      "location-differs-without-data", lambda: f"{who}: {got} instead of {fb}")
            if not cur["dirty"] and not parallel[0]:
                available(lon, lat, who)
            return
        if not cur["dirty"] and not parallel[0] and not (sar and border(fb[0], fb[1], 0.01)):
            available(lon, lat, who)
        if border(lon, lat, 0.001):
            return
        same = abs(lon - fb[0]) < 1e-9 and abs(lat - fb[1]) < 1e-9 and abs(e - fb[2]) < 1e-4
        if seen == "ok":
            v = demworld.value(demworld.strip(t), lon, lat)
            # a SAR contour only meets the part of the terrain that there is data for
            sim.check(abs(v - e) < (0.5 if sar else 1e-3) or (sar and same and (border(lon, lat, 0.01) or any(x != "ok" for _, x in cur["rec"].loads[nl:]))), "wrong-elevation",
                      lambda: f"{who}: elevation {e}, terrain {v}")
            sim.probe("with-data")
        else:
            sim.probe("without-data")
            sim.check(same if sar else abs(e - fb[2]) < 1e-4, "elevation-differs-without-data", lambda: f"{who}: {got} instead of {fb}")
        if not border(fb[0], fb[1], 0.02) and not sar and not kind.startswith("rsm"):
            back = sm.world_to_image(type(c)([c.longitude, c.latitude, c.elevation]))
            d = max(abs(back.x - o["px"][0]), abs(back.y - o["px"][1]))
            sim.check(d < 2.0, "wrong-location", lambda: f"{who}: {got} is pixel {back.x},{back.y}")

    def available(lon, lat, who):
        """Nothing has failed since this elevation model was made: it must have used the data there is, and only that."""
        if border(lon, lat, 1e-6):
            return
        t, state, seen = tile_at(lon, lat)
        if state == "ok":
            sim.check(seen == "ok", "usable-data-not-used", lambda: f"{who} at {lon},{lat}: the tile is intact, the elevation model got: {seen}")
            sim.probe("data-used")
        else:
            sim.check(seen != "ok", "unusable-data-used", lambda: f"{who} at {lon},{lat}: the tile is {state}")

    for o in plan["pre"]:
        step(o)
    ths = [t for t in plan["threads"] if t]
    if ths:
        parallel[0] = True
        sim.threads([(lambda t=t: [step(o) for o in t]) for t in ths], plan["sched"])
        parallel[0] = False
    for o in plan["post"]:
        step(o)


def nontrivial(s):
    return s["probes"].get("without-data", 0) > 0
