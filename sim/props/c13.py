"""C13: image and ground coordinates agree with each other, terrain and metadata."""
import math

from .. import inject

RUNS = {"quick": 600, "thorough": 15000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of conversions (sequential, with failing elevation data, and in parallel threads) on sensor models "
        "of all kinds over flat, analytic and stored terrain; non-trivial if a result was checked with terrain; distinct by the digest of the event trace")
REAL = ["GDALAffineSensorModel", "ProjectiveSensorModel", "RPCSensorModel", "RSMPolynomialSensorModel", "RSMSectionedPolynomialSensorModel",
        "SICDSensorModel with all projection sets", "ChippedImageSensorModel", "CompositeSensorModel", "SensorModelFactory and builders",
        "DigitalElevationModel", "GDALDigitalElevationModelTileFactory", "SRTMTileSet", "GenericDEMTileSet", "ConstantElevationModel"]
STUBS = ["analytic terrain implementing ElevationModel, able to fail at a chosen call", "tile factory producing elevation tiles on demand",
         "storage of elevation tiles is GDAL's in-memory file system"]
ASSUMPTIONS = ["iterative models agree to within a pixel, closed-form models to within a hundredth (radar images: a tenth)",
               "the position of radar images on terrain is judged by range and range rate, because converting such locations back is a known finding",
               "terrain that is discontinuous near the location is not used to judge iterative models"]
STATE_MEASURE = "model kind, hints, kind of terrain and outcome of the last two conversions on that model"


def gen_op(rng, pts, nm, nd, thr):
    o = {"m": rng.randrange(nm), "dem": rng.randrange(nd), "pt": list(rng.choice(pts)), "dir": "i2w" if rng.random() < 0.75 else "w2i"}
    if o["dir"] == "i2w":
        if rng.random() < 0.25:
            o["opts"] = {"kind": rng.choice(["empty", "guess", "dist", "both"]), "a": rng.choice([0.0, 0.0003, -0.0002]), "d": rng.choice([0.001, 0.01])}
        r = rng.random()
        if r < 0.2:
            o["fail"] = rng.choice([0, 0, 1, 3, 10])
        elif r < 0.3 and not thr:
            o["store"] = rng.choice(["missing", "cut", "zap", "empty", "ok", "ok"])
        elif r < 0.4 and not thr:
            o["faults"] = [{"fn": rng.choice(["Open", "OpenEx", "ReadAsArray", "GetRasterBand", "*"]), "n": rng.choice([0, 0, 1, 2]), "kind": rng.choice(["err", "none", "raise"])}]
    else:
        o["h"] = rng.choice([0.0, 50.0, 400.0, 900.0])
    return o


def gen(rng, tier, index):
    from .. import smworld as S
    if index == 0:      # a known finding, kept in view
        return {"models": [{"kind": "sidd"}], "dems": [{"type": "const", "base": 120.0}], "pre": [{"m": 0, "dem": 0, "dir": "i2w", "pt": [0.5, 0.5], "back": True}],
                "threads": [], "post": [], "exc": False, "sched": {"mode": "random", "seed": 1, "p": 0.1, "d": 2, "span": 500, "opcode": False}}
    nm = rng.choice([1, 1, 2])
    kinds = None
    if rng.random() < 0.6:
        kinds = ["rpc", "rpcchip", "rsm", "rsmsec", "rsmgeo", "rsm2pi", "sicd-capella", "sicd-pfa", "sicd-rma", "sicd-rgaz", "sidd", "sidd-chip", "sidd100"]
    models = [S.gen_model(rng, kinds) for _ in range(nm)]
    if nm > 1 and rng.random() < 0.3:
        models = [{"kind": k} for k in rng.choice(S.PAIRS)]
    for m in models:
        if m["kind"] == "rsm2pi" and rng.random() < 0.6:     # with corner coordinates: a composite model
            m["gt"] = [-117.039, 0.056 / 9122, 0.0, 33.205, 0.0, -0.044 / 9292]
    dems = [None]
    for _ in range(rng.choice([1, 2])):
        if rng.random() < 0.35:
            dems.append({"type": "files", "tileset": rng.choice(["srtm", "generic", "generic2"]), "seed": rng.randrange(100), "n": rng.choice([16, 40]),
                         "cache": rng.choice([0, 1, 2, 10]), "range": rng.choice([[0, 300], [200, 900]])})
        else:
            d = S.gen_dem(rng, True)
            if d is not None:
                d.pop("gaps", None)
            dems.append(d)
    pts = [[rng.uniform(-0.01, 1.01), rng.uniform(-0.01, 1.01)] for _ in range(rng.choice([2, 4, 6]))]
    pts += rng.sample([[0, 0], [1, 0], [0, 1], [1, 1], [0.5, 0.5], [0.5, 0.0], [0.02, 0.98]], 2)
    thr = rng.random() < 0.3
    plan = {"models": models, "dems": dems, "exc": rng.random() < 0.5, "pre": [gen_op(rng, pts, nm, len(dems), False) for _ in range(rng.choice([4, 8, 14]))],
            "threads": [], "post": []}
    if thr:
        plan["threads"] = [[gen_op(rng, pts, nm, len(dems), True) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
        plan["post"] = [gen_op(rng, pts, nm, len(dems), False) for _ in range(rng.choice([0, 1, 3]))]
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.005, 0.03, 0.2]),
                     "d": rng.choice([2, 4]), "span": rng.choice([500, 4000]), "opcode": False}
    inject.add_line_faults(rng, [o for o in plan["pre"] + plan["post"] if o["dir"] == "i2w" and "fail" not in o and "store" not in o], 0.06)
    return plan


def warm(plan):
    from .. import smworld as S
    for m in plan["models"]:
        S.metadata({k: v for k, v in m.items() if k in ("kind", "ver")})


def ref(spec):
    """Ground location of a pixel with no terrain, from a new model in an unused process."""
    from .. import smworld as S
    from aws.osml.photogrammetry import ImageCoordinate
    g = S.build(spec["model"]).image_to_world(ImageCoordinate(spec["px"]))
    return [float(g.longitude), float(g.latitude), float(g.elevation)]


def tolerance(spec, model):
    k = spec["kind"]
    if k.startswith("rpc") or k.startswith("rsm"):
        return 1e-3 if spec.get("types") == ["PROJECTIVE"] else 1.0
    if k.startswith("si"):
        return 0.1
    return 0.01


def run(plan, sim):
    import numpy as np
    from aws.osml.photogrammetry import ConstantElevationModel, DigitalElevationModel, GeodeticWorldCoordinate, ImageCoordinate
    from aws.osml.photogrammetry.sensor_model import SensorModelOptions as K
    from .. import demworld, sched, smworld as S, truth, world
    world.use_exceptions(plan["exc"])
    models = [S.build(m) for m in plan["models"]]
    with sched.quiet():
        equations = [truth.world_to_image(m) for m in plan["models"]]
        radars = [truth.radar(m["kind"]) for m in plan["models"]]
    dems, store = [], {}
    for i, d in enumerate(plan["dems"]):
        if d is None or d["type"] != "files":
            dems.append(S.elevation_model(d))
            continue
        tiles = []
        for m in plan["models"]:
            W, H = S.DIMS[m["kind"]]
            g = sim.ref({"model": m, "px": [W / 2, H / 2]})
            lo, la = math.floor(math.degrees(g[0])), math.floor(math.degrees(g[1]))
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    t = {"lon": lo + a, "lat": la + b, "n": d["n"], "seed": d["seed"], "style": "smooth", "range": d["range"], "dtype": "f4"}
                    if all((t["lon"], t["lat"]) != (x["lon"], x["lat"]) for x in tiles):
                        tiles.append(t)
        directory = f"/vsimem/dem{i}"
        for t in tiles:
            demworld.set_state(directory, d["tileset"], t, "ok")
        rec = demworld.Rec()
        dems.append(DigitalElevationModel(demworld.make_tileset(d["tileset"]), demworld.make_factory("gdal", directory, tiles, d["tileset"], rec, sim), d["cache"]))
        store[i] = (directory, d["tileset"], tiles)
    states = {i: "ok" for i in store}
    hist = {}

    def pixel(spec, o):
        W, H = S.DIMS[spec["kind"]]
        return [round(o["pt"][0] * W, 3), round(o["pt"][1] * H, 3)]

    def is_radar(spec):
        return spec["kind"].startswith("si")

    def i2w(o):
        mi, di = o["m"] % len(models), o["dem"] % len(dems)
        spec, dspec, model, dem = plan["models"][mi], plan["dems"][di], models[mi], dems[di]
        px = pixel(spec, o)
        me = sched.me()
        if o.get("store") and di in store:
            for t in store[di][2]:
                demworld.set_state(store[di][0], store[di][1], t, o["store"])
            states[di] = o["store"]
            sim.fault("elevation-storage:" + o["store"])
        opts = None
        if o.get("opts"):
            q, g = o["opts"], sim.ref({"model": spec, "px": px})
            opts = {}
            if q["kind"] in ("guess", "both"):
                opts[K.INITIAL_GUESS] = [g[0] + q["a"], g[1] - q["a"]]
            if q["kind"] in ("dist", "both"):
                opts[K.INITIAL_SEARCH_DISTANCE] = q["d"]
        failing = False
        if o.get("fail") is not None and dem is not None:
            failing = S.fail_after(dem, o["fail"])
        arm = o.get("faults") and (di in store or o["faults"][0]["fn"] == "line")
        if arm:
            sim.injector.arm(o["faults"])
        fired = 0
        try:
            g = model.image_to_world(ImageCoordinate(list(px)), elevation_model=dem, options=opts)
            out = "ok"
        except Exception as e:
            g, out = None, e
        finally:
            if arm:
                fired = sim.injector.disarm()
            if failing:
                S.fail_after(dem, None)
        where = f"{spec} {dspec} pixel {px} {o.get('opts') or ''}"
        sim.event("i2w", mi, di, px, me, [float(v) for v in g.coordinate] if g is not None else type(out).__name__)
        hist.setdefault(mi, []).append(((o.get("opts") or {}).get("kind"), dspec and dspec["type"], g is not None))
        sim.state((spec["kind"], hist[mi][-2:]))
        if g is None:
            if failing and isinstance(out, S.SimFailure):
                sim.fault("elevation-model:raise")
                return
            if fired:
                return
            sim.check(False, "conversion-failed", lambda: f"{where}: {type(out).__name__}: {out}")
        lon, lat, h = (float(v) for v in g.coordinate)
        sim.check(all(math.isfinite(v) for v in (lon, lat, h)) and abs(lon) <= math.pi + 1e-9 and abs(lat) <= math.pi / 2 + 1e-9, "not-a-location",
                  lambda: f"{where}: longitude {math.degrees(lon)}, latitude {math.degrees(lat)}, elevation {h}")
        if fired:       # terrain seen during the search may have changed from one step to the next
            return
        # on the terrain
        edge = min(abs(math.degrees(v) / c - round(math.degrees(v) / c)) * c for v in (lon, lat) for c in [(dspec or {}).get("cell", 1.0)])
        tiled = dspec is not None and dspec["type"] in ("tiled", "files")
        smooth = not tiled or edge > (0.03 if dspec["type"] == "files" else 0.002)
        ground = None
        if dem is not None and (di not in states or states[di] == "ok"):
            if dspec["type"] == "const":
                ground = dspec["base"]
            elif dspec["type"] == "terrain":
                ground = S.terrain_value(dspec, math.degrees(lon), math.degrees(lat))
            elif me is None:
                c = GeodeticWorldCoordinate([lon, lat, -9999.0])
                dem.set_elevation(c)
                if c.elevation != -9999.0:
                    ground = float(c.elevation)
                    if dspec["type"] == "files":      # unless a failed load is still remembered
                        t = [x for x in store[di][2] if x["lon"] <= math.degrees(lon) <= x["lon"] + 1 and x["lat"] <= math.degrees(lat) <= x["lat"] + 1]
                        if t:
                            sim.check(min(abs(ground - demworld.value(demworld.strip(x), math.degrees(lon), math.degrees(lat))) for x in t) < 0.01, "terrain-value",
                                      lambda: f"{where}: the terrain is reported as {ground}")
        if ground is not None and smooth:
            tol = 0.5 if tiled and is_radar(spec) else 0.01
            sim.check(abs(ground - h) <= tol, "not-on-terrain", lambda: f"{where}: elevation {h} at a place where the terrain is {ground}")
            sim.probe("on-terrain")
        # back to the image
        back = model.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
        e = math.hypot(back.x - px[0], back.y - px[1])
        tol = tolerance(spec, model)
        if is_radar(spec) and dem is not None:
            if o.get("back"):
                sim.check(e <= tol, "radar-terrain-round-trip", lambda: f"{where}: comes back as ({back.x}, {back.y})")
        elif smooth:
            sim.check(e <= tol, "round-trip", lambda: f"{where}: ground ({math.degrees(lon)}, {math.degrees(lat)}, {h}) comes back as ({back.x}, {back.y})")
            sim.probe("round-trips-" + spec["kind"])
        # the imaging equation
        if equations[mi] is not None:
            with sched.quiet():
                t = equations[mi](lon, lat, h)
            d = math.hypot(t[0] - back.x, t[1] - back.y) if t else 0.0
            sim.check(d <= 1e-3, "imaging-equation", lambda: f"{where}: ({back.x}, {back.y}) instead of {t}")
        if radars[mi] is not None:
            with sched.quiet():
                at, scp_px, scp = radars[mi]
                pos, vel, plane = at(px)
                got = truth.range_and_rate(pos, vel, truth.ecef(lon, lat, h))
                flat = sim.ref({"model": spec, "px": px})
                want = truth.range_and_rate(pos, vel, plane if plane is not None else truth.ecef(*flat))
            tol = (0.05, 0.01)
            sim.check(abs(got[0] - want[0]) <= tol[0] and abs(got[1] - want[1]) <= tol[1], "range-or-doppler",
                      lambda: f"{where}: range and rate {got} instead of {want}")
            sim.probe("radar-contours")
        if dem is not None:
            sim.probe("with-terrain")

    def w2i(o):
        """From the ground at a chosen height to the image and back to that height."""
        mi = o["m"] % len(models)
        spec, model = plan["models"][mi], models[mi]
        px = pixel(spec, o)
        g = sim.ref({"model": spec, "px": px})
        h = g[2] if is_radar(spec) else o["h"]
        c = model.world_to_image(GeodeticWorldCoordinate([g[0], g[1], h]))
        if equations[mi] is not None:
            with sched.quiet():
                t = equations[mi](g[0], g[1], h)
            sim.check(t is None or math.hypot(t[0] - c.x, t[1] - c.y) <= 1e-3, "imaging-equation", lambda: f"{spec} {g[:2]} {h}: ({c.x}, {c.y}) instead of {t}")
        back = model.image_to_world(ImageCoordinate([c.x, c.y]), elevation_model=None if is_radar(spec) else ConstantElevationModel(h))
        again = model.world_to_image(back)
        sim.event("w2i", mi, px, [float(v) for v in c.coordinate], [float(v) for v in back.coordinate])
        e = math.hypot(again.x - c.x, again.y - c.y)
        dist = float(np.linalg.norm(truth.ecef(*[float(v) for v in back.coordinate]) - truth.ecef(g[0], g[1], h)))
        sim.check(e <= tolerance(spec, model), "round-trip", lambda: f"{spec}: ({c.x}, {c.y}) at height {h} comes back as ({again.x}, {again.y})")
        # a pixel of any of these images covers less than 100 m, except where its footprint is measured in degrees
        lim = 2.0 if spec["kind"] in ("rpc", "rpcchip", "rsm", "rsmsec", "rsmgeo", "rsm2pi") or is_radar(spec) else 1.0
        sim.check(dist <= lim, "round-trip-ground", lambda: f"{spec}: ground {g[:2]} at height {h} comes back {dist} m away")
        sim.probe("ground-round-trips")

    def step(o):
        (i2w if o["dir"] == "i2w" else w2i)(o)

    for o in plan["pre"]:
        step(o)
    ths = [t for t in plan["threads"] if t]
    if ths:
        sim.threads([(lambda t=t: [step(o) for o in t]) for t in ths], plan["sched"])
    for o in plan["post"]:
        step(o)


def nontrivial(s):
    return s["probes"].get("with-terrain", 0) > 0
