"""C04: elevation lookups give the terrain value or leave the elevation untouched."""
import math

RUNS = {"quick": 2200, "thorough": 60000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of elevation lookups on one or two elevation models over tiles that appear, vanish, get "
        "damaged and heal, with load faults and optionally threads sharing a model; non-trivial if lookups returned terrain values and at "
        "least one tile was unavailable, faulted, reloaded or looked up concurrently; distinct by the digest of the event trace")
REAL = ["DigitalElevationModel", "SRTMTileSet", "GenericDEMTileSet", "GDALDigitalElevationModelTileFactory", "GDALAffineSensorModel",
        "cachetools.LRUCache/cachedmethod", "scipy RectBivariateSpline", "GDAL GTiff driver"]
STUBS = ["in half of the runs a stub tile factory hands over posts directly, fails on command and yields to the scheduler while loading",
         "storage is GDAL's in-memory file system", "threading.Lock/RLock are scheduler-controlled"]
ASSUMPTIONS = ["locations on a cell border may take the value of either cell", "posts beyond the outermost post of a tile take the value at "
               "the tile's border (the tile's own coverage)", "a failed load may be remembered until it leaves the cache"]
STATE_MEASURE = "set of retained tiles and availability of all tiles after each operation"


def gen_tiles(rng, tileset):
    srtm = tileset.startswith("srtm")
    lon0, lat0 = rng.choice([(10, 20), (-71, 41), (-1, -1), (150, -35), (-180, 10), (0, 0), (30, 14), (-61, 29)] + ([(30, 58), (30, -57)] if srtm else [(178, 78)]))
    cells = [(lon0 + i, lat0 + j) for i in range(3) for j in range(2)]
    cells = [(a, b) for a, b in cells if -180 <= a < 180]
    tiles = []
    for lon, lat in cells:
        if rng.random() < 0.2:
            continue
        n = rng.choice([2, 3, 5, 11, 30])
        t = {"lon": lon, "lat": lat, "n": n, "seed": rng.randrange(1000), "dtype": rng.choice(["i2", "i2", "f4"]),
             "range": rng.choice([[0, 3000], [-400, 100], [5, 6]])}
        if rng.random() < 0.3:
            t["nx"] = rng.choice([2, 4, 17])
        if rng.random() < 0.15:
            t["n"] = 120
            t["rows"] = 1
        tiles.append(t)
    return cells, tiles


def point(rng, cells):
    lon, lat = rng.choice(cells)
    r = rng.random()
    if r < 0.7:
        fx, fy = rng.uniform(0.001, 0.999), rng.uniform(0.001, 0.999)
    elif r < 0.85:
        fx, fy = rng.choice([1e-7, 1 - 1e-7, 0.5]), rng.choice([1e-7, 1 - 1e-7, 0.25])
    else:
        fx, fy = rng.choice([0.0, 0.2, 0.5]), rng.choice([0.0, 0.1, 0.5])
    return lon + fx, lat + fy


def gen_op(rng, cells, ntiles, nm, faulty, seq):
    r = rng.random()
    m = rng.randrange(nm)
    if seq and r < 0.22 and ntiles:
        return {"op": "storage", "m": m, "tile": rng.randrange(ntiles), "state": rng.choice(["ok", "ok", "missing", "cut", "zap", "nogeo", "empty"])}
    lon, lat = point(rng, cells)
    o = {"op": "get" if r < 0.85 else "desc", "m": m, "lon": lon, "lat": lat, "e0": rng.choice([0.0, -5.5, 123.25, 1e4])}
    if rng.random() < 0.05:
        o["lat"] = rng.choice([89.5, -89.5, 61.5, -57.5, 0.5])
    if faulty and rng.random() < 0.35:
        o["faults"] = [{"fn": rng.choice(["Open", "Band.ReadAsArray", "Band.GetStatistics", "*", "Dataset.ReadAsArray"]), "n": rng.randrange(0, 3),
                        "kind": "err"}]
        o["fail"] = rng.choice(["raise", "none"])
    return o


def gen(rng, tier, index):
    tileset = rng.choice(["srtm", "srtm", "srtm3", "generic", "generic2", "custom"])
    cells, tiles = gen_tiles(rng, tileset)
    nm = rng.choice([1, 1, 2])
    faulty = rng.random() < 0.6
    plan = {"tileset": tileset, "tiles": tiles, "cache": rng.choice([0, 1, 1, 2, 2, 3, 4, 10]), "models": nm,
            "factory": rng.choice(["gdal", "stub"]), "exc": rng.random() < 0.5}
    thr = rng.random() < 0.45
    n = rng.choice([5, 15, 40])
    plan["pre"] = [gen_op(rng, cells, len(tiles), nm, faulty, True) for _ in range(n)]
    plan["threads"] = []
    if thr:
        k = rng.choice([2, 2, 3, 4])
        hot = rng.sample(cells, rng.randrange(1, len(cells) + 1))
        plan["threads"] = [[gen_op(rng, hot, len(tiles), nm, faulty and rng.random() < 0.5, False) for _ in range(rng.choice([2, 4, 8]))]
                           for _ in range(k)]
    plan["post"] = [gen_op(rng, cells, len(tiles), nm, False, True) for _ in range(rng.choice([0, 5, 12]))]
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.02, 0.1, 0.4]),
                     "d": rng.choice([2, 4, 6]), "span": rng.choice([200, 1000]), "opcode": rng.random() < 0.2}
    return plan


def run(plan, sim):
    from aws.osml.photogrammetry import DigitalElevationModel, GeodeticWorldCoordinate
    from .. import demworld, sched, world
    ts = plan["tileset"]
    world.use_exceptions(plan["exc"])
    models = []
    for m in range(plan["models"]):
        d = f"/vsimem/dem{m}"
        tiles = []
        for t in plan["tiles"]:
            t = dict(t)
            if m:
                t["seed"] += 500      # same tile ids, other terrain
            demworld.set_state(d, ts, t, "ok")
            tiles.append(t)
        rec = demworld.Rec()
        fac = demworld.make_factory(plan["factory"], d, tiles, ts, rec, sim)
        tset = demworld.make_tileset(ts)
        dem = DigitalElevationModel(tset, fac) if plan["cache"] == 10 else DigitalElevationModel(tset, fac, plan["cache"])
        models.append({"dem": dem, "rec": rec, "tiles": tiles, "dir": d, "hist": [], "failed": {}, "last": {}})
    size = plan["cache"]
    parallel = [False]
    cur = {}

    for M in models:
        def on_load(tile, M=M):
            o = cur.get(sched.me())
            return o.get("fail") if o and o.get("faults") else None
        M["rec"].on_load = on_load if plan["factory"] == "stub" else None

    def cell_candidates(lon, lat):
        xs = {math.floor(lon)} | ({math.floor(lon + 1e-9), math.floor(lon - 1e-9)})
        ys = {math.floor(lat)} | ({math.floor(lat + 1e-9), math.floor(lat - 1e-9)})
        return [(a, b) for a in xs for b in ys]

    def covered(lat):
        if ts.startswith("srtm"):
            return -56 <= lat <= 59
        if ts == "custom":
            return abs(lat) < 85
        return True

    def step(o):
        if o["op"] == "storage":
            M = models[o["m"]] if o["m"] < len(models) else None
            if M is None or o["tile"] >= len(M["tiles"]):
                return
            demworld.set_state(M["dir"], ts, M["tiles"][o["tile"]], o["state"])
            sim.event("storage", o["m"], o["tile"], o["state"])
            if o["state"] != "ok":
                sim.fault("storage:" + o["state"])
            return
        if o["m"] >= len(models):
            return
        M = models[o["m"]]
        lon, lat = o["lon"], o["lat"]
        c = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), o["e0"]])
        before = [float(v) for v in c.coordinate]
        nl = len(M["rec"].loads)
        cur[sched.me()] = o
        gdalf = plan["factory"] == "gdal"
        sim.injector.arm(o.get("faults", []) if gdalf else [])
        exc = res = None
        try:
            if o["op"] == "get":
                r = M["dem"].set_elevation(c)
            else:
                res = M["dem"].describe_region(c)
        except OSError as e:
            exc = e
        finally:
            fired = sim.injector.disarm()
            cur[sched.me()] = None
        for f in fired:
            sim.fault(f"{f[0]}:{f[2]}")
        if not gdalf and o.get("faults") and any(x[1] in ("raise", "none") for x in M["rec"].loads[nl:]):
            sim.fault("load:" + o["fail"])
        after = [float(v) for v in c.coordinate]
        sim.event(o["op"], o["m"], lon, lat, after[2] if o["op"] == "get" else str(res), type(exc).__name__)
        sim.check(exc is None or (not gdalf and "simulated" in str(exc)), "lookup-raised", repr(exc))
        sim.check(after[0:2] == before[0:2], "location-altered", f"{before} -> {after}")
        if o["op"] == "desc":
            sim.check(after == before, "describe-altered-coordinate", f"{before} -> {after}")
        cands = cell_candidates(lon, lat)
        ids = [demworld.name_of(ts, a, b) for a, b in cands]
        tiles = [t for t in M["tiles"] if (t["lon"], t["lat"]) in cands and covered(t["lat"])]
        # bookkeeping of what the cache may remember, from the loads the factory saw
        if not parallel[0]:
            new = M["rec"].loads[nl:]
        else:
            new = [x for x in M["rec"].loads]
        for tid, out in new:
            if out == "ok":
                if not parallel[0]:
                    M["failed"].pop(tid, None)
            else:
                M["failed"][tid] = True
        maybe_unavailable = (len(tiles) < len(cands)) or exc is not None
        for t in tiles:
            tid = demworld.name_of(ts, t["lon"], t["lat"])
            if t["_state"] != "ok":
                maybe_unavailable = True
            elif tid in M["failed"]:
                if parallel[0] or any(x == (tid, "none") or x == (tid, "raise") for x in M["rec"].loads[nl:]):
                    maybe_unavailable = True
                else:
                    # remembered failure: tolerated until it must have left the cache
                    last = M["last"].get(tid)
                    seen = set(M["hist"][last + 1:]) if last is not None else set()
                    seen.discard(tid)
                    if len(seen) < size:
                        maybe_unavailable = True
                    if maybe_unavailable:
                        sim.probe("remembered-failures")
        ok_values = [(demworld.value(demworld.strip(t), lon, lat), t) for t in tiles]
        if o["op"] == "get":
            e = after[2]
            tol = 1e-6 + 1e-6 * max([abs(v[1]["range"][1] - v[1]["range"][0]) for v in ok_values] or [0])
            good = any(abs(e - v) <= tol for v, t in ok_values)
            if exc is not None:
                sim.check(e == before[2], "elevation-changed-by-failed-lookup", f"{before} -> {after}")
            elif not good:
                sim.check(e == before[2], "wrong-elevation",
                          lambda: f"at {lon},{lat}: {e}, expected one of {[v for v, t in ok_values]} or unchanged {before[2]}")
                sim.check(maybe_unavailable, "available-tile-not-used",
                          lambda: f"at {lon},{lat}: unchanged {e}, expected {[v for v, t in ok_values]}")
                sim.probe("unchanged")
            else:
                sim.probe("terrain-values")
        elif exc is None:
            if res is None:
                sim.check(maybe_unavailable, "available-region-not-described", f"at {lon},{lat}")
                sim.probe("unchanged")
            else:
                rng = [(float(demworld.posts(demworld.strip(t)).min()), float(demworld.posts(demworld.strip(t)).max())) for t in tiles]
                got = (float(res.min_elevation), float(res.max_elevation))
                sim.check(got in rng, "wrong-region-range", lambda: f"at {lon},{lat}: {got}, expected one of {rng}")
                sim.probe("terrain-values")
        if any(x[1] == "ok" for x in M["rec"].loads[nl:]):
            sim.probe("ops-with-load")
        if exc is None:
            # which cell was used is only known up to border cases: count an access only if it is unambiguous
            if len(set(cands)) == 1 and covered(cands[0][1]):
                M["hist"].append(ids[0])
                M["last"][ids[0]] = len(M["hist"]) - 1
            else:
                for i in ids:
                    M["last"][i] = len(M["hist"]) - 1
        if not parallel[0]:
            sim.state((o["m"], sorted((t["lon"], t["lat"], t["_state"]) for t in M["tiles"]),
                       sorted(a for a, w, _ in M["rec"].alive if w() is not None)))

    for o in plan["pre"]:
        step(o)
    ths = [t for t in plan["threads"] if t]
    if ths:
        parallel[0] = True
        sim.threads([(lambda t=t: [step(o) for o in t]) for t in ths], plan["sched"])
        parallel[0] = False
        sim.probe("parallel-lookups", sum(len(t) for t in ths))
        for M in models:
            # order of concurrent accesses is not known to the observer: start the recency bookkeeping afresh
            M["hist"] = []
            M["last"] = {k: -1 for k in M["last"]}
            for t in M["tiles"]:
                M["failed"].setdefault(demworld.name_of(ts, t["lon"], t["lat"]), True)
                M["last"].setdefault(demworld.name_of(ts, t["lon"], t["lat"]), -1)
    for o in plan["post"]:
        step(o)


def nontrivial(s):
    p = s["probes"]
    return p.get("terrain-values", 0) > 0 and (s["faults"] or p.get("unchanged", 0) or p.get("loads-ok", 0) > 3 or p.get("thread-runs", 0))
