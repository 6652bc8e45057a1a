"""C05: the elevation tile cache stays within its limit and keeps recent tiles."""
import math

RUNS = {"quick": 3000, "thorough": 80000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of elevation lookups on elevation models with cache sizes 0 to 10, with raising loads and "
        "optionally threads sharing a model; non-trivial if at least one tile was displaced, reloaded or failed to load, or threads "
        "switched inside the cache; distinct by the digest of the event trace")
REAL = ["DigitalElevationModel", "cachetools.LRUCache/cachedmethod", "SRTMTileSet", "GenericDEMTileSet", "GDALDigitalElevationModelTileFactory"]
STUBS = ["in most runs a stub tile factory hands over posts, raises on command and yields to the scheduler while loading",
         "storage is GDAL's in-memory file system", "threading.Lock/RLock are scheduler-controlled"]
ASSUMPTIONS = ["retained tiles are observed through weak references to the sensor models and arrays the factory handed over and by counting "
               "live interpolation objects, after garbage collection", "a tile that does not exist may or may not take a place in the cache",
               "reloads are judged for accesses that do not overlap others"]
STATE_MEASURE = "set of retained tiles after each operation"


def prepare():
    import gc
    gc.collect()
    gc.freeze()


def gen(rng, tier, index):
    tileset = rng.choice(["srtm", "generic", "generic2", "custom"])
    lon0, lat0 = rng.choice([(10, 20), (-2, -1), (150, -35)])
    cells = [(lon0 + i, lat0 + j) for i in range(rng.choice([2, 3, 5])) for j in range(rng.choice([1, 2, 3]))]
    tiles = [{"lon": a, "lat": b, "n": rng.choice([2, 3, 8]), "seed": rng.randrange(1000)} for a, b in cells if rng.random() < 0.9]
    nm = rng.choice([1, 1, 2])

    def op(pat, i):
        if pat == "cyclic":
            c = cells[i % len(cells)]
        elif pat == "hot":
            c = cells[0] if rng.random() < 0.5 else rng.choice(cells)
        elif pat == "pair":
            c = cells[(i // 3) % len(cells)] if i % 3 else cells[0]
        else:
            c = rng.choice(cells)
        o = {"op": rng.choice(["get", "get", "desc"]), "m": rng.randrange(nm), "lon": c[0] + rng.uniform(0.01, 0.99), "lat": c[1] + rng.uniform(0.01, 0.99)}
        if rng.random() < fr:
            o["fail"] = rng.choice(["raise", "raise", "none"])
        return o
    fr = rng.choice([0, 0.15, 0.4])
    pat = rng.choice(["cyclic", "hot", "pair", "random", "random"])
    thr = rng.random() < 0.4
    return {"tileset": tileset, "tiles": tiles, "models": nm, "cache": [rng.choice([0, 1, 1, 2, 2, 3, 4, 7, 10]) for _ in range(nm)],
            "factory": "gdal" if rng.random() < 0.2 else "stub",
            "pre": [op(pat, i) for i in range(rng.choice([6, 20, 50]))],
            "threads": [[op(rng.choice(["random", "hot"]), i) for i in range(rng.choice([2, 5, 9]))] for _ in range(rng.choice([2, 3, 4]))] if thr else [],
            "post": [op(pat, i) for i in range(rng.choice([0, 10, 25]))],
            "sched": {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.02, 0.1, 0.4]),
                      "d": rng.choice([2, 4, 6]), "span": rng.choice([200, 1000]), "opcode": rng.random() < 0.2}}


def run(plan, sim):
    import gc
    from scipy.interpolate import RectBivariateSpline
    from aws.osml.photogrammetry import DigitalElevationModel, GeodeticWorldCoordinate
    from .. import demworld, sched, world
    ts = plan["tileset"]
    cur = {}
    models = []
    for m in range(plan["models"]):
        d = f"/vsimem/dem{m}"
        tiles = [dict(t) for t in plan["tiles"]]
        for t in tiles:
            demworld.set_state(d, ts, t, "ok")
        rec = demworld.Rec()
        rec.on_load = lambda tile: (cur.get(sched.me()) or {}).get("fail")
        rec.on_note = lambda tile, outcome: inflight[sched.me()]["loads"].append(outcome) if sched.me() in inflight else None
        fac = demworld.make_factory(plan["factory"], d, tiles, ts, rec, sim)
        dem = DigitalElevationModel(demworld.make_tileset(ts), fac, raster_cache_size=plan["cache"][m])
        models.append({"dem": dem, "rec": rec, "size": plan["cache"][m], "recent": [], "known": set(), "tiles": tiles})
    parallel = [False]
    clock = [0]
    ops = []            # concurrent accesses: model, tile, start, end, loads of this access, outcome
    inflight = {}

    def overlapping(M, tid, me):
        """A tile that was loaded by a finished access and has since been among the `size` most recent ones is not loaded again."""
        if me["loads"]:
            for a in ops:
                if a["M"] is not M or a["tile"] != tid or a["end"] > me["start"] or a["loads"] != ["ok"]:
                    continue
                between = [x for x in ops if x["M"] is M and x["end"] >= a["start"] and x["start"] <= me["end"]]
                ids = {x["tile"] for x in between} | {x["tile"] for x in inflight.values() if x["M"] is M}
                if len(ids) <= M["size"] and not any(x["tile"] == tid and x["fail"] for x in list(between) + list(inflight.values())):
                    sim.check(False, "recent-tile-loaded-again", lambda: f"{tid}: only {len(ids)} tiles were used since it was loaded, cache size {M['size']}")
        sim.probe("concurrent-accesses")

    def retained(M):
        M["rec"].alive = [x for x in M["rec"].alive if x[1]() is not None or x[2]() is not None]
        return max(sum(1 for x in M["rec"].alive if x[1]() is not None), sum(1 for x in M["rec"].alive if x[2]() is not None))

    def splines():
        return sum(1 for o in gc.get_objects() if type(o) is RectBivariateSpline)
    gc.collect()
    base_splines = splines()

    def quiescent(where):
        gc.collect()
        total = 0
        for i, M in enumerate(models):
            M["rec"].alive = [x for x in M["rec"].alive if x[1]() is not None or x[2]() is not None]
            n = sum(1 for x in M["rec"].alive if x[1]() is not None)
            na = sum(1 for x in M["rec"].alive if x[2]() is not None)
            total += M["size"]
            sim.check(n <= M["size"] and na <= M["size"], "cache-exceeds-limit",
                      lambda: f"{where}: {max(n, na)} tiles retained, limit {M['size']}: {[x[0] for x in M['rec'].alive]}")
            sim.state((i, M["size"], sorted(x[0] for x in M["rec"].alive)))
        ns = splines() - base_splines
        sim.check(ns <= total, "cache-exceeds-limit", lambda: f"{where}: {ns} interpolation grids retained, limits add up to {total}")

    def step(o, i=0):
        if o["m"] >= len(models):
            return
        M = models[o["m"]]
        tid = demworld.name_of(ts, math.floor(o["lon"]), math.floor(o["lat"]))
        nl = len(M["rec"].loads)
        cur[sched.me()] = o
        if parallel[0]:
            clock[0] += 1
            mine = {"M": M, "tile": tid, "start": clock[0], "end": math.inf, "loads": [], "fail": bool(o.get("fail"))}
            inflight[sched.me()] = mine
        gdalf = plan["factory"] == "gdal"
        if gdalf and o.get("fail") == "raise":
            sim.injector.arm([{"fn": "Band.ReadAsArray", "n": 0, "kind": "mem"}])
        raised = False
        c = GeodeticWorldCoordinate([math.radians(o["lon"]), math.radians(o["lat"]), 1.0])
        try:
            if o["op"] == "get":
                M["dem"].set_elevation(c)
            else:
                M["dem"].describe_region(c)
        except (OSError, RuntimeError, MemoryError) as e:
            if "simulated" not in str(e):
                raise
            raised = True
        finally:
            sim.injector.disarm()
            cur[sched.me()] = None
        if parallel[0]:
            with sched.quiet():
                clock[0] += 1
                mine["end"] = clock[0]
                mine["fail"] = mine["fail"] or raised
                del inflight[sched.me()]
                overlapping(M, tid, mine)
                ops.append(mine)
                room = M["size"] + sum(1 for x in inflight.values() if x["M"] is M)
                if retained(M) > room:
                    gc.collect()
                    n = retained(M)
                    sim.check(n <= room, "cache-exceeds-limit", lambda: f"{n} tiles retained while {room - M['size']} lookups are running, limit {M['size']}: "
                              f"{[x[0] for x in M['rec'].alive]}")
            return
        new = M["rec"].loads[nl:]
        sim.event(o["op"], tid, [x[1] for x in new], raised)
        sim.check(all(x[0] == tid for x in new), "loaded-unrelated-tile", f"{new} for {tid}")
        size = M["size"]
        exists = any((t["lon"], t["lat"]) == (math.floor(o["lon"]), math.floor(o["lat"])) for t in M["tiles"])
        loaded = bool(new)
        recent = M["recent"]
        if tid in recent and recent.index(tid) < size and tid in M["known"]:
            sim.check(not loaded, "recent-tile-loaded-again", lambda: f"{tid} is number {recent.index(tid) + 1} of the recent tiles, cache size {size}")
            sim.probe("hits")
        else:
            if tid in M["must_retry"]:
                sim.check(loaded, "failed-load-remembered", f"{tid}")
                sim.probe("retries")
            if loaded and tid in M["known"]:
                sim.probe("reloads")
        outcomes = [x[1] for x in new]
        for x in outcomes:
            if x == "raise":
                sim.fault("load:raise")
            elif x == "none" and exists:
                sim.fault("load:none")
        if outcomes and outcomes[-1] == "raise":
            # leaves no trace: recency and contents of the cache are as before the access
            M["must_retry"].add(tid)
        else:
            M["must_retry"].discard(tid)
            if tid in recent:
                recent.remove(tid)
            recent.insert(0, tid)
            if outcomes:
                if outcomes[-1] == "ok":
                    M["known"].add(tid)
                else:
                    M["known"].discard(tid)
        if i % 3 == 2:
            quiescent("after a lookup")

    for M in models:
        M["must_retry"] = set()
    for i, o in enumerate(plan["pre"]):
        step(o, i)
    quiescent("before threads")
    ths = [t for t in plan["threads"] if t]
    if ths:
        parallel[0] = True
        sim.threads([(lambda t=t: [step(o) for o in t]) for t in ths], plan["sched"])
        parallel[0] = False
        quiescent("after concurrent lookups")
        for M in models:
            M["recent"] = []
            M["known"] = set()
            M["must_retry"] = set()
    for i, o in enumerate(plan["post"]):
        step(o, i)
    quiescent("at the end")


def nontrivial(s):
    p = s["probes"]
    return p.get("loads-ok", 0) > 0 and (p.get("reloads", 0) or p.get("hits", 0) or s["faults"] or p.get("thread-runs", 0))
