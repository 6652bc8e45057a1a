"""C15: map tiles, coordinate strings and geocentric coordinates mean the location they were made for."""
import json
import math

RUNS = {"quick": 1500, "thorough": 40000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of lookups of map tiles, formatting and conversion of coordinates with the shared tile sets and "
        "projections, while projections fail, callers change what they were given and threads use the same objects; non-trivial if a projection "
        "failed, a caller changed a result or threads shared the objects, and a lookup was compared with the formulas of the tile matrix set; "
        "distinct by the digest of the event trace")
REAL = ["WebMercatorQuadMapTileSet", "MapTileSetFactory", "GeodeticWorldCoordinate", "WorldCoordinate", "ImageCoordinate", "geodetic_to_geocentric",
        "geocentric_to_geodetic", "PROJ"]
STUBS = ["the transform() call of pyproj fails at chosen calls"]
ASSUMPTIONS = ["the tile matrix sets cover latitudes up to 85.0511 degrees; locations beyond belong to the closest tile",
               "coordinates on a border belong to either tile", "formatted seconds are truncated"]
STATE_MEASURE = "kinds of the last two operations, tile matrix class and outcome"
LIMIT = math.atan(math.sinh(math.pi))
IDS = {"WebMercatorQuad": 256, "WebMercatorQuadx2": 512}
DIRECTIVES = ["%L", "%l", "%ld", "%lm", "%ls", "%lh", "%lH", "%O", "%o", "%od", "%om", "%os", "%oh", "%oH", "%E", "%%", "%X", "%q"]


def gen_loc(rng):
    """[lon, lat] in degrees, often at places where something changes."""
    k = rng.choice(["any", "any", "any", "border", "edge", "zero", "second", "pole"])
    if k == "border":
        z = rng.choice([1, 3, 8, 15])
        n = 2 ** z
        c, r = rng.randrange(n + 1), rng.randrange(n + 1)
        e = rng.choice([0.0, 1e-9, -1e-9, 1e-6])
        return [c / n * 360 - 180 + e, math.degrees(math.atan(math.sinh(math.pi * (2 * r / n - 1)))) + e]
    if k == "edge":
        return [rng.choice([-180.0, 180.0, -179.9999999, 179.9999999, -180.0 + 1e-12]), rng.choice([0.0, 10.0, 85.05, -85.05, 85.06, -85.06, 84.9])]
    if k == "zero":
        return [rng.choice([0.0, -0.0, 1e-10, -1e-10, 90.0, -90.0]), rng.choice([0.0, -0.0, 1e-10, -1e-10, 45.0])]
    if k == "second":
        return [rng.randrange(-648000, 648001) / 3600, rng.randrange(-324000, 324001) / 3600]
    if k == "pole":
        return [round(rng.uniform(-180, 180), 3), rng.choice([89.0, -89.0, 90.0, -90.0, 89.999999, 88.0, -86.0])]
    return [round(rng.uniform(-180, 180), rng.choice([1, 4, 9])), round(rng.uniform(-85, 85), rng.choice([1, 4, 9]))]


def gen_op(rng, nt):
    r = rng.random()
    o = {"t": rng.randrange(nt), "z": rng.choice([0, 1, 2, 5, 9, 14, 18, 22, 24]), "spoil": rng.random() < 0.3, "again": rng.random() < 0.3}
    if r < 0.3:
        o.update(op="loc", at=gen_loc(rng))
    elif r < 0.45:
        n = 2 ** o["z"]
        o.update(op="tile", row=rng.choice([0, n - 1, rng.randrange(n)]), col=rng.choice([0, n - 1, rng.randrange(n)]))
    elif r < 0.55:
        a = gen_loc(rng)
        d = rng.choice([1e-5, 0.01, 1.0, 20.0])
        o.update(op="limits", pts=[[a[0] + x * d, max(-89.0, min(89.0, a[1] + y * d))] for x, y in rng.choice([[(0, 0)], [(0, 0), (1, 0), (1, 1), (0, 1)], [(0, 0), (-2, 1), (1, -1)]])])
    elif r < 0.78:
        o.update(op="format", at=gen_loc(rng), h=rng.choice([0.0, -12.5, 1234.25, 8e5]),
                 parts=[rng.choice(DIRECTIVES + ["abc", "N ", "100"]) for _ in range(rng.choice([1, 3, 6]))], dms=rng.random() < 0.5)
    elif r < 0.95:
        o.update(op="ecef", at=gen_loc(rng), h=rng.choice([0.0, -400.0, 8848.0, 1e5, 5e5]))
    else:
        o.update(op="set", how=rng.choice(["id", "unknown"]))
    if rng.random() < 0.12:
        o["fail"] = rng.choice([0, 0, 1, 2])
    return o


def gen(rng, tier, index):
    nt = rng.choice([1, 2, 3])
    plan = {"sets": [rng.choice(sorted(IDS)) for _ in range(nt)], "pre": [gen_op(rng, nt) for _ in range(rng.choice([3, 6, 12]))], "threads": [], "post": []}
    if rng.random() < 0.5:
        plan["threads"] = [[gen_op(rng, nt) for _ in range(rng.choice([2, 4]))] for _ in range(rng.choice([2, 3]))]
        for t in plan["threads"]:
            for o in t:
                o.pop("fail", None)
        plan["post"] = [gen_op(rng, nt) for _ in range(rng.choice([0, 2]))]
    plan["finding"] = rng.random() < 0.02
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.05, 0.2, 0.5]),
                     "d": rng.choice([2, 4]), "span": rng.choice([50, 300]), "opcode": rng.random() < 0.3}
    for o in plan["pre"] + plan["post"]:
        if "fail" not in o and rng.random() < 0.15:
            o["line"] = rng.randrange(25)
    return plan


class ProjectionFailure(RuntimeError):
    pass


def bounds_of(z, row, col):
    """[min_lon, min_lat, max_lon, max_lat] of a tile; rows count from the south in this library."""
    n = 2 ** z

    def lon(c):
        return (2 * c / n - 1) * math.pi

    def lat(r):
        return math.atan(math.sinh(math.pi * (2 * r / n - 1)))
    return lon(col), lat(row), lon(col + 1), lat(row + 1)


def run(plan, sim):
    import numpy as np
    import pyproj
    from aws.osml.image_processing import MapTileId, MapTileSetFactory
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, WorldCoordinate, geocentric_to_geodetic, geodetic_to_geocentric
    from .. import sched, truth
    sets = [MapTileSetFactory.get_for_id(i) for i in plan["sets"]]
    real = pyproj.Transformer.transform
    countdown = [None]

    def transform(self, *a, **k):
        if countdown[0] is not None:
            countdown[0] -= 1
            if countdown[0] < 0:
                countdown[0] = None
                sim.fault("projection:raise")
                raise ProjectionFailure("simulated")
        sched.seam_point()
        return real(self, *a, **k)
    last = []

    def note(*what):
        last.append(what)
        sim.state((last[-2:],))

    def coordinate(at, h=0.0):
        return GeodeticWorldCoordinate([math.radians(at[0]), math.radians(at[1]), h])

    def check_tile(t, ident, tile, where):
        z, row, col = ident
        n = 2 ** z
        sim.check(tuple(tile.id) == tuple(ident) and tile.id.tile_matrix == z and tile.id.tile_row == row and tile.id.tile_col == col, "tile-id", lambda: f"{where}: {tile}")
        sim.check(0 <= row < n and 0 <= col < n, "tile-outside", lambda: f"{where}: {tile}")
        s = IDS[plan["sets"][t]]
        sim.check(tuple(tile.size) == (s, s), "tile-size", lambda: f"{where}: {tile}")
        want = bounds_of(z, row, col)
        got = tuple(float(v) for v in tile.bounds)
        tol = 1e-11
        sim.check(len(got) == 4 and all(abs(a - b) <= tol for a, b in zip(got, want)), "tile-bounds", lambda: f"{where}: {got} instead of {want}")
        sim.probe("tiles")

    def spoil(tile):
        sim.probe("spoiled")
        tile.id = MapTileId(tile_matrix=1, tile_row=1, tile_col=0)
        tile.size = (1, 1)
        tile.bounds = (0.0, 0.0, 0.0, 0.0)

    def loc(o):
        t, z = o["t"], o["z"]
        c = coordinate(o["at"])
        where = f"{plan['sets'][t]}, location {o['at']} degrees, tile matrix {z}"
        before = c.coordinate.copy()
        tile = sets[t].get_tile_for_location(c, z)
        sim.check(np.array_equal(before, c.coordinate), "argument-altered", where)
        check_tile(t, tuple(tile.id), tile, where)
        sim.check(tile.id.tile_matrix == z, "tile-matrix", lambda: f"{where}: {tile}")
        b = bounds_of(*tile.id)
        lon, lat = c.longitude, max(-LIMIT, min(LIMIT, c.latitude))
        tol = 1e-11
        inx = any(b[0] - tol <= lon + k * 2 * math.pi <= b[2] + tol for k in (-1, 0, 1))
        sim.check(inx and b[1] - tol <= lat <= b[3] + tol, "wrong-tile", lambda: f"{where} ({lon}, {lat}): {tuple(tile.id)} covers {b}")
        sim.event("loc", tuple(tile.id), sched.me())
        if o["spoil"]:
            spoil(tile)
        note("loc", min(z, 3), lat != c.latitude)

    def tile(o):
        t, z = o["t"], o["z"]
        ident = MapTileId(tile_matrix=z, tile_row=o["row"], tile_col=o["col"])
        where = f"{plan['sets'][t]}, tile {tuple(ident)}"
        a = sets[t].get_tile(ident)
        check_tile(t, tuple(ident), a, where)
        for dz, k in ((1, 2),):
            # the children of a tile cover it exactly
            kids = [sets[t].get_tile(MapTileId(tile_matrix=z + dz, tile_row=2 * ident.tile_row + r, tile_col=2 * ident.tile_col + c)) for r in range(k) for c in range(k)]
            for q in kids:
                check_tile(t, tuple(q.id), q, where + ", child")
        b = bounds_of(*ident)
        mid = GeodeticWorldCoordinate([(b[0] + b[2]) / 2, (b[1] + b[3]) / 2, 0.0])
        got = sets[t].get_tile_for_location(mid, z)
        sim.check(tuple(got.id) == tuple(ident), "tile-lookup", lambda: f"{where}: its center belongs to {tuple(got.id)}")
        sim.event("tile", tuple(ident), sched.me())
        if o["spoil"]:
            spoil(a)
            spoil(got)
        note("tile", min(z, 3))

    def limits(o):
        t, z = o["t"], o["z"]
        pts = [coordinate(p) for p in o["pts"]]
        where = f"{plan['sets'][t]}, area {o['pts']}, tile matrix {z}"
        got = sets[t].get_tile_matrix_limits_for_area(pts, z)
        n = 2 ** z
        cols, rows = [], []
        for p in pts:
            # fractional position of each corner; next to a border either tile is right
            x = (p.longitude / (2 * math.pi) + 0.5) % 1.0 * n if not -math.pi <= p.longitude <= math.pi else (p.longitude / (2 * math.pi) + 0.5) * n
            y = (math.asinh(math.tan(max(-LIMIT, min(LIMIT, p.latitude)))) / (2 * math.pi) + 0.5) * n
            e = 1e-11 * n + 1e-9

            def both(v):
                return {min(n - 1, max(0, math.floor(v - e))), min(n - 1, max(0, math.floor(v + e)))}
            # 180 degrees east and west are the same meridian
            cols.append(both(x) | ({0, n - 1} if abs(abs(p.longitude) - math.pi) < 1e-9 else set()))
            rows.append(both(y))
        ok = all(any(min(s) <= got[k] for s in q) and got[k] in set().union(*q) for k, q in ((0, cols), (1, rows), (2, cols), (3, rows)))
        ok = ok and got[0] <= min(max(s) for s in cols) and got[1] <= min(max(s) for s in rows)
        ok = ok and got[2] >= max(min(s) for s in cols) and got[3] >= max(min(s) for s in rows)
        ok = ok and got[0] >= min(min(s) for s in cols) and got[2] <= max(max(s) for s in cols)
        ok = ok and got[1] >= min(min(s) for s in rows) and got[3] <= max(max(s) for s in rows)
        sim.check(ok, "area-limits", lambda: f"{where}: {got}, the points are in columns {cols} and rows {rows}")
        sim.event("limits", tuple(int(v) for v in got), sched.me())
        note("limits", min(z, 3), len(pts))

    def dms(deg, text_d, text_m, text_s, where):
        d, m, s = int(text_d), int(text_m), int(text_s)
        sim.check(0 <= m < 60 and 0 <= s < 60, "dms-field", lambda: f"{where}: {text_d} {text_m} {text_s}")
        total = d * 3600 + m * 60 + s
        true = abs(deg) * 3600
        sim.check(-1e-4 < true - total < 1, "dms-value", lambda: f"{where}: {text_d} {text_m} {text_s} is {total} seconds instead of {true}")

    def hemisphere(deg, text, names, where):
        ok = text == (names[1] if deg < 0 else names[0]) or (abs(deg) < 1 / 3600 and text in names)
        sim.check(ok, "hemisphere", lambda: f"{where}: {text!r}")

    def fmt(o):
        c = coordinate(o["at"], o["h"])
        lon, lat = math.degrees(c.longitude), math.degrees(c.latitude)
        if o["dms"]:
            s = c.to_dms_string()
            where = f"location {o['at']} as {s!r}"
            sim.check(len(s) == 15, "dms-length", where)
            dms(lat, s[0:2], s[2:4], s[4:6], where)
            hemisphere(lat, s[6], "NS", where)
            dms(lon, s[7:10], s[10:12], s[12:14], where)
            hemisphere(lon, s[14], "EW", where)
            sim.check(f"{c:}" == f"{s[:7]} {s[7:]} {o['h']}" and str.format("{}", c) == f"{c:}", "default-format", lambda: f"{where} and {c:}")
            # what was written is read back as the same string
            q = GeodeticWorldCoordinate([math.radians((int(s[7:10]) * 3600 + int(s[10:12]) * 60 + int(s[12:14])) / 3600 * (1 if s[14] == "E" else -1)),
                                         math.radians((int(s[0:2]) * 3600 + int(s[2:4]) * 60 + int(s[4:6])) / 3600 * (1 if s[6] == "N" else -1)), 0.0])
            u = q.to_dms_string()
            ok = u == s or (u[:6] + u[7:14] == s[:6] + s[7:14] and ("000000" in (s[:6], s[8:14])))
            sim.check(ok, "dms-again", lambda: f"{where}: read back and written again as {u!r}")
        spec = "|".join(o["parts"])
        fields = f"{c:{spec}}".split("|")
        where = f"location {o['at']}, elevation {o['h']}, format {spec!r}: {'|'.join(fields)!r}"
        sim.check(len(fields) == len(o["parts"]), "format-fields", where)
        values = dict(zip(o["parts"], fields))
        for p, v in zip(o["parts"], fields):
            if p in ("%L", "%O"):
                sim.check(float(v) == (c.latitude if p == "%L" else c.longitude), "format-radians", where)
            elif p in ("%l", "%o"):
                sim.check(abs(abs(float(v)) - abs(lat if p == "%l" else lon)) < 1e-9, "format-degrees", where)
            elif p == "%E":
                sim.check(float(v) == o["h"], "format-elevation", where)
            elif p in ("%lh", "%lH"):
                hemisphere(lat, v, "ns" if p == "%lh" else "NS", where)
            elif p in ("%oh", "%oH"):
                hemisphere(lon, v, "ew" if p == "%oh" else "EW", where)
            elif p == "%%":
                sim.check(v == "%", "format-literal", where)
            elif p in ("%X", "%q"):
                sim.check(v == "", "format-unknown", where)
            elif not p.startswith("%"):
                sim.check(v == p, "format-literal", where)
            else:
                sim.check(v.isdigit() and len(v) == (3 if p == "%od" else 2), "format-width", where)
        d = f"{c:%ld|%lm|%ls|%od|%om|%os}".split("|")
        dms(lat, *d[:3], where)
        dms(lon, *d[3:], where)
        for p, v in zip(("%ld", "%lm", "%ls", "%od", "%om", "%os"), d):
            sim.check(values.get(p, v) == v, "format-disagrees", where)
        sim.probe("formats")
        sim.event("format", fields, sched.me())
        note("format", o["dms"])

    def ecef(o):
        c = coordinate(o["at"], o["h"])
        before = c.coordinate.copy()
        where = f"location {o['at']}, elevation {o['h']}"
        w = geodetic_to_geocentric(c)
        want = truth.ecef(c.longitude, c.latitude, o["h"])
        e = math.dist(w.coordinate, want)
        sim.check(e < 1e-5, "geocentric", lambda: f"{where}: {w} is {e} m from {want}")
        kept = w.coordinate.copy()
        g = geocentric_to_geodetic(w)
        back = truth.ecef(g.longitude, g.latitude, g.elevation)
        e = math.dist(back, want)
        sim.check(e < 1e-4 + 2e-8 * abs(o["h"]) and -math.pi <= g.longitude <= math.pi and -math.pi / 2 <= g.latitude <= math.pi / 2, "geodetic", lambda: f"{where}: comes back as {g}, {e} m away")
        sim.check(np.array_equal(before, c.coordinate) and np.array_equal(kept, w.coordinate), "argument-altered", where)
        if o["spoil"]:
            # coordinates are values: changing one, or the array it was made from, changes no other
            a = np.array([c.longitude, c.latitude, o["h"]])
            p = GeodeticWorldCoordinate(a)
            a[:] = 7.0
            q = WorldCoordinate(p.coordinate)
            p.longitude, p.elevation = 1.0, -3.0
            sim.check(list(q.coordinate) == [c.longitude, c.latitude, o["h"]] and list(p.coordinate) == [1.0, c.latitude, -3.0], "coordinate-shared", lambda: f"{where}: {p}, {q}")
            # and an object that was changed is converted as what it is now
            c.longitude, c.latitude, c.elevation = c.latitude, -c.latitude / 2, 77.0
            want = truth.ecef(c.longitude, c.latitude, 77.0)
            v = geodetic_to_geocentric(c)
            sim.check(math.dist(v.coordinate, want) < 1e-5, "geocentric", lambda: f"{where}, then changed to {c}: {v} instead of {want}")
            w.x, w.y, w.z = want
            g = geocentric_to_geodetic(w)
            sim.check(math.dist(truth.ecef(g.longitude, g.latitude, g.elevation), want) < 1e-4, "geodetic", lambda: f"{where}: {w} was changed, comes back as {g}")
            w.x = 0.0
            d = WorldCoordinate()
            d.x = 5.0
            sim.check(list(WorldCoordinate().coordinate) == [0.0, 0.0, 0.0], "coordinate-shared", "default coordinate")
            sim.probe("spoiled")
        sim.probe("conversions")
        sim.event("ecef", sched.me())
        note("ecef", o["spoil"])

    def the_set(o):
        if o["how"] == "id":
            s = MapTileSetFactory.get_for_id(plan["sets"][o["t"]])
            sim.check(s is not None and s.tile_matrix_set_id == plan["sets"][o["t"]], "tile-set", plan["sets"][o["t"]])
            sets[o["t"]] = s
        else:
            sim.check(MapTileSetFactory.get_for_id("WorldCRS84Quad?") is None, "tile-set", "unknown id")
        note("set", o["how"])

    kinds = {"loc": loc, "tile": tile, "limits": limits, "format": fmt, "ecef": ecef, "set": the_set}

    def step(o):
        if "fail" in o:
            countdown[0] = o["fail"]
            try:
                kinds[o["op"]](o)
            except ProjectionFailure:
                sim.event("failed", o["op"])
                note("failed", o["op"])
            finally:
                countdown[0] = None
        if o.get("line") is not None and sched.me() is None:
            f = sched.LineFault(o["line"], MemoryError("simulated allocation failure"))
            try:
                with f:
                    kinds[o["op"]](o)
            except MemoryError:
                sim.fault("line:mem")
                sim.event("failed", o["op"])
                note("failed", o["op"])
        for _ in range(2 if o["again"] else 1):
            kinds[o["op"]](o)

    pyproj.Transformer.transform = transform
    try:
        for o in plan["pre"]:
            step(o)
        ths = [t for t in plan["threads"] if t]
        if ths:
            sim.threads([(lambda t=t: [step(o) for o in t]) for t in ths], plan["sched"])
            sim.probe("shared")
        for o in plan["post"]:
            step(o)
        if plan.get("finding"):
            c = coordinate([-71.5, -33.25])
            sim.check([float(v) for v in f"{c:%l %o}".split()] == [-33.25, -71.5] or abs(sum(map(float, f"{c:%l %o}".split())) + 104.75) < 1e-9,
                      "unsigned-decimal-degrees", lambda: f"location -33.25, -71.5 in decimal degrees: {c:%l %o}")
    finally:
        pyproj.Transformer.transform = real


def nontrivial(s):
    p = s["probes"]
    return p.get("tiles", 0) + p.get("conversions", 0) > 0 and (p.get("shared", 0) > 0 or p.get("spoiled", 0) > 0 or bool(s["faults"]))
