"""C07: geolocating features can be retried and never harms the features."""
import copy
import json
import math
import sys

RUNS = {"quick": 450, "thorough": 12000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated job: lists of features geolocated by one or several workers that share a sensor model, an elevation "
        "model and a geolocator, with failures of the models or crashes at chosen points and retries; non-trivial if at least one location was "
        "checked and a failure, a crash, a repeat or a concurrent worker occurred; distinct by the digest of the event trace")
REAL = ["Geolocator", "LocationGridInterpolator", "ImagedFeaturePropertyAccessor", "all sensor models", "SensorModelFactory and builders",
        "DigitalElevationModel", "ConstantElevationModel"]
STUBS = ["analytic terrain implementing ElevationModel, able to fail at a chosen call", "tile factory producing elevation tiles on demand",
         "a sensor model decorator that fails at a chosen call"]
ASSUMPTIONS = ["locations may differ from the direct conversion by half a pixel plus the 1e-6 degree rounding of GeoJSON geometries",
               "features lie within a few hundred pixels of each other"]
STATE_MEASURE = "sensor model kind, elevation model type, feature type and outcome of each attempt"
ADDED = ("center_longitude", "center_latitude")


# ---------------------------------------------------------------------------------------------------------- features
def gen_feature(rng, cx, cy, s, i):
    def pt(r=1.0):
        return [round(cx + rng.uniform(-s, s) * r, rng.choice([0, 2])), round(cy + rng.uniform(-s, s) * r, rng.choice([0, 2]))]

    def ring(c, a, b):
        return [[c[0] - a, c[1] - b], [c[0] + a, c[1] - b], [c[0] + a, c[1] + b], [c[0] - a, c[1] + b * 0.5], [c[0] - a, c[1] - b]]

    def poly():
        c = pt(0.5)
        a, b = rng.uniform(1, max(2.0, s / 2)), rng.uniform(1, max(2.0, s / 2))
        r = [ring(c, a, b)]
        if rng.random() < 0.3:
            r.append(ring(c, a * 0.3, b * 0.3))
        return r

    def line():
        return [pt() for _ in range(rng.choice([2, 3, 5]))]

    def geom(depth=0):
        t = rng.choice(["Point", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon"] + ([] if depth else ["GeometryCollection"]))
        if t == "GeometryCollection":
            return {"type": t, "geometries": [geom(1) for _ in range(rng.choice([1, 2]))]}
        return {"type": t, "coordinates": {"Point": pt, "LineString": line, "Polygon": poly, "MultiPoint": lambda: [pt() for _ in range(rng.choice([1, 3]))],
                                           "MultiLineString": lambda: [line() for _ in range(rng.choice([1, 2]))],
                                           "MultiPolygon": lambda: [poly() for _ in range(rng.choice([1, 2]))]}[t]()}

    def box():
        c = pt()
        a, b = rng.choice([0.5, 4, s]), rng.choice([1.0, 6, s])
        return [c[0] - a, c[1] - b, c[0] + a, c[1] + b]

    p = {}
    k = rng.choice(["geom", "geom", "geom", "bbox", "both", "geom_imcoords", "detection", "bounds_imcoords", "mixed", "none"])
    if k in ("geom", "both"):
        p["imageGeometry"] = geom()
    if k in ("bbox", "both"):
        p["imageBBox"] = box()
    if k in ("geom_imcoords", "mixed"):
        p["geom_imcoords"] = poly()[0]
    if k in ("detection", "mixed"):
        g = geom(1)
        p["detection"] = {"type": g["type"], "pixelCoordinates": g["coordinates"], "score": 0.5}
    if k == "bounds_imcoords":
        p["bounds_imcoords"] = box()
    if k == "mixed" and rng.random() < 0.5:
        p["imageGeometry"] = geom()
    if rng.random() < 0.6:
        p["featureClasses"] = [{"iri": "x", "score": rng.random(), "nested": {"a": [1, 2, [3]]}}]
        p["image_id"] = f"image-{i}"
    if rng.random() < 0.2:
        p["center_longitude"], p["center_latitude"] = 1.0, 2.0
    f = {"type": "Feature", "geometry": None, "properties": p}
    if rng.random() < 0.2:
        f["geometry"] = {"type": "Point", "coordinates": [0.0, 0.0]}
    if rng.random() < 0.4:
        f["id"] = f"f{i}"
    if rng.random() < 0.2:
        f["note"] = {"foreign": ["member", i]}
    return f


def gen_worker(rng, W, H, thr, area=None):
    cx, cy = rng.uniform(0.15, 0.85) * W, rng.uniform(0.15, 0.85) * H
    s = min(rng.choice([0.5, 5.0, 40.0, 150.0]), W * 0.12, H * 0.12)
    if area:
        cx, cy, s = area
    n = rng.choice([1, 1, 2, 3, 6])
    w = {"features": [gen_feature(rng, cx, cy, s, i) for i in range(n)], "attempts": []}
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if not thr else rng.choice([0, 0, 1])):
        a = {"at": rng.choice(["sensor", "dem", "line"] if not thr else ["sensor", "dem"])}
        a["n"] = rng.choice([0, 1, 5, 24, 40, 60, 100, 121, 122, 123, 125, 130, 140]) if a["at"] != "line" else rng.choice([3, 10, 30, 60, 100, 150, 200, 300, 500, 1000])
        a["n"] += rng.randrange(0, 3)
        if rng.random() < 0.4:
            a["stored"] = True     # the retry starts from what the failed worker had written to its queue
        w["attempts"].append(a)
    w["again"] = rng.random() < 0.5
    return w


def gen(rng, tier, index):
    from .. import smworld as S
    heavy = rng.random() < 0.3
    model = S.gen_model(rng, None if heavy else ["gt", "gt4326", "gtutm", "gtsite", "gtsouth", "gtrot", "gtdate", "gtdate", "rpc", "rpcchip", "rsm", "rsmsec", "rsm2pi", "sidd"])
    dem = S.gen_dem(rng)
    W, H = S.DIMS[model["kind"]]
    thr = rng.random() < 0.35
    related = rng.random() < 0.35
    plan = {"model": model, "dem": dem, "deprecated": rng.random() < 0.85, "grid": rng.choice([11, 11, 5, 3, 4]) if not heavy else rng.choice([3, 4, 5]),
            "ops": [gen_worker(rng, W, H, False) for _ in range(rng.choice([1, 1, 2, 3]))] if not thr else
            [gen_worker(rng, W, H, False) for _ in range(rng.choice([0, 1]))],
            "threads": [gen_worker(rng, W, H, True) for _ in range(rng.choice([2, 2, 3]))] if thr else []}
    if related and not (thr and heavy):
        # batches of one area: their bounds have a corner or an edge in common but not the extent
        s = min(rng.choice([5.0, 40.0]), W * 0.05, H * 0.05)
        cx, cy = rng.uniform(0.25, 0.75) * W, rng.uniform(0.25, 0.75) * H
        side = rng.choice([(-1, -1), (-1, -1), (1, 1), (-1, 1), (1, -1)])
        group = plan["ops"] + plan["threads"] if thr else plan["ops"]
        if not thr and len(group) < 2:
            group += [gen_worker(rng, W, H, False) for _ in range(rng.choice([1, 2]))]
        for i, w in enumerate(group):
            n = gen_worker(rng, W, H, thr, (cx, cy, s))
            w["features"] = n["features"][:3]
            far = rng.choice([0.0, 3.0, 3.0, 4.5])
            for x, y in [side] + [(-side[0] * far / 3, -side[1] * rng.choice([far, 3.0]) / 3)] * bool(far):
                w["features"].append({"type": "Feature", "geometry": None, "properties": {
                    "imageGeometry": {"type": "Point", "coordinates": [round(cx + 3 * s * x, 2), round(cy + 3 * s * y, 2)]}}})
    if thr and not model["kind"].startswith("gt"):
        plan["grid"] = rng.choice([2, 2, 3])     # conversions with iterative models take very many scheduling points
        for w in plan["threads"]:
            w["features"] = w["features"][-3:]
            w["attempts"] = w["attempts"][:1] if rng.random() < 0.3 else []
            w["again"] = False
            for a in w["attempts"]:
                a["n"] = rng.randrange(0, 12)
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.005, 0.03, 0.2]),
                     "d": rng.choice([2, 4]), "span": rng.choice([500, 4000]), "opcode": False}
    return plan


def warm(plan):
    from .. import smworld as S
    S.metadata({k: v for k, v in plan["model"].items() if k in ("kind", "ver")})


# ------------------------------------------------------------------------------------------------------- system side
class SimCrash(BaseException):
    """The worker dies at this point."""


def build(plan, failing=True):
    from .. import smworld as S, sched
    from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
    from aws.osml.photogrammetry import SensorModel
    inner = S.build(plan["model"])
    dem = S.elevation_model(plan["dem"])

    class Failing(SensorModel):
        def __init__(self):
            super().__init__()
            self.left = {}
            self.calls = 0

        def _call(self):
            self.calls += 1
            sched.seam_point()
            me = sched.me()
            n = self.left.get(me)
            if n is not None:
                if n == 0:
                    self.left.pop(me)
                    raise S.FAILURES[self.calls % len(S.FAILURES)]("simulated sensor model failure")
                self.left[me] = n - 1

        def image_to_world(self, image_coordinate, elevation_model=None, options=None):
            self._call()
            if options is None:
                return inner.image_to_world(image_coordinate, elevation_model=elevation_model)
            return inner.image_to_world(image_coordinate, elevation_model=elevation_model, options=options)

        def world_to_image(self, world_coordinate):
            self._call()
            return inner.world_to_image(world_coordinate)

    sm = Failing() if failing else inner
    g = Geolocator(ImagedFeaturePropertyAccessor(plan["deprecated"]), sm, dem, plan["grid"])
    return g, sm, dem, inner


def load(features):
    import geojson
    return [geojson.loads(json.dumps(f)) for f in features]


def plain(features):
    return json.loads(json.dumps(features))


def ref(spec):
    import contextlib
    import io
    if spec["what"] == "locate":
        g, sm, dem, inner = build(spec["plan"], failing=False)
        fs = load(spec["features"])
        with contextlib.redirect_stdout(io.StringIO()):
            g.geolocate_features(fs)
        return plain(fs)
    # direct conversion of single pixels
    from aws.osml.photogrammetry import ImageCoordinate
    _, _, dem, inner = build(spec["plan"], failing=False)
    out = []
    for p in spec["points"]:
        r = []
        for dx, dy in ((0, 0), (20, 0), (0, 20)):
            c = inner.image_to_world(ImageCoordinate([p[0] + dx, p[1] + dy]), elevation_model=dem)
            r.append([math.degrees(c.longitude), math.degrees(c.latitude), float(c.elevation)])
        out.append(r)
    return out


# ------------------------------------------------------------------------------------------------------------ oracle
def close(a, b, t=1e-9):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], t) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, t) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= t * max(1.0, abs(b))
    return a == b


def source_part(f):
    """The feature without what geolocation adds."""
    g = {k: v for k, v in f.items() if k not in ("geometry", "bbox")}
    if isinstance(g.get("properties"), dict):
        g["properties"] = {k: v for k, v in g["properties"].items() if k not in ADDED}
    return g


def image_geometry(p, deprecated):
    """Independent reading of the image-space properties: (geometry dict or None, bbox or None)."""
    bbox = p.get("imageBBox")
    g = p.get("imageGeometry")
    if g is None and bbox is None and deprecated:
        if "geom_imcoords" in p:
            r = [list(c) for c in p["geom_imcoords"]]
            g = {"type": "Polygon", "coordinates": [r]}
        elif "detection" in p and "pixelCoordinates" in p["detection"]:
            g = {"type": p["detection"]["type"], "coordinates": p["detection"]["pixelCoordinates"]}
        elif "bounds_imcoords" in p:
            b = p["bounds_imcoords"]
            g = {"type": "Polygon", "coordinates": [[[b[2], b[1]], [b[2], b[3]], [b[0], b[3]], [b[0], b[1]], [b[2], b[1]]]], "any": True}
    return g, bbox


def pairs(g, w):
    """Corresponding (image, world) vertices of two geometries of equal structure; None if they differ."""
    if not isinstance(w, dict) or g["type"] != w.get("type"):
        return None
    if g["type"] == "GeometryCollection":
        if len(g["geometries"]) != len(w.get("geometries", [])):
            return None
        out = []
        for a, b in zip(g["geometries"], w["geometries"]):
            r = pairs(a, b)
            if r is None:
                return None
            out += r
        return out

    def walk(a, b):
        if not isinstance(b, list):
            return None
        if a and not isinstance(a[0], list):
            return [(a, b)] if len(b) in (2, 3) and not isinstance(b[0], list) else None
        if len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            r = walk(x, y)
            if r is None:
                return None
            out += r
        return out
    return walk(g["coordinates"], w.get("coordinates"))


def centroid(g):
    import shapely.geometry
    c = shapely.geometry.shape({k: v for k, v in g.items() if k != "any"}).centroid
    return [c.x, c.y]


def verify_locations(sim, plan, orig, got, who):
    """Every added location agrees with a direct conversion (a sample of the vertices)."""
    from .. import smworld as S
    want = []          # (image point, lon, lat, elevation or None, digits, what)
    boxes = []
    for f, r in zip(orig, got):
        g, bbox = image_geometry(f["properties"], plan["deprecated"])
        if g is None and bbox is None:
            sim.check(r == plain(f), "feature-without-location-changed", lambda: f"{who}: {f} became {r}")
            continue
        if g is not None and not g.get("any"):
            pp = pairs(g, r.get("geometry"))
            sim.check(pp is not None, "wrong-geometry", lambda: f"{who}: {f['properties']} gave geometry {r.get('geometry')}")
            step = max(1, len(pp) // 3)
            for a, b in pp[::step][:3]:
                want.append((a, b[0], b[1], b[2] if len(b) > 2 else None, 6e-7, "geometry"))
        elif g is not None:
            w = r.get("geometry")
            sim.check(isinstance(w, dict) and w.get("type") == "Polygon", "wrong-geometry", lambda: f"{who}: {f['properties']} gave {w}")
            boxes.append((f["properties"]["bounds_imcoords"], bounds(w["coordinates"][0]), 6e-7, "geometry of deprecated bounds"))
        elif bbox is not None:
            sim.check(close(r.get("geometry"), f.get("geometry")), "wrong-geometry", lambda: f"{who}: box-only feature got geometry {r.get('geometry')}")
        if bbox is not None:
            sim.check(isinstance(r.get("bbox"), list) and len(r["bbox"]) == 4, "wrong-bbox", lambda: f"{who}: {r.get('bbox')}")
            boxes.append((bbox, r["bbox"], 1e-9, "bbox"))
        c = centroid(g) if g is not None else [(bbox[0] + bbox[2]) / 2, (bbox[1] + bbox[3]) / 2]
        p = r["properties"]
        sim.check("center_longitude" in p and "center_latitude" in p, "no-center", lambda: f"{who}: {p}")
        want.append((c, p["center_longitude"], p["center_latitude"], None, 1e-9, "center"))
    if len(want) > 6:
        want = want[:3] + want[-3:]
    boxes = boxes[:2]
    pts = [list(map(float, w[0][:2])) for w in want]
    for b, _, _, _ in boxes:
        pts += [[b[0], b[1]], [b[0], b[3]], [b[2], b[3]], [b[2], b[1]]]
    if not pts or plan["model"]["kind"].startswith("rsm"):
        return      # replacement sensor models clamp to their ground domain: they are not smooth between grid points near its edges
    key = {k: plan[k] for k in ("model", "dem", "deprecated", "grid")}
    direct = sim.ref({"what": "direct", "plan": key, "points": pts})

    def scale(d):
        return 0.5 * max(turn(d[i][j] - d[0][j]) for i in (1, 2) for j in (0, 1)) / 20

    for (a, lon, lat, ele, tol, what), d in zip(want, direct):
        t = tol + scale(d)
        sim.check(abs(lon) <= 180 and turn(lon - d[0][0]) <= t and abs(lat - d[0][1]) <= t, "wrong-location",
                  lambda: f"{who} {plan['model']} {plan['dem']}: {what} at pixel {a} is [{lon}, {lat}], direct conversion gives {d[0]} (tolerance {t})")
        if ele is not None:
            e = S.terrain_value(plan["dem"], lon, lat) if plan["dem"] and plan["dem"]["type"] != "const" else plan["dem"]["base"] if plan["dem"] else d[0][2]
            sim.check(abs(ele - e) <= (0.5 if plan["dem"] else 1.0), "wrong-elevation",
                      lambda: f"{who} {plan['model']} {plan['dem']}: elevation {ele} at [{lon}, {lat}], expected {e}")
        sim.probe("locations-checked")
    i = len(want)
    for b, w, tol, what in boxes:
        c = direct[i:i + 4]
        i += 4
        e = bounds([d[0] for d in c])
        t = tol + max(scale(d) for d in c)
        sim.check(all(turn(x - y) <= t for x, y in zip(w, e)), "wrong-bbox", lambda: f"{who} {plan['model']}: {what} of box {b} is {w}, expected {e} (tolerance {t})")
        sim.probe("boxes-checked")


def bounds(cs):
    b = [min(c[0] for c in cs), min(c[1] for c in cs), max(c[0] for c in cs), max(c[1] for c in cs)]
    if b[2] - b[0] > 180:       # RFC 7946, section 5.2: the box begins at its western edge
        b[0], b[2] = min(c[0] for c in cs if c[0] > 0), max(c[0] for c in cs if c[0] < 0)
    return b


def turn(d):
    """Size of a difference of two longitudes (or latitudes)."""
    return abs((d + 180) % 360 - 180)


class crash_at:
    """Raises SimCrash at the n-th line executed in the feature code."""

    def __init__(self, n):
        self.n = n
        self.fired = False

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired:
            if self.n <= 0:
                self.fired = True
                raise SimCrash()
            self.n -= 1
        return self._local

    def _global(self, frame, event, arg):
        if "/aws/osml/features/" in frame.f_code.co_filename:
            return self._local
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def run(plan, sim):
    import contextlib
    import io
    from .. import smworld as S, sched
    g, sm, dem, _ = build(plan)
    key = {k: plan[k] for k in ("model", "dem", "deprecated", "grid")}

    def work(w, wi):
        if not w["features"]:
            return
        orig = plain(load(w["features"]))
        who = f"worker {wi}"
        fs = load(orig)
        want = sim.ref({"what": "locate", "plan": key, "features": orig})

        def intact(when):
            now = plain(fs)
            sim.check(len(now) == len(orig), "features-lost", lambda: f"{who} {when}")
            for a, b in zip(orig, now):
                x, y = source_part(a), source_part(b)
                sim.check(x == y, "feature-damaged", lambda: f"{who} {when}: {x} became {y}")

        for a in w.get("attempts", []):
            outcome = "done"
            if a["at"] == "sensor":
                sm.left[sched.me()] = a["n"]
            elif a["at"] == "dem":
                S.fail_after(dem, a["n"])
            try:
                if a["at"] == "line":
                    with crash_at(a["n"]):
                        g.geolocate_features(fs)
                else:
                    g.geolocate_features(fs)
            except S.SimFailure:
                outcome = "failed"
                sim.fault(a["at"] + "-model:raise")
            except SimCrash:
                outcome = "crashed"
                sim.fault("worker:crash")
            sm.left.pop(sched.me(), None)
            if dem is not None:
                S.fail_after(dem, None)
            sim.event("attempt", wi, a, outcome)
            sim.state((plan["model"]["kind"], (plan["dem"] or {}).get("type"), [sorted(f["properties"]) for f in orig], outcome))
            intact(f"after an attempt that {outcome}")
            if outcome != "done":
                sim.probe("failed-attempts")
            else:
                now = plain(fs)
                sim.check(close(now, want), "incomplete-success",
                          lambda: f"{who} {plan['model']} {plan['dem']} attempt {a} reported success: {json.dumps(now)[:700]} instead of {json.dumps(want)[:700]}")
            if a.get("stored"):
                fs = load(plain(fs))
        g.geolocate_features(fs)
        intact("after success")
        got = plain(fs)
        sim.event("done", wi, json.dumps(got)[:200])
        sim.check(close(got, want), "result-differs-after-failures" if w.get("attempts") else "result-differs",
                  lambda: f"{who} {plan['model']} {plan['dem']} attempts {w.get('attempts')}: {json.dumps(got)[:700]} instead of {json.dumps(want)[:700]}")
        if w.get("again"):
            g.geolocate_features(fs)
            again = plain(fs)
            intact("after a repeat")
            sim.check(close(again, want), "repeat-changes-result", lambda: f"{who}: {json.dumps(again)[:700]} instead of {json.dumps(want)[:700]}")
            sim.probe("repeats")
        verify_locations(sim, plan, orig, got, who)

    with contextlib.redirect_stdout(io.StringIO()):
        for i, w in enumerate(plan["ops"]):
            work(w, i)
        if plan["threads"]:
            sim.threads([(lambda w=w, i=i: work(w, 100 + i)) for i, w in enumerate(plan["threads"])], plan["sched"])


def nontrivial(s):
    p = s["probes"]
    return p.get("locations-checked", 0) > 0 and (p.get("failed-attempts", 0) + p.get("repeats", 0) + p.get("thread-runs", 0)) > 0
