"""C14: feature indexes return exactly the matching features."""
import contextlib
import copy
import json

from .. import inject

RUNS = {"quick": 1800, "thorough": 40000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of index construction (with failing property accessors), queries, updates of features and changes of the "
        "collection by its owner, sequential and in parallel threads; non-trivial if a query returned a feature and the collection changed, an accessor "
        "failed or threads shared an index; distinct by the digest of the event trace")
REAL = ["STRFeature2DSpatialIndex", "ImagedFeaturePropertyAccessor", "shapely's STRtree"]
STUBS = ["a property accessor that fails at a chosen call"]
ASSUMPTIONS = ["shapely's geometric predicates and distances are trusted; features at exactly the distance limit are not judged",
               "an index describes the features of the collection at the time it was made"]
STATE_MEASURE = "source of the geometries, kinds of the last two operations and number of matches"


def gen_geom(rng, s=100.0, kinds=("Point", "LineString", "Polygon", "MultiPolygon", "MultiPoint")):
    def pt():
        return [round(rng.uniform(0, s), rng.choice([0, 1])), round(rng.uniform(0, s), rng.choice([0, 1]))]

    def poly(dx=0.0):
        x, y = pt()
        x += dx
        a, b = rng.choice([2.0, 10.0, 30.0]), rng.choice([1.0, 10.0, 25.0])
        r = [[[x, y], [x + a, y], [x + a, y + b], [x, y + b / 2], [x, y]]]
        if rng.random() < 0.3:
            r.append([[x + a * u, y + b * v] for u, v in ((0.3, 0.2), (0.6, 0.2), (0.6, 0.4), (0.3, 0.2))])
        return r
    t = rng.choice(kinds)
    return {"type": t, "coordinates": {"Point": pt, "LineString": lambda: [pt() for _ in range(rng.choice([2, 3]))], "Polygon": poly,
                                       "MultiPolygon": lambda: [poly(), poly(150.0)], "MultiPoint": lambda: [pt() for _ in range(3)]}[t]()}


def gen_feature(rng, i):
    p = {"n": i}
    k = rng.choice(["geom", "geom", "geom", "bbox", "both", "geom_imcoords", "detection", "bounds", "mixed", "none"])

    def box():
        x, y = rng.uniform(0, 100), rng.uniform(0, 100)
        return [round(x), round(y), round(x) + rng.choice([1, 5, 40]), round(y) + rng.choice([1, 5, 40])]
    if k in ("geom", "both"):
        p["imageGeometry"] = gen_geom(rng)
    if k in ("bbox", "both"):
        p["imageBBox"] = box()
    if k in ("geom_imcoords", "mixed"):
        p["geom_imcoords"] = gen_geom(rng, kinds=("Polygon",))["coordinates"][0]
    if k in ("detection", "mixed"):
        g = gen_geom(rng)
        p["detection"] = {"type": g["type"], "pixelCoordinates": g["coordinates"], "score": 0.5}
    if k in ("bounds", "mixed"):
        p["bounds_imcoords"] = box()
    if rng.random() < 0.2:
        p["other"] = {"text": "x"}
    return {"type": "Feature", "geometry": gen_geom(rng, 3.0) if rng.random() < 0.85 else None, "properties": p}


def gen_op(rng, nidx, nfeat, shared):
    r = rng.random()
    i = rng.randrange(nidx)
    if r < 0.62:
        o = {"op": rng.choice(["intersects", "intersects", "nearest"]), "i": i, "g": gen_geom(rng, rng.choice([100.0, 3.0]))}
        if o["op"] == "nearest":
            o["max"] = rng.choice([None, None, 3.0, 20.0, 500.0])
        o["again"] = rng.random() < 0.3
        o["clear"] = rng.random() < 0.3
        return o
    if r < 0.8:
        return {"op": "change", "how": rng.choice(["append", "pop", "insert", "reverse", "clear", "swap", "replace"]), "f": gen_feature(rng, 1000 + rng.randrange(1000)),
                "at": rng.randrange(nfeat + 1)}
    if r < 0.9 and not shared:
        return {"op": "update", "at": rng.randrange(nfeat + 1), "g": gen_geom(rng, kinds=("Polygon",)), "dep": rng.random() < 0.7}
    return {"op": "build", "i": i, "image": rng.random() < 0.6, "dep": rng.random() < 0.7, "fail": rng.choice([None, None, None, 0, 2, 5])}


def gen(rng, tier, index):
    n = rng.choice([0, 1, 3, 8, 25])
    k = rng.choice([1, 1, 2])
    plan = {"features": [gen_feature(rng, i) for i in range(n)],
            "indexes": [{"op": "build", "i": i, "image": rng.random() < 0.6, "dep": rng.random() < 0.7, "fail": rng.choice([None, None, None, 0, 2])} for i in range(k)],
            "pre": [gen_op(rng, k, n, False) for _ in range(rng.choice([2, 5, 10]))], "threads": [], "post": []}
    if rng.random() < 0.5:
        plan["threads"] = [[gen_op(rng, k, n, True) for _ in range(rng.choice([2, 4]))] for _ in range(rng.choice([2, 3]))]
        plan["post"] = [gen_op(rng, k, n, False) for _ in range(rng.choice([0, 2]))]
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.05, 0.2, 0.5]),
                     "d": rng.choice([2, 4]), "span": rng.choice([50, 300]), "opcode": rng.random() < 0.3}
    for o in plan["indexes"] + [o for o in plan["pre"] + plan["post"] if o["op"] == "build"]:
        if rng.random() < 0.15:
            o["line"] = rng.choice(inject.LINES) if rng.random() < 0.5 else rng.randrange(200)
    return plan


def image_geometry(f, dep):
    """Independent statement of where the image geometry of a feature is found."""
    import shapely
    p = f["properties"]
    if "imageGeometry" in p:
        return shapely.geometry.shape(p["imageGeometry"])
    if "imageBBox" in p:
        return shapely.geometry.box(*p["imageBBox"])
    if dep and "geom_imcoords" in p:
        return shapely.geometry.Polygon(p["geom_imcoords"])
    if dep and "pixelCoordinates" in p.get("detection", {}):
        return shapely.geometry.shape({"type": p["detection"]["type"], "coordinates": p["detection"]["pixelCoordinates"]})
    if dep and "bounds_imcoords" in p:
        return shapely.geometry.box(*p["bounds_imcoords"])
    return None


class AccessorFailure(RuntimeError):
    pass


def run(plan, sim):
    import geojson
    import shapely
    from aws.osml.features import ImagedFeaturePropertyAccessor, STRFeature2DSpatialIndex
    from .. import sched
    fc = geojson.loads(json.dumps({"type": "FeatureCollection", "features": plan["features"]}))
    every = []              # all features ever in the collection, with what they looked like
    known = {}

    def know(f):
        if id(f) not in known:
            every.append(f)
            known[id(f)] = len(every) - 1
        return known[id(f)]

    text = {}
    for f in fc.features:
        text[know(f)] = json.dumps(f)
    indexes = {}

    class Failing(ImagedFeaturePropertyAccessor):
        def __init__(self, n, **kw):
            super().__init__(**kw)
            self.n = n

        def find_image_geometry(self, feature):
            if self.n == 0:
                raise AccessorFailure("simulated")
            self.n -= 1
            return super().find_image_geometry(feature)

    last = []

    def note(what):
        last.append(what)
        sim.state((last[-2:],))

    def build(o):
        feats = list(fc.features)
        for f in feats:
            know(f)
        kw = {"use_image_geometries": o["image"]}
        if o["fail"] is not None:
            kw["property_accessor"] = Failing(o["fail"], allow_deprecated=o["dep"])
        elif not o["dep"]:
            kw["property_accessor"] = ImagedFeaturePropertyAccessor(allow_deprecated=False)
        dep = o["dep"]
        at = o.get("line") if sched.me() is None else None
        while True:
            # another thread may change the collection meanwhile: the index describes one of the versions it had
            sched.seam_point()
            before = list(fc.features)
            stamp = versions[0]
            line = sched.LineFault(at, MemoryError("simulated allocation failure")) if at is not None else None
            at = None
            try:
                with line or contextlib.nullcontext():
                    ix = STRFeature2DSpatialIndex(fc, **kw)
            except (AccessorFailure, MemoryError):
                sim.fault("line:mem" if line else "accessor:raise")
                sim.event("build-failed", o["i"])
                kw["property_accessor"] = ImagedFeaturePropertyAccessor(allow_deprecated=dep)
                continue
            if stamp != versions[0]:
                kw.pop("property_accessor", None) if dep else None
                sim.event("build-raced", o["i"])
                return          # which version it describes is not judged, the index is dropped
            break
        if o["image"]:
            geoms = [image_geometry(f, dep) for f in before]
        else:
            geoms = [shapely.geometry.shape(f["geometry"]) if f["geometry"] else None for f in before]
        indexes[o["i"]] = (ix, before, geoms, o["image"])
        sim.event("build", o["i"], len(before), o["image"])
        note(("build", o["image"]))

    versions = [0]

    def query(o):
        if o["i"] not in indexes:
            return
        ix, feats, geoms, image = indexes[o["i"]]
        g = shapely.geometry.shape(o["g"])
        for _ in range(2 if o["again"] else 1):
            if o["op"] == "intersects":
                res = ix.find_intersects(g)
                want = [i for i, q in enumerate(geoms) if q is not None and not q.is_empty and q.intersects(g)]
                vague = set()
            else:
                res = ix.find_nearest(g, max_distance=o["max"]) if o["max"] is not None else ix.find_nearest(g)
                lim = o["max"] if o["max"] is not None else (50 if image else 1.0)
                d = {i: q.distance(g) for i, q in enumerate(geoms) if q is not None and not q.is_empty}
                m = min(d.values(), default=None)
                want = [i for i in d if m is not None and d[i] <= m and m < lim - 1e-9]
                vague = {i for i in d if abs(d[i] - m) <= 1e-9 or abs(m - lim) <= 1e-9} if m is not None else set()
                if m is not None and abs(m - lim) > 1e-9 and m < lim:
                    vague = {i for i in vague if abs(d[i] - m) <= 1e-9 and d[i] != m}
            res = list(res)
            where = f"index {o['i']} of {len(feats)} features ({'image' if image else 'geographic'} geometries), {o['op']} {json.dumps(o['g'])} {o.get('max')}"
            got = []
            for f in res:
                k = [i for i, q in enumerate(feats) if q is f]
                sim.check(len(k) >= 1, "foreign-feature", lambda: f"{where}: returned a feature that is not in the index: {json.dumps(f)[:200]}")
                got += k[:1]
            sim.check(len(set(got)) == len(got), "duplicate-feature", lambda: f"{where}: {got}")
            sim.check(set(want) - vague <= set(got) and set(got) <= set(want) | vague, "wrong-features", lambda: f"{where}: features {sorted(got)} instead of {want}")
            if got:
                sim.probe("matches", len(got))
            sim.event(o["op"], o["i"], sorted(got), sched.me())
            if o["clear"] and isinstance(res, list):
                res.clear()
        note((o["op"], image, min(len(got), 3)))

    def change(o):
        fs = fc.features
        f = geojson.loads(json.dumps(o["f"]))
        n = len(fs)
        h = o["how"]
        if h == "append":
            fs.append(f)
        elif h == "insert":
            fs.insert(min(o["at"], n), f)
        elif h == "pop" and n:
            fs.pop(o["at"] % n)
        elif h == "reverse":
            fs.reverse()
        elif h == "clear":
            fs.clear()
        elif h == "swap" and n > 1:
            a, b = o["at"] % n, (o["at"] + 1) % n
            fs[a], fs[b] = fs[b], fs[a]
        elif h == "replace" and n:
            fs[o["at"] % n] = f
        else:
            return
        versions[0] += 1
        for q in fs:
            k = know(q)
            text.setdefault(k, json.dumps(q))
        sim.probe("changes")
        sim.event("change", h)
        note(("change", h))

    def update(o):
        """The owner moves a feature: every property that holds its location does so afterwards, nothing else changes."""
        if not fc.features:
            return
        f = fc.features[o["at"] % len(fc.features)]
        acc = ImagedFeaturePropertyAccessor(allow_deprecated=o["dep"])
        g = shapely.geometry.shape(o["g"])
        old = copy.deepcopy(json.loads(json.dumps(f)))
        acc.update_existing_image_geometries(f, g)
        new = json.loads(json.dumps(f))
        sim.check(set(new["properties"]) == set(old["properties"]) and new["geometry"] == old["geometry"], "update-side-effect", lambda: f"{old} -> {new}")
        touched = ["imageGeometry", "imageBBox"] + (["geom_imcoords", "detection", "bounds_imcoords"] if o["dep"] else [])
        for k, v in new["properties"].items():
            if k not in touched:
                sim.check(v == old["properties"][k], "update-side-effect", lambda: f"{k} of {old} -> {new}")
                continue
            if k == "imageGeometry":
                ok = shapely.geometry.shape(v).equals(g)
            elif k in ("imageBBox", "bounds_imcoords"):
                ok = v == list(g.bounds)
            elif k == "geom_imcoords":
                ok = shapely.geometry.Polygon(v).equals(shapely.geometry.Polygon(g.exterior))
            else:
                ok = v.get("score") == 0.5 and shapely.geometry.shape({"type": v["type"], "coordinates": v["pixelCoordinates"]}).equals(g)
            sim.check(ok, "update-lost", lambda: f"{k} of {old} after moving to {o['g']}: {v}")
        want, got = image_geometry(new, o["dep"]), acc.find_image_geometry(f)
        sim.check((want is None) == (got is None) and (want is None or want.equals(got)), "image-geometry", lambda: f"{new}: {got} instead of {want}")
        text[know(f)] = json.dumps(f)
        sim.event("update", know(f))
        note(("update",))

    def unaltered():
        for i, f in enumerate(every):
            sim.check(json.dumps(f) == text[i], "feature-altered", lambda: f"{text[i]} -> {json.dumps(f)}")

    def step(o):
        {"build": build, "intersects": query, "nearest": query, "change": change, "update": update}[o["op"]](o)

    for o in plan["indexes"] + plan["pre"]:
        step(o)
        unaltered()
    ths = [t for t in plan["threads"] if t]
    if ths:
        sim.threads([(lambda t=t: [step(o) for o in t]) for t in ths], plan["sched"])
        unaltered()
        sim.probe("shared")
    for o in plan["post"]:
        step(o)
        unaltered()


def nontrivial(s):
    p = s["probes"]
    return p.get("matches", 0) > 0 and (p.get("changes", 0) > 0 or p.get("shared", 0) > 0 or bool(s["faults"]))
