"""C12: source imagery and elevation files are never modified."""
import json
import math
import os
import shutil
import tempfile

from .. import inject

RUNS = {"quick": 900, "thorough": 25000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of toolkit operations (opening, tiles, map tiles, elevation lookups, geolocation) over a set "
        "of image and elevation files with failing storage calls, damaged files and threads; all files are compared with what was put there "
        "during and after every operation; non-trivial if at least two kinds of operations ran and one of them failed, was repeated or ran "
        "concurrently; distinct by the digest of the event trace")
REAL = ["load_gdal_dataset", "GDALTileFactory", "GDALDigitalElevationModelTileFactory", "DigitalElevationModel", "Geolocator", "all sensor models",
        "SICDUpdater", "SIDDUpdater", "GDALConfigEnv", "GDAL drivers"]
STUBS = ["storage is GDAL's in-memory file system, in a third of the runs a scratch directory on disk", "random temporary names come from a seeded generator"]
ASSUMPTIONS = ["files next to a source whose name is the source's name followed by .aux.xml are GDAL's statistics side files"]
STATE_MEASURE = "the last three operations with their outcome, and the side files present"


def gen_op(rng, imgs, cfgs, tiles, thr):
    r = rng.random()
    o = {}
    if r < 0.12:
        o = {"op": "load", "i": rng.randrange(len(imgs)), "keep": rng.random() < 0.5}
    elif r < 0.18 and not thr:
        o = {"op": "close"}
    elif r < 0.5:
        from .. import tileworld as T
        f = rng.randrange(len(cfgs))
        img = cfgs[f]["img"]
        w = T.gen_bad_window(rng, img) if rng.random() < 0.2 else T.gen_window(rng, img)
        o = {"op": "tile", "f": f, "win": w, "out": T.gen_out(rng, w) if w[2] > 0 and w[3] > 0 else None}
    elif r < 0.65:
        a = rng.choice([0.2, 0.6, 1.0])
        o = {"op": "ortho", "f": rng.randrange(len(cfgs)), "box": [0.1, 0.1, a, a], "size": rng.choice([[16, 16], [9, 20]])}
    elif r < 0.85:
        t = rng.choice(tiles)
        o = {"op": rng.choice(["elev", "elev", "region"]), "lon": t["lon"] + round(rng.uniform(-0.3, 1.0), 3), "lat": t["lat"] + round(rng.uniform(0, 1), 3),
             "new": rng.random() < 0.4}
    elif r < 0.93:
        o = {"op": "geo", "f": rng.randrange(len(cfgs)), "dem": rng.random() < 0.5}
    else:
        o = {"op": "scope", "f": rng.randrange(len(cfgs)), "raise": rng.random() < 0.5}
    if rng.random() < 0.3:
        o["faults"] = [{"fn": rng.choice(["*", "*", "Open", "Translate", "Band.GetStatistics", "Band.ReadAsArray", "Band.GetHistogram", "VSIFOpenL", "VSIFReadL",
                                          "VSIStatL"]), "n": rng.randrange(0, 5), "kind": rng.choice(["err", "err", "after", "mem"])}
                       for _ in range(rng.choice([1, 1, 2]))]
    if not thr and o["op"] in ("tile", "ortho", "elev") and rng.random() < 0.15:
        o["interrupt"] = rng.randrange(0, 8)
    return o


def gen(rng, tier, index):
    from .. import tileworld as T
    imgs = [T.gen_image(rng) for _ in range(rng.choice([1, 2, 3]))]
    for m in imgs:
        if m["kind"] in ("gt", "gt4326", "tif") and m.get("dtype") == "u1" and rng.random() < 0.4:
            m["ovr"] = [2]
        m["damage"] = [[rng.choice(["flip"]), rng.randrange(1 << 16), 1 << rng.randrange(8)]] if rng.random() < 0.1 else \
            [["cut", rng.choice([100, 1000, 5000])]] if rng.random() < 0.08 else []
        if rng.random() < 0.25:
            m["note"] = True
        if m["kind"].startswith(("gt", "tif")) and "ovr" not in m and rng.random() < 0.4:
            m["ovrfile"] = True      # reduced resolution in a file beside the image
    cfgs = []
    for i, m in enumerate(imgs):
        c = T.gen_cfg(rng, {k: v for k, v in m.items() if k not in OWN})
        if c["ra"] == "NONE" and c["img"].get("dtype") not in ("u4", "i4") and not c["img"]["kind"].startswith("si") and rng.random() < 0.5:
            c["ra"] = rng.choice(["MINMAX", "DRA"])
        c["i"] = i
        cfgs.append(c)
    lon, lat = rng.choice([(10, 49), (-72, 42), (20, -30)])
    tiles = [{"lon": lon + d, "lat": lat, "n": rng.choice([3, 11]), "seed": rng.randrange(100), "dtype": rng.choice(["i2", "f4"]),
              "range": [0, 100], "state": rng.choice(["ok", "ok", "cut", "nogeo", "zap"])} for d in (0, 1)]
    thr = rng.random() < 0.25
    n = rng.choice([4, 8, 14])
    plan = {"imgs": imgs, "cfgs": cfgs, "tiles": tiles, "disk": rng.random() < 0.35, "exc": rng.random() < 0.5,
            "ops": [gen_op(rng, imgs, cfgs, tiles, False) for _ in range(n if not thr else 3)],
            "threads": [[gen_op(rng, imgs, cfgs, tiles, True) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3]))] if thr else []}
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.01, 0.05, 0.2]),
                     "d": rng.choice([2, 4]), "span": rng.choice([500, 4000]), "opcode": False}
    inject.add_line_faults(rng, plan["ops"], 0.1)
    return plan


def warm(plan):
    from .. import world
    for m in plan["imgs"]:
        world.image_bytes({k: v for k, v in m.items() if k not in OWN})
        if m.get("ovrfile"):
            world.image_bytes(half(m))


def half(m):
    return {"kind": "tif", "w": (m["w"] + 1) // 2, "h": (m["h"] + 1) // 2, "bands": m["bands"], "dtype": m["dtype"], "pseed": m["pseed"]}


OWN = ("damage", "note", "ovrfile")
NOTE = '<PAMDataset><Metadata><MDI key="NOTE">owner %d</MDI></Metadata></PAMDataset>'


def differ(a, b):
    """The parts of two descriptions (nested dictionaries, JSON) that differ."""
    if isinstance(a, str) and isinstance(b, str) and a[:1] == b[:1] == "{":
        a, b = json.loads(a), json.loads(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: differ(a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}
    return str(a)[:150], str(b)[:150]


def view(path):
    """Everything but pixels and statistics that an open image tells about itself."""
    from .. import world
    with world.bare():
        try:
            d = world.G("Open")(path)
        except RuntimeError:
            d = None
        if d is None:
            return None

        def md(x):
            r = {}
            for dom in sorted(set(x.GetMetadataDomainList() or []) | {""}):
                if dom == "DERIVED_SUBDATASETS":
                    continue
                m = x.GetMetadata(dom)
                if isinstance(m, dict):
                    m = {k: " ".join(str(v).split()) for k, v in m.items() if not k.startswith("STATISTICS_")}
                if m:
                    r[dom] = m
            return r
        out = {"size": [d.RasterXSize, d.RasterYSize, d.RasterCount], "gt": d.GetGeoTransform(can_return_null=True), "wkt": d.GetProjection(),
               "gcps": [[g.GCPX, g.GCPY, g.GCPZ, g.GCPPixel, g.GCPLine] for g in d.GetGCPs() or []], "gcpwkt": d.GetGCPProjection(), "md": md(d)}
        for i in range(d.RasterCount):
            n = d.GetRasterBand(i + 1)
            out[f"band{i}"] = [n.DataType, n.GetNoDataValue(), n.GetScale(), n.GetOffset(), n.GetUnitType(), n.GetColorInterpretation(), n.GetMaskFlags(),
                               n.GetDescription(), n.GetCategoryNames(), n.GetOverviewCount(), md(n)]
        d = n = None
        return json.dumps(out, sort_keys=True, default=str)


class Interrupt(BaseException):
    """The process is asked to stop in the middle of an operation."""


def run(plan, sim):
    root = tempfile.mkdtemp(prefix="sim-c12-", dir="/tmp") if plan["disk"] else "/vsimem/src"
    try:
        history(plan, sim, root)
    finally:
        if plan["disk"]:
            shutil.rmtree(root, ignore_errors=True)


def history(plan, sim, root):
    import contextlib
    import gc
    import io
    from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
    from aws.osml.gdal import GDALConfigEnv, load_gdal_dataset
    from aws.osml.gdal.gdal_dem_tile_factory import GDALDigitalElevationModelTileFactory
    from aws.osml.photogrammetry import DigitalElevationModel, GeodeticWorldCoordinate, ImageCoordinate, SRTMTileSet
    from .. import demworld, sched, tileworld as T, world
    world.use_exceptions(plan["exc"])
    files, notes = {}, {}

    def put(name, data, note=None):
        p = root + "/" + name
        if note is None:
            files[p] = bytes(data)
        else:
            notes[p] = note
        if plan["disk"]:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        else:
            world.put(p, data)
        return p

    def get(p):
        if plan["disk"]:
            try:
                with open(p, "rb") as f:
                    return f.read()
            except OSError:
                return None
        return world.get(p)

    def present():
        if plan["disk"]:
            return sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        return [p for p in world.listing(root) if not p.endswith("/")]

    paths = []
    for i, m in enumerate(plan["imgs"]):
        b = world.image_bytes({k: v for k, v in m.items() if k not in OWN})
        ext = ".tif" if m["kind"] in world.TIFF_KINDS else ".ntf"
        paths.append(put(f"img{i}/image{ext}", world.damage(b, m.get("damage", []))))
        put(f"img{i}/image.txt", b"not for the toolkit")
        if m.get("ovrfile"):
            put(f"img{i}/image{ext}.ovr", world.image_bytes(half(m)))
        if m.get("note"):
            put(f"img{i}/image{ext}.aux.xml", (NOTE % i).encode(), f"owner {i}")
    put("img0/tile", b"also not for the toolkit")
    for t in plan["tiles"]:
        t = dict(t)
        state = t.pop("state")
        b = world.dem_bytes(dict(t, nogeo=True) if state == "nogeo" else t)
        if state == "cut":
            b = demworld.cut_pixels(b)
        if state == "zap":
            b = b"\0\0\0\0" + b[4:]
        put("dem/" + demworld.name_of("srtm", t["lon"], t["lat"]), b)
        if t.get("seed", 0) % 4 == 0:
            put("dem/" + demworld.name_of("srtm", t["lon"], t["lat"]) + ".aux.xml", (NOTE % 99).encode(), "owner 99")
    kept, facs, dems = [], {}, {}
    views = {p: view(p) for p in files if not p.endswith((".txt", "/tile", ".ovr"))}
    seen = {p: get(p) for p in notes}

    def short(p):
        return p[len(root):]

    def verify(when):
        for p, want in files.items():
            now = get(p)
            if now != want:
                sim.check(False, "source-removed" if now is None else "source-modified",
                          lambda: f"{short(p)} {when}: {None if now is None else len(now)} bytes instead of {len(want)}")
        for p in present():
            sim.check(p in files or p in notes or (p.endswith(".aux.xml") and p[:-8] in files), "unexpected-file", lambda: f"{short(p)} appeared {when}")
            if p.endswith(".aux.xml"):
                now = get(p)
                if seen.get(p) != now and p[:-8] in views:
                    seen[p] = now
                    v = view(p[:-8])
                    sim.check(v == views[p[:-8]], "image-described-differently",
                              lambda: f"{short(p)} {when} changes what the image says about itself: {differ(views[p[:-8]], v)}")
                    sim.probe("side-files")
        for p in notes:
            sim.check(get(p) is not None, "side-file-removed", lambda: f"{short(p)} {when}")
        sim.probe("comparisons")

    bad = []

    def watch(name, j):
        """Runs before every GDAL call of an operation: the files must be intact in between as well."""
        with world.bare():
            for p, want in files.items():
                now = get(p)
                if now != want and not bad:
                    bad.append(f"{short(p)} before {name}: {None if now is None else len(now)} bytes instead of {len(want)}")

    def factory(me, f):
        if (me, f) not in facs:
            c = plan["cfgs"][f]
            facs[(me, f)] = T.open_factory(c, paths[c["i"]])
        return facs[(me, f)]

    def dem(me, new=False):
        if new or me not in dems:
            dems[me] = DigitalElevationModel(SRTMTileSet(), GDALDigitalElevationModelTileFactory(root + "/dem"), 2)
        return dems[me]

    last = []

    def do(o, me):
        k = o["op"]
        if k == "load":
            r = load_gdal_dataset(paths[o["i"]])
            if o["keep"]:
                kept.append(r)
            return "ok"
        if k == "close":
            kept.clear()
            facs.clear()
            dems.clear()
            gc.collect()
            return "ok"
        if k in ("elev", "region"):
            c = GeodeticWorldCoordinate([math.radians(o["lon"]), math.radians(o["lat"]), 1.0])
            d = dem(me, o["new"])
            d.set_elevation(c) if k == "elev" else d.describe_region(c)
            return "ok"
        cfg = plan["cfgs"][o["f"]]
        if k == "scope":
            with GDALConfigEnv({"GDAL_PAM_ENABLED": "YES"}):
                ds, sm = load_gdal_dataset(paths[cfg["i"]])
                if o["raise"]:
                    raise KeyError("simulated")
            return "ok"
        ds, sm, f = factory(me, o["f"])
        if k == "tile":
            r = f.create_encoded_tile(list(o["win"]), None if o["out"] is None else tuple(o["out"]))
            return "none" if r is None else "tile"
        if sm is None:
            return "no model"
        img = cfg["img"]
        if k == "ortho":
            cs = [sm.image_to_world(ImageCoordinate([fx * img["w"], fy * img["h"]])) for fx, fy in (o["box"][:2], o["box"][2:])]
            lo, la = sorted(c.longitude for c in cs), sorted(c.latitude for c in cs)
            if f.sensor_model is None:
                return "no model"
            r = f.create_orthophoto_tile((lo[0], la[0], lo[1], la[1]), tuple(o["size"]))
            return "none" if r is None else "tile"
        import geojson
        g = Geolocator(ImagedFeaturePropertyAccessor(), sm, dem(me) if o["dem"] else None, 2)
        fs = [geojson.loads(json.dumps({"type": "Feature", "geometry": None, "properties": {"imageGeometry": {"type": "Point", "coordinates": [5.0, 6.0]}}}))]
        with contextlib.redirect_stdout(io.StringIO()):
            g.geolocate_features(fs)
        return "ok"

    def step(o, me):
        if o["op"] in ("tile", "ortho", "geo", "scope") and o["f"] >= len(plan["cfgs"]) or o["op"] == "load" and o["i"] >= len(paths):
            return
        hooks = [watch]
        if o.get("interrupt") is not None:
            def stop(name, j):
                if j == o["interrupt"]:
                    sim.fault("process:interrupt")
                    raise Interrupt()
            hooks.append(stop)
        sim.injector.arm(o.get("faults", []), hooks)
        try:
            what = do(o, me)
        except (Exception, Interrupt) as e:
            what = type(e).__name__
            sim.probe("failed-operations")
        fired = sim.injector.disarm()
        for x in fired:
            sim.fault(f"{x[0]}:{x[2]}")
        sim.event(me, {k: v for k, v in o.items()}, what)
        with sched.quiet():
            sim.check(not bad, "source-modified-meanwhile", lambda: bad[0])
            verify(f"after {o['op']} ({what})")
        sim.probe("op-" + o["op"])
        last.append((o["op"], what))
        sim.state((last[-3:], [short(p) for p in present() if p not in files]))

    verify("at the start")
    for o in plan["ops"]:
        step(o, 0)
    ths = [t for t in plan["threads"] if t]
    if ths:
        sim.threads([(lambda t=t, k=k: [step(o, k + 1) for o in t]) for k, t in enumerate(ths)], plan["sched"])
    kept.clear()
    facs.clear()
    dems.clear()
    gc.collect()
    verify("after everything was closed")


def nontrivial(s):
    p = s["probes"]
    kinds = sum(1 for k in p if k.startswith("op-"))
    return kinds >= 2 and (p.get("failed-operations", 0) or p.get("thread-runs", 0) or sum(v for k, v in p.items() if k.startswith("op-")) > kinds)
