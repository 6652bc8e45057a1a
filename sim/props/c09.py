"""C09: damaged image files are refused cleanly and leave no trace."""
import math
import re

RUNS = {"quick": 900, "thorough": 25000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of opening intact, damaged, missing and vanishing image files; the outcome of every opening is "
        "compared with opening the same bytes in an unused process; non-trivial if a damaged or failing opening was followed by an intact one; "
        "distinct by the digest of the event trace")
REAL = ["load_gdal_dataset", "SensorModelFactory and all builders", "NITFDESAccessor", "SICD/SIDD parsers (xsdata)", "GDAL NITF and GTiff drivers"]
STUBS = ["storage is GDAL's in-memory file system, changed by the simulator between and during calls", "GDAL calls fail on command"]
ASSUMPTIONS = ["pixel data are the bytes that differ between two otherwise equal images", "statistics side files (.aux.xml) are allowed"]
STATE_MEASURE = "kind of file, kind of damage or fault and outcome of the last two openings"
NAMES = ["a", "b.ntf", "c.tif"]
META = ["Dataset.GetMetadata", "Dataset.GetGeoTransform", "Dataset.GetGCPs", "Dataset.GetProjection"]


def gen_image(rng):
    from .. import world
    k = rng.choice(world.NITF_KINDS + world.TIFF_KINDS)
    s = {"kind": k, "w": 40, "h": 30, "bands": 1, "dtype": "u1", "pseed": 1}
    if k in world.TIFF_KINDS and rng.random() < 0.5:
        s["comp"] = rng.choice(["DEFLATE", "LZW"])
        if rng.random() < 0.4:
            s["block"] = 16
    if k.startswith("sicd"):
        s.update(bands=2, dtype="f4")
        if rng.random() < 0.3:
            s["ver"] = "1.3.0"
    if k.startswith("sidd") and rng.random() < 0.2:
        s["ver"] = "3.0.0"
    if k.startswith("si") and rng.random() < 0.2:
        s["des2"] = rng.choice(["sicd", "note"]) if k.startswith("sidd") else "note"
    return s


def gen_damage(rng):
    r = rng.random()
    big = 1 << 30
    if r < 0.25:
        return [["cut", ["frac", rng.random()] if rng.random() < 0.7 else rng.choice([0, 1, 4, 9, 100, 360, 400, 1000])]]
    if r < 0.4:
        return [["flip", rng.randrange(big), 1 << rng.randrange(8)] for _ in range(rng.choice([1, 1, 2, 5, 20]))]
    if r < 0.55:
        return [["set", rng.randrange(big), rng.choice(b"09 -.xNaE\x00\xff<>&")] for _ in range(rng.choice([1, 1, 2, 5]))]
    if r < 0.7:
        return [["fill", rng.randrange(big), rng.choice([1, 2, 8, 21, 64, 512, 4000]), rng.choice([0, 32, 48, 57, 255])]]
    if r < 0.78:
        return [["copy", rng.randrange(big), rng.randrange(big), rng.choice([1, 2, 8, 64, 512])]]
    if r < 0.9:
        return [["leaf", rng.randrange(big), rng.choice(["blank", "x", "0", "-", "nan", "9"])] for _ in range(rng.choice([1, 1, 3]))]
    return [["digits", rng.randrange(big), rng.choice([" ", "x", "-", "9", "0"]), rng.choice([1, 3, 12])]]


def gen_op(rng, ni, exc):
    r = rng.random()
    o = {"img": rng.randrange(ni), "name": rng.choice(NAMES)}
    if r < 0.3:
        o["op"] = "good"
    elif r < 0.65:
        o.update(op="damaged", dmg=gen_damage(rng))
    elif r < 0.78:
        o.update(op="pixels", dmg=[rng.choice([["flip", rng.randrange(1 << 30), 1 << rng.randrange(8)], ["fill", rng.randrange(1 << 30), rng.choice([1, 50, 5000]), rng.choice([0, 255])],
                                               ["cut", rng.random()]]) for _ in range(rng.choice([1, 2]))])
    elif r < 0.9:
        o.update(op="fault", faults=[{"fn": rng.choice(["Open"] + META + META[:1] * 2), "n": rng.choice([0, 0, 1, 2]), "kind": "err"}])
        if not exc and o["faults"][0]["fn"] in META[2:]:
            o["faults"][0]["fn"] = META[0]
        if rng.random() < 0.2:
            o["faults"].append({"fn": META[0], "n": 1, "kind": "err"})
        if rng.random() < 0.3:
            o["faults"] = [{"fn": "line", "n": rng.randrange(rng.choice([10, 100, 1000])), "kind": "mem"}]
    elif r < 0.95:
        o.update(op="vanish", at=rng.randrange(0, 6), frac=rng.choice([0.0, 0.2, 0.6, 0.95]))
    else:
        o["op"] = "missing"
    o["keep"] = rng.random() < 0.5
    return o


def gen(rng, tier, index):
    ni = rng.choice([1, 2, 3])
    exc = rng.random() < 0.5
    ops = [gen_op(rng, ni, exc) for _ in range(rng.choice([2, 4, 7, 12]))]
    ops.append({"op": "good", "img": rng.randrange(ni), "name": rng.choice(NAMES)})
    images = [gen_image(rng) for _ in range(ni)]
    if ni > 1 and rng.random() < 0.3:       # related images
        from .. import smworld
        for s, k in zip(images, rng.choice(smworld.PAIRS)):
            s.clear()
            s.update({"kind": k, "w": 40, "h": 30, "bands": 2 if k.startswith("sicd") else 1, "dtype": "f4" if k.startswith("sicd") else "u1", "pseed": 1})
    return {"images": images, "exc": exc, "ops": ops}


def warm(plan):
    from .. import world
    for i in plan["images"]:
        world.image_bytes(i)
        world.image_bytes(dict(i, pseed=2))


LEAF = re.compile(rb">([^<>]{1,60})</")


def damaged_bytes(img, dmg):
    from .. import world
    b = world.image_bytes(img)
    for d in dmg:
        if not b:
            break
        if d[0] == "cut":
            n = int(d[1][1] * len(b)) if isinstance(d[1], list) else d[1]
            b = world.damage(b, [["cut", n]])
        elif d[0] == "leaf":
            m = list(LEAF.finditer(b))
            if m:
                m = m[d[1] % len(m)]
                n = m.end(1) - m.start(1)
                v = {"blank": b" " * n, "nan": b"nan".ljust(n)[:n]}.get(d[2], d[2].encode() * n)
                b = b[:m.start(1)] + v + b[m.end(1):]
        elif d[0] == "digits":
            m = list(re.finditer(rb"[-+0-9.]{4,}", b))
            if m:
                m = m[d[1] % len(m)]
                n = min(d[3], m.end() - m.start())
                b = b[:m.start()] + d[2].encode() * n + b[m.start() + n:]
        else:
            b = world.damage(b, [d])
    return b


_regions = {}


def pixel_region(img):
    from .. import world
    import numpy as np
    if img["kind"] in world.TIFF_KINDS:
        key = repr(img)
        if key not in _regions:
            from osgeo import gdal
            with world.bare():
                world.put("/vsimem/_region", world.image_bytes(img))
                rds = world.G("Open")("/vsimem/_region")
                band = rds.GetRasterBand(1)
                bx, by = band.GetBlockSize()
                at = [[int(band.GetMetadataItem(f"BLOCK_{w}_{i}_{j}", "TIFF")) for w in ("OFFSET", "SIZE")]
                      for i in range(-(-band.XSize // bx)) for j in range(-(-band.YSize // by))]
                band = rds = None
                world.unlink("/vsimem/_region")
            _regions[key] = (min(o for o, _ in at), max(o + n for o, n in at))
        return _regions[key]
    a, b = (np.frombuffer(world.image_bytes(dict(img, pseed=p)), "u1") for p in (1, 2))
    d = np.nonzero(a != b)[0] if len(a) == len(b) else []
    d = [i for i in d if i > 60]      # a NITF header holds the time of writing
    return (int(d[0]), int(d[-1]) + 1) if len(d) else None


def pixel_damaged(img, dmg):
    from .. import world
    b = world.image_bytes(img)
    r = pixel_region(img)
    if r is None:
        return b
    p = b[r[0]:r[1]]
    for d in dmg:
        if d[0] == "cut":
            n = int(d[1] * len(p))
            if r[1] >= len(b) - 1:
                p = p[:n]       # nothing but pixels is missing
            else:
                p = p[:n] + bytes(len(p) - n)
        else:
            p = world.damage(p, [d]) if p else p
    return b[:r[0]] + p + b[r[1]:]


def signature(ds, sm):
    from aws.osml.photogrammetry import ImageCoordinate
    s = [ds.RasterXSize, ds.RasterYSize, ds.RasterCount]
    if sm is None:
        return s + ["no sensor model"]
    for f in ((0.25, 0.3), (0.6, 0.8)):
        try:
            c = sm.image_to_world(ImageCoordinate([f[0] * 40, f[1] * 30]))
            v = [float(c.longitude), float(c.latitude), float(c.elevation)]
            s.append([repr(x) if not math.isfinite(x) else round(x, 9) for x in v[:2]] + [repr(v[2]) if not math.isfinite(v[2]) else round(v[2], 4)])
        except Exception as e:
            s.append("unusable " + type(e).__name__)
    return s


def opening(path):
    """(outcome, dataset, sensor model, exception)"""
    from aws.osml.gdal import load_gdal_dataset
    try:
        r = load_gdal_dataset(path)
    except Exception as e:
        return ("value-error" if isinstance(e, ValueError) else "other-error"), None, None, e
    ds, sm = r
    return "opened", ds, sm, None


def limit():
    import resource
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def ref(spec):
    from .. import world
    limit()
    world.wipe()
    world.use_exceptions(spec["exc"])
    path = "/vsimem/ref/" + spec["name"]
    b = world.image_bytes(spec["img"])
    if spec.get("dmg") is not None:
        b = damaged_bytes(spec["img"], spec["dmg"])
    world.put(path, b)
    out, ds, sm, e = opening(path)
    return [out, signature(ds, sm) if out == "opened" else None]


def run(plan, sim):
    import warnings
    from osgeo import gdal
    from .. import inject, world
    limit()
    warnings.simplefilter("ignore")
    inject.FAULTABLE.update(META)
    world.use_exceptions(plan["exc"])
    kept = []
    hist = []

    def same(a, b):
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and isinstance(b, float):
            return abs(a - b) <= 2e-9 * max(1.0, abs(a)) + 1e-9
        return a == b

    for o in plan["ops"]:
        img = plan["images"][o["img"] % len(plan["images"])]
        path = "/vsimem/in/" + o["name"]
        good = world.image_bytes(img)
        kind = o["op"]
        data = good
        if kind == "damaged":
            data = damaged_bytes(img, o["dmg"])
            sim.fault("storage:damaged-metadata-or-pixels")
        elif kind == "pixels":
            data = pixel_damaged(img, o["dmg"])
            sim.fault("storage:damaged-pixels")
        world.unlink(path)
        world.unlink(path + ".aux.xml")
        if kind != "missing":
            world.put(path, data)
        before = set(world.listing("/vsimem/"))
        hooks = []
        cut = [False]
        if kind == "vanish":
            def hook(name, j, path=path, o=o, good=good):
                if j == o["at"] and not cut[0]:
                    cut[0] = True
                    world.overwrite(path, good[:int(len(good) * o["frac"])])
                    sim.fault("storage:vanishes-while-opening")
            hooks.append(hook)
        sim.injector.arm(o.get("faults", []), hooks)
        out, ds, sm, e = opening(path)
        fired = sim.injector.disarm()
        for x in fired:
            sim.fault(f"{x[0]}:{x[2]}")
        sim.event(kind, img["kind"], o["name"], out, type(e).__name__ if out != "other-error" else repr(e), fired)
        sim.check(out != "other-error" or isinstance(e, MemoryError) and any(x[0] == "line" for x in fired), "wrong-error", lambda: f"{kind} {img['kind']} {o.get('dmg') or o.get('faults') or ''}: {e!r}")
        if out == "opened":
            sim.check(isinstance(ds, gdal.Dataset), "no-dataset", lambda: f"{kind} {img['kind']}: {ds!r}")
        sim.check(bool(gdal.GetUseExceptions()) == plan["exc"], "error-mode-changed", lambda: f"{kind} {img['kind']}")
        left = [x for x in set(world.listing("/vsimem/")) - before if not x.endswith(".aux.xml")]
        sim.check(not left, "leftover-files", lambda: f"{kind} {img['kind']}: {left}")
        sim.probe("outcome-" + out)
        disturbed = bool(fired) or cut[0]
        if kind == "missing":
            sim.check(out == "value-error", "missing-file-opened", lambda: f"{path}: {ds}")
        elif not disturbed:
            want = sim.ref({"img": img, "dmg": o["dmg"] if kind == "damaged" else None, "name": o["name"], "exc": plan["exc"]})
            got = [out, signature(ds, sm) if out == "opened" else None]
            label = {"good": "intact-file-affected", "fault": "intact-file-affected", "vanish": "intact-file-affected", "damaged": "outcome-depends-on-history",
                     "pixels": "pixel-damage-changes-sensor-model"}[kind]
            if kind != "damaged":
                sim.check(want[0] == "opened", "intact-file-refused", lambda: f"{img}")
            sim.check(same(got, want), label, lambda: f"{img['kind']} {o.get('dmg')}: {got} instead of {want}")
            sim.probe("compared-" + kind)
            if kind == "good" and any(h[1] != "good" for h in hist):
                sim.probe("intact-after-damage")
        hist.append((img["kind"], kind, o["dmg"][0][0] if o.get("dmg") else o["faults"][0]["fn"] if o.get("faults") else None, out))
        sim.state(tuple(hist[-2:]))
        if o.get("keep"):
            kept.append((ds, sm))
        ds = sm = e = None
    kept.clear()


def nontrivial(s):
    return s["probes"].get("intact-after-damage", 0) > 0
