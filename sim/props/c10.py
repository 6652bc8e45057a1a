"""C10: map tiles show the ground they claim, or there is no tile."""
import gc
import itertools
import math

import numpy as np

from .. import inject

RUNS = {"quick": 600, "thorough": 15000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of map tile requests on one or more factories, with failing reads, failing projections, "
        "vanishing storage and threads; every tile is compared with the same request on a new factory in an unused process and with an "
        "independent reading of the source; non-trivial if tiles were checked and a fault, a repeat or a concurrent request occurred; "
        "distinct by the digest of the event trace")
REAL = ["GDALTileFactory", "get_type_and_scales", "DRAParameters", "quarter_power_image", "all sensor models", "GDAL, OpenCV and scipy"]
STUBS = ["storage is GDAL's in-memory file system", "a sensor model decorator that fails at a chosen call"]
ASSUMPTIONS = ["a tile value may be that of any source position within about one source pixel and a third of a tile pixel",
               "with a range adjustment only the order of values is prescribed",
               "statistics that cannot be computed for complex images may change the brightness of the whole tile"]
STATE_MEASURE = "image kind, bands, range adjustment, overlap with the image and outcome of the last two requests"


def gen_image(rng):
    from .. import world
    k = rng.choice(["gt", "gt4326", "gtutm", "gtsite", "gtsouth", "gtrot", "gtgcp", "gt", "gt4326", "nitfgeo", "rpc", "rpcchip", "rsm", "rsm2pi", "sicd-capella", "sicd-pfa", "sicd-rma", "sidd"])
    s = {"kind": k, "style": "smooth", "pseed": rng.randrange(4), "bands": 1, "dtype": "u1", "wl": rng.choice([18.0, 40.0])}
    if k in world.TIFF_KINDS:
        s["w"], s["h"] = rng.choice([(120, 90), (90, 130), (256, 200), (61, 47)])
        s["bands"] = rng.choice([1, 1, 3, 3, 2, 4, 5])
        s["dtype"] = rng.choice(["u1", "u1", "u1", "u2", "i2", "f4"])
        if rng.random() < 0.5:
            s["anchor"] = 1
        if rng.random() < 0.5:
            s["ovr"] = rng.choice([[2], [2, 4], [2, 4, 8], [4, 16], [3]])
        if rng.random() < 0.4:
            s["block"] = rng.choice([16, 64])
    else:
        s["w"], s["h"] = rng.choice([(80, 60), (60, 90)])
        if k.startswith("sicd"):
            s.update(bands=2, dtype="f4")
            if k == "sicd-capella" and rng.random() < 0.4:
                s["w"], s["h"] = rng.choice([(40, 7000), (30, 5000), (6000, 40)])
                s["wl"] = rng.choice([12.0, 18.0])
        elif not k.startswith("sidd"):
            s["bands"] = rng.choice([1, 3])
    return s


def gen_box(rng):
    """Box in fractions of the image extent [x0, y0, x1, y1]"""
    r = rng.random()
    if r < 0.1:
        return [0.0, 0.0, 1.0, 1.0]
    if r < 0.14:      # touches the image
        return rng.choice([[1.0, 0.2, 1.4, 0.6], [0.2, 1.0, 0.6, 1.4], [-0.4, 0.2, 0.0, 0.6], [0.2, -0.4, 0.6, 0.0]])
    if r < 0.2:
        d = rng.choice([0.2, 1.5])
        return [-d, -d, 1 + d, 1 + d]
    if r < 0.32:
        x, y = rng.choice([(1.6, 0.2), (-1.2, 0.3), (0.3, 2.0), (0.2, -1.4), (5.0, 5.0), (30.0, 0.0)])
        return [x, y, x + 0.4, y + 0.4]
    a, b = rng.choice([0.1, 0.25, 0.5, 0.8]), rng.choice([0.1, 0.25, 0.5, 0.8])
    lo = -0.5 if rng.random() < 0.4 else 0.02
    x, y = rng.uniform(lo * a, 1 - a - lo * a), rng.uniform(lo * b, 1 - b - lo * b)
    return [round(x, 4), round(y, 4), round(x + a, 4), round(y + b, 4)]


def gen_op(rng, nf, boxes, faulty, thr):
    r = rng.random()
    o = {"f": rng.randrange(nf)}
    if not thr and r < 0.09:
        o["op"] = "new"
        if rng.random() < 0.6:
            o["swap"] = rng.randrange(4)     # the image at this path has been replaced meanwhile
        return o
    if r < 0.17:
        o.update(op="tile", win=[rng.randrange(20), rng.randrange(20), rng.choice([8, 16]), rng.choice([8, 16])])
        return o
    o.update(op="ortho", box=rng.choice(boxes), size=rng.choice([[32, 32], [32, 32], [40, 24], [17, 50], [64, 64], [128, 128], [5, 9], [2, 2]]))
    if faulty and rng.random() < 0.4:
        k = rng.random()
        if k < 0.55:
            o["faults"] = [{"fn": rng.choice(["Band.ReadAsArray", "Band.ReadAsArray", "*", "Band.GetHistogram", "Band.GetStatistics"]), "n": rng.randrange(0, 4),
                            "kind": rng.choice(["err", "err", "err", "mem"])}]
        elif k < 0.8:
            o["sm_fail"] = rng.choice([0, 1, 2, 5, 9, 10])
        elif not thr:
            o["cut"] = {"at": rng.choice(["before", 0, 1, 2, 3, 5]), "frac": rng.choice([0.0, 0.3, 0.7, 0.97])}
    return o


def gen(rng, tier, index):
    from .. import world
    nf = rng.choice([1, 1, 2, 2, 3])
    thr = rng.random() < 0.3
    cfgs = []
    for i in range(nf):
        img = gen_image(rng) if i == 0 or rng.random() < 0.6 else dict(cfgs[0]["img"])
        twin = i and rng.random() < 0.4
        if twin:      # another image of the same kind and size
            img = dict(cfgs[0]["img"], pseed=rng.randrange(4))
        ra = rng.choice(["NONE", "NONE", "MINMAX", "DRA"]) if img["dtype"] == "u1" and img["bands"] in (1, 3) else rng.choice(["MINMAX", "DRA", "NONE"])
        if twin and rng.random() < 0.7:
            ra = cfgs[0]["ra"]
        cfgs.append({"img": img, "fmt": "PNG", "comp": None, "otype": 1, "ra": ra, "sm": True})
    family = rng.random() < 0.15
    if family:        # images that differ in nothing but their pixels, not even in the range of values
        img = gen_image(rng)
        while img["kind"] not in world.TIFF_KINDS:
            img = gen_image(rng)
        img.update(anchor=1, bands=rng.choice([1, 3]))
        ps = rng.sample(range(4), 2)
        cfgs = [{"img": dict(img, pseed=ps[i]), "fmt": "PNG", "comp": None, "otype": 1, "ra": rng.choice(["DRA", "DRA", "MINMAX"]), "sm": True} for i in range(2)]
        nf = 2
    boxes = [gen_box(rng) for _ in range(rng.choice([1, 2, 4]))]
    if max(cfgs[0]["img"]["w"], cfgs[0]["img"]["h"]) > 4000:      # the middle of a long strip
        boxes = [[0.5 - d, 0.5 - d, 0.5 + d, 0.5 + d] for d in (rng.choice([0.001, 0.002, 0.004]) for _ in boxes)]
        for c in cfgs:
            c["ra"] = rng.choice(["MINMAX", "DRA"]) if c["img"]["kind"].startswith("sicd") else c["ra"]
    faulty = rng.random() < 0.7
    plan = {"cfgs": cfgs, "exc": rng.random() < 0.5, "ops": [gen_op(rng, nf, boxes, faulty, False) for _ in range(rng.choice([2, 4, 8]))], "threads": []}
    if thr:
        plan["ops"] = plan["ops"][:2]
        plan["threads"] = [[dict(gen_op(rng, nf, boxes, faulty, True), f=0) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]
        plan["tcfg"] = [rng.randrange(nf) for _ in plan["threads"]]
    if family:
        for i, o in enumerate(plan["ops"]):
            o["f"] = i % 2
        if rng.random() < 0.6:        # the same image is replaced again and again
            for o in plan["ops"]:
                o["f"] = 0
            plan["ops"].insert(rng.randrange(1, len(plan["ops"]) + 1), {"f": 0, "op": "new", "swap": ps[1]})
            plan["ops"].append({"f": 0, "op": "ortho", "box": rng.choice(boxes), "size": [32, 32]})
    if thr and rng.random() < 0.6:    # much the same work at the same time
        size = rng.choice([[5, 9], [17, 50], [32, 32]])
        inside = [gen_box(rng) for _ in range(9)]
        inside = [b for b in inside if min(b) > -0.2 and max(b) < 1.2] or [[0.1, 0.2, 0.6, 0.7]]
        for o in plan["ops"]:
            if o["op"] == "ortho":
                o["size"] = size
        for t in plan["threads"]:
            for o in t:
                o.update(op="ortho", size=size, box=rng.choice(inside))
                o.pop("win", None)
    if nf > 1 and rng.random() < 0.35:
        plan["share"] = True          # one open image behind several factories
        for c in cfgs[1:]:
            c["img"] = dict(cfgs[0]["img"])
        plan["ops"] = [o for o in plan["ops"] if o["op"] != "new"]
        for o in plan["ops"]:
            o.pop("cut", None)
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.01, 0.05, 0.3, 0.3]),
                     "d": rng.choice([2, 4]), "span": rng.choice([300, 3000]), "opcode": False}
    inject.add_line_faults(rng, [o for o in plan["ops"] if o["op"] in ("tile", "ortho")], 0.08)
    return plan


def warm(plan):
    from .. import world
    for c in plan["cfgs"]:
        world.image_bytes(c["img"])
        for o in plan["ops"]:
            if o.get("swap") is not None:
                world.image_bytes(dict(c["img"], pseed=o["swap"]))


# ------------------------------------------------------------------------------------------------------- system side
def geo(sm, img, box):
    """Radian bounding box covering the given fraction of the image."""
    from aws.osml.photogrammetry import ImageCoordinate
    W, H = img["w"], img["h"]
    cs = [sm.image_to_world(ImageCoordinate([fx * W, fy * H])) for fx, fy in ((0, 0), (1, 0), (1, 1), (0, 1))]
    lo, la = [c.longitude for c in cs], [c.latitude for c in cs]
    x0, y0, x1, y1 = min(lo), min(la), max(lo), max(la)
    return (x0 + box[0] * (x1 - x0), y1 - box[3] * (y1 - y0), x0 + box[2] * (x1 - x0), y1 - box[1] * (y1 - y0))


def ref(spec):
    """One request on a new factory; positions of a grid of tile pixels in the source."""
    import base64
    import hashlib
    from .. import tileworld as T, world
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    world.wipe()
    world.use_exceptions(spec["exc"])
    cfg = spec["cfg"]
    world.put("/vsimem/ref/image", world.image_bytes(cfg["img"]))
    ds, sm, f = T.open_factory(cfg, "/vsimem/ref/image")
    out = {}
    if spec["what"] == "tile":
        try:
            r = f.create_encoded_tile(list(spec["win"]))
            return {"sha": None if r is None else hashlib.sha256(bytes(r)).hexdigest(), "png": None if r is None else base64.b64encode(bytes(r)).decode()}
        except Exception as e:
            return {"exc": type(e).__name__}
    out["geo"] = list(geo(sm, cfg["img"], spec["box"]))
    try:
        r = f.create_orthophoto_tile(tuple(out["geo"]), tuple(spec["size"]))
        out["sha"] = None if r is None else hashlib.sha256(bytes(r)).hexdigest()
        out["png"] = None if r is None else base64.b64encode(bytes(r)).decode()
    except Exception as e:
        out["exc"] = type(e).__name__
    W, H = spec["size"]
    x0, y0, x1, y1 = out["geo"]
    h = sm.image_to_world(ImageCoordinate([cfg["img"]["w"] / 2, cfg["img"]["h"] / 2])).elevation
    pts = []
    out["at"] = []
    for j in sorted({int(round(v)) for v in np.linspace(0, H - 1, 9)}):
        for i in sorted({int(round(v)) for v in np.linspace(0, W - 1, 9)}):
            try:
                c = sm.world_to_image(GeodeticWorldCoordinate([x0 + (x1 - x0) * i / (W - 1), y1 - (y1 - y0) * j / (H - 1), h]))
                p = [float(c.x), float(c.y)]
                if not all(map(math.isfinite, p)):
                    p = None
            except Exception:
                p = None
            pts.append(p)
            out["at"].append([i, j])
    out["src"] = pts
    return out


def display_range(img, sx, sy, R):
    """Lowest and highest source value within R of (sx, sy) per displayed channel, and whether the position is inside the image."""
    from .. import world
    key = (repr(img))
    if key not in _src:
        a = world.pixels(img).astype("f8")
        if img["bands"] == 2:
            a = np.sqrt((a * a).sum(axis=0))[None]
        _src[key] = a[:3]
    a = _src[key]
    H, W = a.shape[1:]
    xa, xb = int(math.floor(sx - R)), int(math.ceil(sx + R))
    ya, yb = int(math.floor(sy - R)), int(math.ceil(sy + R))
    if xb < 0 or yb < 0 or xa > W - 1 or ya > H - 1:
        return None
    w = a[:, max(ya, 0):min(yb, H - 1) + 1, max(xa, 0):min(xb, W - 1) + 1]
    return w.min(axis=(1, 2)), w.max(axis=(1, 2))


_src = {}


def run(plan, sim):
    import base64
    import hashlib
    from .. import sched, tileworld as T, world
    world.use_exceptions(plan["exc"])
    refs = {}

    errors = itertools.count()

    class Flaky:
        def __init__(self, sm):
            self._sm, self._left = sm, None

        def _call(self):
            if self._left is not None:
                if self._left == 0:
                    self._left = -1
                    sim.fault("sensor-model:raise")
                    raise world.model_error(plan.get("index", 0) + next(errors))
                self._left -= 1 if self._left > 0 else 0

        def image_to_world(self, *a, **k):
            self._call()
            return self._sm.image_to_world(*a, **k)

        def world_to_image(self, *a, **k):
            self._call()
            return self._sm.world_to_image(*a, **k)

    shared = []

    def start(i, tag):
        path = f"/vsimem/in{i}{tag}/image"
        world.put(path, world.image_bytes(plan["cfgs"][i]["img"]))
        opened = None
        if plan.get("share") and tag == "" and i:
            opened = shared[:]
        fac = T.open_factory(plan["cfgs"][i], path, Flaky, opened)
        if plan.get("share") and tag == "" and not i:
            shared[:] = fac[:2]
        return {"path": path, "cfg": plan["cfgs"][i], "fac": fac, "hist": [], "cut": False, "ever": False}

    def verify(s, o, data, rf, exact):
        cfg, img = s["cfg"], s["cfg"]["img"]
        affine = img["kind"] in ("gt", "gt4326", "gtsouth", "gtrot", "nitfgeo")
        got = T.inspect(bytes(data), "PNG")
        sim.check(got is not None and got[0] is not None, "tile-not-readable", f"{len(data)} bytes")
        a = got[0]
        W, H = o["size"]
        sim.check(a.shape[1:] == (H, W), "wrong-size", f"{a.shape} for requested {o['size']}")
        if exact:
            sim.check("sha" in rf and rf["sha"] is not None, "tile-for-refused-request", lambda: f"{img} {o}: {rf}")
            if hashlib.sha256(bytes(data)).hexdigest() != rf["sha"]:
                want = T.inspect(base64.b64decode(rf["png"]), "PNG")[0]
                d = np.abs(a.astype("f8") - want.astype("f8")) if a.shape == want.shape else None
                # the last bits of iterative and vectorised arithmetic may depend on memory alignment
                ok = d is not None and (d > 3).mean() <= (0.0 if affine else 0.01) and d.max() <= (1 if affine else 255)
                sim.check(ok, "tile-depends-on-history",
                          lambda: f"{img} {cfg['ra']} {o} differs from the tile of a new factory "
                                  f"({None if d is None else (int((d > 0).sum()), float(d.max()))}), history {s['hist'][-4:]}")
                sim.probe("tiles-equal-within-rounding")
        if a.shape[0] != 4 or img["kind"] == "gtgcp":
            return       # no transparent picture, or positions too far from linear for the toolkit's 3 by 3 grid of positions
        pos = {tuple(p): q for p, q in zip(rf["at"], rf["src"]) if q is not None}
        if len(pos) < 9:
            return
        xs, ys = [q[0] for q in pos.values()], [q[1] for q in pos.values()]
        bw, bh = max(xs) - min(xs), max(ys) - min(ys)
        step = max(bw / (W - 1), bh / (H - 1))
        lvl = max([1] + [v for v in img.get("ovr", []) if v <= step * 1.6])
        # the toolkit may use any overview not coarser than the tile, and interpolates positions linearly
        R = 0.3 * step + 1.0 * lvl + (0.2 if img["kind"].startswith("gt") else 1.0)
        vals = []
        mono = cfg["ra"] != "NONE"
        for (i, j), (sx, sy) in pos.items():
            w, h = img["w"], img["h"]
            v = a[:, j, i].astype("f8")
            far = R + 3.5 * lvl
            if sx < -far or sy < -far or sx > w - 1 + far or sy > h - 1 + far:
                sim.check(v[3] == 0, "invented-pixels", lambda: f"{img} {cfg['ra']} {o}: tile pixel {(i, j)} shows {v} but lies at {(sx, sy)} outside the image")
                sim.probe("outside-pixels")
                continue
            inner = R + 1
            if sx < inner or sy < inner or sx > w - 1 - inner or sy > h - 1 - inner:
                continue
            rg = display_range(img, sx, sy, R)
            sim.probe("inside-pixels")
            if not mono:
                if img["dtype"] != "u1" or img["bands"] not in (1, 3):
                    continue
                sim.check(v[3] == 255, "missing-pixels", lambda: f"{img} {o}: tile pixel {(i, j)} at {(sx, sy)} inside the image is transparent")
                for c in range(3):
                    lo, hi = rg[0][min(c, len(rg[0]) - 1)], rg[1][min(c, len(rg[0]) - 1)]
                    sim.check(lo - 1.5 <= v[c] <= hi + 1.5, "wrong-content",
                              lambda: f"{img} {o}: tile pixel {(i, j)} channel {c} is {v[c]}, source around {(sx, sy)} has {lo}..{hi}")
            else:
                vals.append((v, rg, (i, j), (sx, sy)))
        if mono and not (img["bands"] == 2 and lvl > 1):
            for c in range(3):
                k = lambda r: min(c, len(r[0]) - 1)
                for v, r, p, q in vals:
                    for v2, r2, p2, q2 in vals:
                        if r[0][k(r)] > r2[1][k(r2)]:
                            sim.check(v[c] >= v2[c] - 2, "wrong-content",
                                      lambda: f"{img} {cfg['ra']} {o}: channel {c} is {v[c]} at {p} and {v2[c]} at {p2}, but the source is {r} at {q} and {r2} at {q2}")
            sim.probe("order-checks", len(vals))
        sim.probe("tiles-verified")

    def handle_intact(s):
        """Does the open dataset still read what a new one reads?"""
        with world.bare():
            new = world.G("Open")(s["path"])
            for b in range(1, new.RasterCount + 1):
                x, y = s["fac"][0].GetRasterBand(b), new.GetRasterBand(b)
                for k in range(-1, y.GetOverviewCount()):
                    u, v = (x, y) if k < 0 else (x.GetOverview(k), y.GetOverview(k))
                    p, q = (None if u is None else u.ReadAsArray()), v.ReadAsArray()
                    if p is None or not np.array_equal(p, q):
                        return False
        return True

    def reference(s, o):
        return sim.ref({"what": o["op"], "cfg": s["cfg"], "exc": plan["exc"], "box": o.get("box"), "size": o.get("size"), "win": o.get("win")})

    def step(s, o, me):
        if o["op"] == "new":
            s["fac"] = None
            if o.get("swap") is not None:
                s["cfg"] = dict(s["cfg"], img=dict(s["cfg"]["img"], pseed=o["swap"]))
                sim.probe("images-replaced")
            if o.get("swap") is not None:
                gc.collect()       # tracebacks of failed requests hold the previous image, closing it writes its statistics
                world.unlink(s["path"] + ".aux.xml")       # statistics of the previous image
            if s["cut"] or o.get("swap") is not None:
                world.overwrite(s["path"], world.image_bytes(s["cfg"]["img"]))
                s["cut"] = False
            s["fac"] = T.open_factory(s["cfg"], s["path"], Flaky)
            s["ever"] = False
            return
        ds, sm, f = s["fac"]
        rf = reference(s, o)
        flaky = f.sensor_model
        touched = [s["cut"]]
        hooks = []
        good = world.image_bytes(s["cfg"]["img"])

        def cut(frac):
            world.overwrite(s["path"], good[:int(len(good) * frac)])
            s["cut"] = s["ever"] = touched[0] = True
            sim.fault("storage:cut")

        c = o.get("cut")
        sound = not s["ever"] or handle_intact(s)      # before the request; reading may repair the cached blocks
        if c and c["at"] == "before":
            cut(c["frac"])
        elif c:
            hooks.append(lambda name, j: cut(c["frac"]) if j == c["at"] and not s["cut"] else None)
        if o.get("sm_fail") is not None and isinstance(flaky, Flaky):
            flaky._left = o["sm_fail"]
        sim.injector.arm(o.get("faults", []), hooks)
        r = exc = None
        try:
            if o["op"] == "tile":
                r = f.create_encoded_tile(list(o["win"]))
            else:
                r = f.create_orthophoto_tile(tuple(rf["geo"]), tuple(o["size"]))
        except Exception as e:
            exc = e
        fired = sim.injector.disarm()
        for x in fired:
            sim.fault(f"{x[0]}:{x[2]}")
        sm_fired = isinstance(flaky, Flaky) and flaky._left == -1
        if isinstance(flaky, Flaky):
            flaky._left = None
        disturbed = bool(fired) or sm_fired or touched[0] or s["ever"]
        if c and s["cut"]:
            world.overwrite(s["path"], good)
            s["cut"] = False
        sim.event(me, o["op"], o.get("box"), o.get("size"), None if r is None else hashlib.sha256(bytes(r)).hexdigest()[:12], type(exc).__name__, fired)
        want = "tile" if rf.get("sha") else "none" if "sha" in rf else "error"
        got = "tile" if r is not None else "error" if exc is not None else "none"
        if o["op"] == "tile":
            sim.check(disturbed or got == want, "tile-outcome-depends-on-history", lambda: f"{o}: {got} {exc!r} instead of {want}")
            if r is not None and want == "tile" and sound and (not s["ever"] or handle_intact(s)):
                have, want_px = (T.inspect(x, "PNG")[0] for x in (bytes(r), base64.b64decode(rf["png"])))
                sim.check(np.array_equal(have, want_px), "tile-depends-on-history", lambda: f"{s['cfg']['img']} {o}: {have} instead of {want_px}")
        else:
            stats = s["cfg"]["img"]["bands"] == 2 and any(x[0].endswith("Statistics") for x in fired)
            if not disturbed:
                sim.check(got == want, "outcome-depends-on-history", lambda: f"{s['cfg']['img']} {s['cfg']['ra']} {o}: {got} {exc!r} instead of {want}, history {s['hist'][-4:]}")
            if r is not None and (not sound or s["ever"] and not handle_intact(s)):
                sim.probe("handle-broken-by-outage")     # GDAL itself now reads other pixels from this handle
            elif r is not None:
                verify(s, o, r, rf, not stats)
                if disturbed:
                    sim.probe("tiles-under-faults")
            elif disturbed:
                sim.probe("failures-reported")
            # no overlap with the image means no tile, overlap means a tile
            p = [q for q in rf["src"] if q is not None]
            if len(p) == len(rf["src"]) and not disturbed:
                w, h = s["cfg"]["img"]["w"], s["cfg"]["img"]["h"]
                xs, ys = [q[0] for q in p], [q[1] for q in p]
                if min(xs) > w + 2 or min(ys) > h + 2 or max(xs) < -2 or max(ys) < -2:
                    sim.check(got == "none", "tile-outside-image", lambda: f"{s['cfg']['img']} {o}: {got} {exc!r} although the image covers none of it")
                    sim.probe("no-overlap")
                    o = dict(o, where="outside")
                elif (s["cfg"]["ra"] != "NONE" or s["cfg"]["img"]["bands"] <= 3) and \
                        min(max(xs), w) - max(min(xs), 0) > 2 + 2 * (max(xs) - min(xs)) / o["size"][0] and \
                        min(max(ys), h) - max(min(ys), 0) > 2 + 2 * (max(ys) - min(ys)) / o["size"][1]:
                    sim.check(got == "tile", "tile-missing", lambda: f"{s['cfg']['img']} {s['cfg']['ra']} {o}: {got} {exc!r} although the image covers part of it")
                    sim.probe("overlap")
                    o = dict(o, where="overlap")
        s["hist"].append((o["op"], o.get("where"), got, disturbed))
        sim.state((s["cfg"]["img"]["kind"], s["cfg"]["img"]["bands"], s["cfg"]["ra"], s["hist"][-2:]))
        if len(s["hist"]) > 1:
            sim.probe("requests-after-history")

    facs = [start(i, "") for i in range(len(plan["cfgs"]))]
    for o in plan["ops"]:
        step(facs[o["f"] % len(facs)], o, 0)
    ths = [t for t in plan["threads"]]
    if any(ths):
        own = [start(plan["tcfg"][k % len(plan["tcfg"])] % len(plan["cfgs"]), f"t{k}") for k in range(len(ths))]
        sim.threads([(lambda t=t, k=k: [step(own[k], o, k + 1) for o in t]) for k, t in enumerate(ths)], plan["sched"])
        own.clear()
    shared.clear()
    facs.clear()


def nontrivial(s):
    p = s["probes"]
    return p.get("tiles-verified", 0) > 0 and (bool(s["faults"]) or p.get("requests-after-history", 0) + p.get("thread-runs", 0) > 0)
