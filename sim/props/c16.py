"""C16: range adjustment is one linear scale per band, taken from the pixels of the whole image."""
import gc
import json
import math

import numpy as np

from .. import inject

RUNS = {"quick": 500, "thorough": 15000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of encoded and map tiles of images with chosen histograms, through several factories, reopened images, "
        "failing statistics, histograms and translations, and threads with factories of their own; non-trivial if tile values were compared with the "
        "independently computed scale in a history with more than one tile and a fault, another factory or another thread; distinct by the digest of "
        "the event trace")
REAL = ["GDALTileFactory", "get_type_and_scales", "DRAParameters", "load_gdal_dataset", "GDAL statistics, histograms, Translate, GTiff, NITF and PNG drivers", "OpenCV"]
STUBS = ["storage is GDAL's in-memory file system"]
ASSUMPTIONS = ["the limits of a range may be off by one histogram bucket, a tile value by one level",
               "for images with overviews or many blocks GDAL estimates the statistics: only consistency, order and the limits of the scale are judged",
               "pixels without data and not-a-number pixels do not count and are not judged"]
STATE_MEASURE = "histogram style, pixel type, range adjustment, kinds and outcomes of the last two requests"
TYPES = {"u1": ("uint8", 1, 0, 255), "u2": ("uint16", 2, 0, 65535), "i2": ("int16", 3, -32768, 32767), "u4": ("uint32", 4, 0, 2 ** 32 - 1),
         "i4": ("int32", 5, -2 ** 31, 2 ** 31 - 1), "f4": ("float32", 6, -3.4e38, 3.4e38), "f8": ("float64", 7, -1.7e308, 1.7e308)}
GT0 = (10.0, 0.0005, 0.0, 50.0, 0.0, -0.0004)


def palette(rng, dt, n):
    """Values of the n cells of one band."""
    lo, hi = TYPES[dt][2:]
    flt = dt[0] == "f"
    k = rng.choice(["any", "any", "skew", "narrow", "const", "two", "negative", "to-zero", "wide", "fraction"])
    if k == "fraction" and not flt:
        k = "any"
    if k == "negative" and lo == 0:
        k = "narrow"
    if k == "wide" and dt not in ("u4", "i4"):
        k = "any"
    if flt:
        lo, hi = -1e4, 1e5
    if k == "any":
        a, b = sorted(rng.sample(range(int(max(lo, -30000)), int(min(hi, 60000)) + 1), 2))
        v = [rng.randint(a, b) for _ in range(n)]
    elif k == "skew":
        b = rng.choice([40, 200, 1000, 20000]) % (int(min(hi, 60000)) - 10) + 10
        v = [rng.randint(0, max(1, b // 20)) if rng.random() < 0.9 else rng.randint(b // 2, b) for _ in range(n)]
    elif k == "narrow":
        a = rng.randint(int(max(lo, 0)), int(min(hi, 60000)) - 12)
        v = [a + rng.randint(0, rng.choice([2, 5, 12])) for _ in range(n)]
    elif k == "const":
        v = [rng.choice([0, 1, 7, 200, int(min(hi, 60000))])] * n
    elif k == "two":
        a, b = rng.choice([(0, 1), (5, 6), (0, int(min(hi, 60000))), (3, 200)])
        v = [rng.choice([a, b]) for _ in range(n)]
    elif k == "negative":
        v = [-rng.randint(5, rng.choice([20, 300, 9000])) for _ in range(n)]
    elif k == "to-zero":
        b = rng.choice([20, 300, 9000])
        v = [max(lo, -rng.randint(0, b)) for _ in range(n - 1)] + [0]
    elif k == "wide":
        v = [rng.randint(lo, hi) for _ in range(n)]
    else:
        s = rng.choice([0.001, 0.1, 0.5, 3.0])
        v = [0.25 + s * rng.randint(0, 1024) / 1024 for _ in range(n)]
    if k not in ("const", "two", "wide", "fraction") and rng.random() < 0.3:      # a few extreme cells
        v[rng.randrange(n)] = int(min(hi, 60000)) if rng.random() < 0.5 else int(max(lo, -9000))
    return [float(x) if flt else int(x) for x in v], k


def gen_image(rng):
    dt = rng.choice(["u1", "u1", "u2", "u2", "i2", "i2", "f4", "f4", "f8", "u4", "i4"])
    s = {"kind": rng.choice(["tif", "tif", "tif", "nitf"]), "dtype": dt, "cell": 12, "nx": rng.choice([4, 6]), "ny": rng.choice([3, 5])}
    if s["kind"] == "tif" and rng.random() < 0.25:
        s.update(cell=24, nx=4, ny=3, ovr=rng.choice([[2], [2, 4]]))
    bands = rng.choice([1, 1, 1, 3, 4])
    s["pal"], styles = [], []
    for _ in range(bands):
        v, k = palette(rng, dt, s["nx"] * s["ny"])
        s["pal"].append(v)
        styles.append(k)
    s["style"] = styles[0]
    # single pixels, in the corners of cells, that nothing else is known about than their value
    s["spots"] = [[rng.randrange(bands), rng.randrange(s["nx"]) * s["cell"], rng.randrange(s["ny"]) * s["cell"], rng.choice(s["pal"][0] + [0, 1, 100])] for _ in range(rng.choice([0, 0, 3]))]
    # the first row of every cell counts through many values, so that every percentage of the pixels makes a difference
    if rng.random() < 0.4 and "const" not in styles:
        v = [x for q in s["pal"] for x in q]
        s["ramp"] = [rng.choice([min(v), max(v), sum(v) / len(v)]), max(v) if rng.random() < 0.5 else min(v) + 1.5 * (max(v) - min(v))]
    if s["kind"] == "tif":
        if rng.random() < 0.25 and not s.get("ovr"):
            s["block"] = 16
        v = rng.choice(s["pal"][0])
        # at least some data in every band, wherever GDAL looks for it
        if rng.random() < 0.2 and not s.get("ovr") and not s.get("block") and all(sum(x != v for x in q) > 2 for q in s["pal"]) and bands == 1:
            s["nodata"] = v
    if dt[0] == "f" and rng.random() < 0.15:
        s["nan"] = rng.randrange(s["nx"] * s["ny"])
    return s


def gen_op(rng, img, nf, thr):
    r = rng.random()
    w, h = img["nx"] * img["cell"], img["ny"] * img["cell"]
    o = {"f": rng.randrange(nf)}
    if not thr and r < 0.1:
        o["op"] = "new"
    elif r < 0.6 or img["kind"] != "tif":
        if rng.random() < 0.25:
            win = [0, 0, w, h]
        else:
            tw, th = rng.choice([1, 5, 16, 24, 40]), rng.choice([1, 5, 16, 24, 40])
            tw, th = min(tw, w), min(th, h)
            win = [rng.randint(0, w - tw), rng.randint(0, h - th), tw, th]
        o.update(op="tile", win=win, out=rng.choice([None, None, None, [win[2] * 2, win[3] * 2]]))
    else:
        a, b = rng.choice([0.2, 0.4, 0.8]), rng.choice([0.2, 0.4, 0.8])
        x, y = rng.uniform(0, 1 - a), rng.uniform(0, 1 - b)
        o.update(op="ortho", box=[round(x, 3), round(y, 3), round(x + a, 3), round(y + b, 3)], size=rng.choice([[32, 32], [24, 40], [64, 64]]))
    if not thr and rng.random() < 0.25:
        o["faults"] = [{"fn": rng.choice(["Band.GetStatistics", "Band.GetHistogram", "Translate", "Band.ReadAsArray", "VSIFOpenL", "*"]), "n": rng.choice([0, 0, 1, 2]),
                        "kind": rng.choice(["err", "after"])}]
    return o


def gen(rng, tier, index):
    img = gen_image(rng)
    nf = rng.choice([1, 2, 3])
    cfgs = []
    for i in range(nf):
        ra = rng.choice(["MINMAX", "MINMAX", "DRA", "DRA", "NONE"])
        ot = rng.choice([1, 1, 1, 2])
        if ra == "NONE" and img["dtype"][0] == "f":
            ra = "DRA"
        if img["dtype"] in ("u2", "i2") and rng.random() < 0.2:
            ot = None
        fmt = rng.choice(["GTiff", "NITF", "PNG"]) if ot in (1, 2) else rng.choice(["GTiff", "NITF"])
        cfgs.append({"fmt": fmt, "comp": "NONE", "otype": ot, "ra": ra, "sm": True})
    plan = {"img": img, "cfgs": cfgs, "exc": rng.random() < 0.5, "share": rng.random() < 0.3, "alt": rng.random() < 0.25,
            "ops": [gen_op(rng, img, nf, False) for _ in range(rng.choice([2, 4, 8]))], "threads": []}
    if plan["alt"]:
        k = img["pal"]
        plan["img2"] = dict(img, pal=[[v for v in palette(rng, img["dtype"], len(p))[0]] for p in k], spots=[])
        plan["img2"].pop("nodata", None)
        plan["ops"].insert(rng.randrange(1, len(plan["ops"]) + 1), {"f": 0, "op": "replace"})
        plan["share"] = False
    if rng.random() < 0.3:
        plan["threads"] = [[gen_op(rng, img, 1, True) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3]))]
        plan["tcfg"] = [rng.randrange(nf) for _ in plan["threads"]]
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.01, 0.05, 0.3]),
                     "d": rng.choice([2, 4]), "span": rng.choice([300, 3000])}
    inject.add_line_faults(rng, [o for o in plan["ops"] if o["op"] in ("tile", "ortho")], 0.08)
    return plan


_cache = {}


def pixels(s):
    key = ("px", json.dumps(s, sort_keys=True))
    if key not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        c = s["cell"]
        out = []
        for p in s["pal"]:
            a = np.array(p, dtype="f8")
            if s.get("nan") is not None:
                a[s["nan"]] = np.nan
            out.append(np.kron(a.reshape(s["ny"], s["nx"]), np.ones((c, c))))
        a = np.stack(out)
        lo, hi = TYPES[s["dtype"]][2:]
        if s.get("ramp"):
            r = np.linspace(s["ramp"][0], s["ramp"][1], s["ny"] * a.shape[2]).reshape(s["ny"], a.shape[2])
            a[:, ::c, :] = np.clip(r if s["dtype"][0] == "f" else np.floor(r), lo, hi)[None]
        for b, x, y, v in s["spots"]:
            a[b, y, x] = min(max(v, lo), hi)
        _cache[key] = a.astype(TYPES[s["dtype"]][0])
    return _cache[key]


def image_bytes(s):
    key = ("img", json.dumps(s, sort_keys=True))
    if key in _cache and ("blocks", key[1]) in _cache:
        return _cache[key]
    from .. import world
    a = pixels(s)
    from osgeo import gdal
    with world.bare():
        m = gdal.GetDriverByName("MEM").Create("", a.shape[2], a.shape[1], a.shape[0], TYPES[s["dtype"]][1])
        for i in range(a.shape[0]):
            m.GetRasterBand(i + 1).WriteArray(a[i])
        if s["kind"] == "tif":
            if s.get("nodata") is not None:
                m.GetRasterBand(1).SetNoDataValue(s["nodata"])
            m.SetGeoTransform(GT0)
            o = ["TILED=YES", f"BLOCKXSIZE={s['block']}", f"BLOCKYSIZE={s['block']}"] if s.get("block") else [f"BLOCKYSIZE={a.shape[1]}"]
            r = gdal.GetDriverByName("GTiff").CreateCopy("/vsimem/_mk/m", m, options=o)
        else:
            r = gdal.GetDriverByName("NITF").CreateCopy("/vsimem/_mk/m", m, options=[])
        assert r is not None, (s, gdal.GetLastErrorMsg())
        r.FlushCache()
        r = None
        if s.get("ovr"):
            d = world.G("OpenEx")("/vsimem/_mk/m", 1)
            d.BuildOverviews("AVERAGE", s["ovr"])
            d = None
        b = world.get("/vsimem/_mk/m")
        d = world.G("Open")("/vsimem/_mk/m")
        bx, by = d.GetRasterBand(1).GetBlockSize()
        d = None
        for f in world.listing("/vsimem/_mk/"):
            world.G("Unlink")(f)
    _cache[key] = b
    _cache[("blocks", key[1])] = math.ceil(a.shape[2] / bx) * math.ceil(a.shape[1] / by)
    return b


def valid(s, b):
    """The pixels of a band that count."""
    a = pixels(s)[b].astype("f8")
    a = a[~np.isnan(a)]
    if s.get("nodata") is not None:
        a = a[a != s["nodata"]]
    return a


def cut(counts, fraction, high):
    """Independent statement of the bucket at which an outlier percentage ends; None if it hangs on rounding."""
    cum = np.cumsum(counts)
    t = fraction * cum[-1]
    if np.any(np.abs(cum - t) < 1e-6 * cum[-1]):
        return None
    return int(np.argmax(cum >= t)) if not high else (int(np.flatnonzero(cum <= t)[-1]) if cum[0] <= t else 0)


def scale(s, b, ra, use):
    """(lowest, highest source value of the range, uncertainty of each) or None if it can not be said exactly."""
    lo, hi = TYPES[s["dtype"]][2:]
    if ra == "NONE":
        return lo, hi, 0.0
    a = valid(s, b)
    mn, mx = float(a.min()), float(a.max())
    if mn == mx:
        return mn, mx, 0.0
    if use == "map" and ra == "MINMAX":
        return mn, mx, 0.0
    if use == "map":
        n = min(max(256, int(mx - mn)), 65536)
    else:
        n = 255 if s["dtype"][0] == "f" else min(int(mx - mn), 65536)
    step = (mx - mn) / n
    if ra == "MINMAX":
        return mn, mx - step / 2, step * 0.51
    i = np.floor((a - mn) * (n / (mx - mn))).astype(int)
    i = np.minimum(i, n - 1) if use != "map" else i[i < n]
    counts = np.bincount(i, minlength=n)
    e0, e1 = cut(counts, 0.02, False), cut(counts, 0.97 if use == "map" else 0.98, True)
    if e0 is None or e1 is None:
        return None
    e1 = max(e0, e1)
    f = np.flatnonzero(counts)
    s0 = max(f[0], e0 - 0.2 * (e1 - e0))
    s1 = min(f[-1], e1 + 0.4 * (e1 - e0))
    return mn + s0 * step, mn + s1 * step, step * 1.6


def exact(s):
    """GDAL uses every pixel for its statistics if there are no overviews and fewer than four blocks."""
    if s.get("ovr"):
        return False
    image_bytes(s)
    return _cache[("blocks", json.dumps(s, sort_keys=True))] < 4


def run(plan, sim):
    from .. import tileworld as T, world
    from aws.osml.gdal import load_gdal_dataset
    world.use_exceptions(plan["exc"])
    shared = {}

    def start(i, path, img, share=False):
        world_cfg = dict(plan["cfgs"][i])
        opened = None
        if share:
            if "ds" not in shared:
                shared["ds"] = load_gdal_dataset(path)
            opened = shared["ds"]
        return T.open_factory(world_cfg, path, None, opened)

    def place(path, img):
        world.put(path, image_bytes(img))
        return {"path": path, "img": img, "seen": {}, "hist": []}

    def attempt(fn, faults):
        """Runs fn with the faults armed; (result, exception, what fired)."""
        sim.injector.arm(faults or [])
        r = exc = None
        try:
            r = fn()
        except Exception as e:
            exc = e
        fired = sim.injector.disarm()
        for x in fired:
            sim.fault(f"{x[0]}:{x[2]}")
        return r, exc, fired

    def samples(img, o):
        """(row, column) of tile pixels that show nothing but one cell of the image, and that cell's row and column of the image."""
        c, W, H = img["cell"], img["nx"] * img["cell"], img["ny"] * img["cell"]
        if o["op"] == "tile":
            x0, y0, w, h = o["win"]
            tw, th = o.get("out") or (w, h)
            xs = [x0 + (i + 0.5) * w / tw for i in range(tw)]
            ys = [y0 + (j + 0.5) * h / th for j in range(th)]
            m = 0.0 if not o.get("out") else 3.1
            if img.get("ovr") and o.get("out"):
                m = 7.0
        else:
            x0, y0, x1, y1 = o["box"]
            tw, th = o["size"]
            xs = [W * (x0 + (x1 - x0) * i / (tw - 1)) for i in range(tw)]
            ys = [H * (y0 + (y1 - y0) * j / (th - 1)) for j in range(th)]
            step = max(W * (x1 - x0) / (tw - 1), H * (y1 - y0) / (th - 1))
            m = 3.5 + 0.5 * step + (2 * max(v for v in img["ovr"]) if img.get("ovr") else 0)

        def fit(vs, n):
            out = []
            for k, v in enumerate(vs):
                q = int(v // c)
                if 0 <= q < n and v - q * c >= m and (q + 1) * c - v >= m:
                    out.append((k, int(v)))
            return out
        return fit(ys, img["ny"]), fit(xs, img["nx"])

    def verify(s, cfg, o, data):
        img = s["img"]
        use = "map" if o["op"] == "ortho" else "tile"
        got = T.inspect(bytes(data), "PNG" if use == "map" else cfg["fmt"])
        where = f"{img['kind']} {img['dtype']} {img['style']} image{' with overviews' if img.get('ovr') else ''}, {cfg['ra']} to {cfg['otype']} {json.dumps(o)}"
        sim.check(got is not None and got[0] is not None, "tile-not-readable", where)
        a = got[0].astype("f8")
        src = pixels(img).astype("f8")
        rows, cols = samples(img, o)
        if use == "map" and cfg["ra"] == "NONE":
            return
        if not rows or not cols:
            return
        nb = src.shape[0] if use == "tile" else (1 if src.shape[0] == 1 else 3)
        if use == "tile":
            sim.check(a.shape[0] == nb, "wrong-bands", lambda: f"{where}: {a.shape}")
        else:
            sim.check(a.shape[0] in (1, 2, 3, 4), "wrong-bands", lambda: f"{where}: {a.shape}")
        if cfg["otype"] is None and use == "tile":
            olo, ohi = TYPES[img["dtype"]][2:]
        else:
            olo, ohi = (0, 65535) if cfg["otype"] == 2 and use == "tile" else (0, 255)
        ji = np.ix_([r[0] for r in rows], [c[0] for c in cols])
        at = np.ix_([r[1] for r in rows], [c[1] for c in cols])
        for b in range(nb):
            v, t = src[b][at].ravel(), a[b][ji].ravel()
            if use == "map" or o.get("out"):      # a spot near the sample does not belong to the cell
                v = np.array([[img["pal"][b][(r[1] // img["cell"]) * img["nx"] + c[1] // img["cell"]] for c in cols] for r in rows], dtype="f8").ravel()
                v = v.astype(TYPES[img["dtype"]][0]).astype("f8")
                if img.get("nan") is not None:
                    k = np.array([[(r[1] // img["cell"]) * img["nx"] + c[1] // img["cell"] for c in cols] for r in rows]).ravel()
                    v[k == img["nan"]] = np.nan
            good = ~np.isnan(v)
            if img.get("nodata") is not None:
                good &= v != img["nodata"]
            v, t = v[good], t[good]
            if not len(v) or not len(valid(img, b)):
                continue
            sc = scale(img, b, cfg["ra"], use)
            mn, mx = float(valid(img, b).min()), float(valid(img, b).max())
            if mn < mx and sc is not None and (exact(img) or cfg["ra"] == "NONE"):
                s0, s1, u = sc
                if s1 - s0 > 2 * u + 1e-12 * max(abs(s0), abs(s1)):
                    f = lambda x0, x1: np.clip((v - x0) / (x1 - x0), 0, 1) * (ohi - olo) + olo
                    lo_, hi_ = f(s0 + u, s1 + u), f(s0 - u, s1 - u)
                    lo2, hi2 = f(s0 + u, max(s1 - u, s0 + u + 1e-300)), f(s0 - u, s1 + u)
                    low, high = np.minimum(lo_, np.minimum(lo2, hi2)), np.maximum(hi_, np.maximum(lo2, hi2))
                    tol = 1.01 + 2e-6 * (ohi - olo)
                    bad = (t < low - tol) | (t > high + tol)
                    sim.check(not bad.any(), "wrong-scale", lambda: f"{where}: band {b + 1}, source value {v[bad][0]} is shown as {t[bad][0]}, the range "
                              f"{s0}..{s1} (within {u}) of the image's own {mn}..{mx} gives {low[bad][0]}..{high[bad][0]}")
                    sim.probe("scaled-values", int(len(v)))
            # one scale for all tiles of the image: same value, same result; higher value, no lower result
            key = (b, use, cfg["ra"], cfg["otype"] if use == "tile" else 0)
            seen = s["seen"].setdefault(key, {})
            tol = 1.01 if not o.get("out") and use == "tile" else 1.51
            for x, y in set(zip(v.tolist(), t.tolist())):
                l, h = seen.get(x, (y, y))
                l, h = min(l, y), max(h, y)
                sim.check(h - l <= tol, "scale-differs", lambda: f"{where}: band {b + 1}, source value {x} is shown as {y}, in another place or tile of the image as {l if y != l else h}")
                seen[x] = (l, h)
            order = sorted(seen)
            top = -math.inf
            for x in order:
                sim.check(seen[x][1] >= top - tol, "order", lambda: f"{where}: band {b + 1}, source value {x} is shown as {seen[x]}, a lower one as {top}")
                top = max(top, seen[x][0])
            sim.probe("values", int(len(v)))
        sim.probe("tiles-verified")

    def step(s, facs, o, me):
        if o["op"] == "replace":
            # the image at this path is another one from now on, all factories are made anew
            facs[:] = [None] * len(facs)
            shared.clear()
            gc.collect()           # the datasets are closed before the file is replaced
            for f in world.listing("/vsimem/in/"):
                world.unlink(f)
            new = place(s["path"], plan["img2"])
            s.update(new)
            sim.probe("images-replaced")
            sim.event("replace")
            return
        i = o["f"] % len(facs)
        cfg = plan["cfgs"][i if me == 0 else plan["tcfg"][me - 1]]
        ci = i if me == 0 else plan["tcfg"][me - 1]
        if o["op"] == "new":
            facs[i] = None
        if facs[i] is None:
            # factories are made when first needed; the faults of this request may meet that, too
            r, exc, fired = attempt(lambda: start(ci, s["path"], s["img"], plan["share"] and me == 0), o.get("faults") if o["op"] == "new" else None)
            sim.event("open", i, me, type(exc).__name__, fired)
            sim.check(r is not None or fired, "factory-refused", lambda: f"{s['img']} {cfg}: {exc!r}")
            if r is None:
                s["hist"].append(("open", "failed"))
                return
            facs[i] = r
        if o["op"] == "new":
            return
        f = facs[i][2]
        if o["op"] == "tile":
            fn = lambda: f.create_encoded_tile(list(o["win"]), None if o.get("out") is None else tuple(o.get("out")))
        else:
            W, H = s["img"]["nx"] * s["img"]["cell"], s["img"]["ny"] * s["img"]["cell"]
            x0, y0, x1, y1 = o["box"]
            lon = [math.radians(GT0[0] + GT0[1] * W * q) for q in (x0, x1)]
            lat = [math.radians(GT0[3] + GT0[5] * H * q) for q in (y1, y0)]
            fn = lambda: f.create_orthophoto_tile((lon[0], lat[0], lon[1], lat[1]), tuple(o["size"]))
        r, exc, fired = attempt(fn, o.get("faults"))
        if o["op"] == "ortho" and not fired and cfg["ra"] == "NONE" and r is None:
            return                     # pictures without range adjustment are not part of this
        sim.check(r is not None or fired, "tile-refused", lambda: f"{s['img']} {cfg} {o}: {exc!r}")
        if r is not None:
            verify(s, cfg, o, r)
        sim.event(me, o["op"], type(exc).__name__, fired, None if r is None else T.sha(r, cfg["fmt"]))
        s["hist"].append((o["op"], r is not None, bool(fired)))
        sim.state((s["img"]["style"], s["img"]["dtype"], cfg["ra"], s["hist"][-2:]))
        if len(s["hist"]) > 1:
            sim.probe("requests-after-history")

    main = place("/vsimem/in/image", plan["img"])
    facs = [None] * len(plan["cfgs"])
    for o in plan["ops"]:
        step(main, facs, o, 0)
    ths = [t for t in plan["threads"] if t]
    if ths:
        own = [[None] for _ in ths]
        sim.threads([(lambda t=t, k=k: [step(main, own[k], o, k + 1) for o in t]) for k, t in enumerate(ths)], plan["sched"])
        sim.probe("shared")
        own.clear()
    facs.clear()
    shared.clear()


def nontrivial(s):
    p = s["probes"]
    return p.get("values", 0) > 0 and p.get("requests-after-history", 0) > 0
