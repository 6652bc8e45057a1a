"""Tile factories over simulated images: configurations, requests, normalisation and independent checks of tiles."""
import hashlib
import re

import numpy as np

from . import world

SIZES = [(40, 30), (61, 47), (96, 64), (33, 80)]
LOSSLESS = {("NITF", "NONE"), ("GTiff", "NONE"), ("GTiff", "LZW"), ("GTiff", None), ("PNG", "NONE"), ("PNG", None), ("PNG", "LZW")}


def gen_image(rng, kinds=None, style=None):
    kind = rng.choice(kinds or (world.NITF_KINDS + world.TIFF_KINDS))
    w, h = rng.choice(SIZES)
    s = {"kind": kind, "w": w, "h": h, "pseed": rng.randrange(3)}
    if kind.startswith("sicd"):
        s.update(bands=2, dtype="f4")
        if rng.random() < 0.2:
            s["ver"] = rng.choice(["1.3.0", "1.2.1"])
    elif kind.startswith("sidd"):
        s.update(bands=1, dtype="u1")
    else:
        s["bands"] = rng.choice([1, 1, 3, 3, 4, 2])
        s["dtype"] = rng.choice(["u1", "u1", "u2", "i2", "f4", "f8", "u4", "i4"])
    if kind in world.TIFF_KINDS:
        if rng.random() < 0.3:
            s["block"] = 16
        if rng.random() < 0.3:
            s["comp"] = rng.choice(["LZW", "DEFLATE"])
    elif rng.random() < 0.2 and not kind.startswith("si"):
        s["block"] = 16
    return s


def gen_cfg(rng, img, allow_lossy=True):
    """A factory configuration under which ordinary requests succeed."""
    combos = [("NITF", "NONE"), ("NITF", "NONE"), ("GTiff", "NONE"), ("GTiff", "LZW"), ("GTiff", None)]
    out = None
    dt = img.get("dtype", "u1")
    ra = rng.choice(["NONE", "NONE", "NONE", "MINMAX", "DRA"])
    if not img["kind"].startswith("si") and rng.random() < 0.4:
        out = rng.choice([1, 1, 2, 6])
        dt = {1: "u1", 2: "u2", 6: "f4"}[out]
    if dt in ("u1", "u2") and img.get("bands", 1) in (1, 2, 3, 4):
        combos += [("PNG", "NONE"), ("PNG", None)]
    if dt == "u1" and img.get("bands", 1) in (1, 3) and allow_lossy:
        combos += [("JPEG", "NONE"), ("NITF", "JPEG"), ("GTiff", "JPEG")]
    if dt in ("u1", "u2", "i2") and allow_lossy:
        combos += [("NITF", "J2K"), ("NITF", None)]
    if img["kind"].startswith("si"):
        combos = [("NITF", "NONE")] * 6 + [("GTiff", "NONE"), ("NITF", "NONE" if dt != "u1" else "J2K"), ("NITF", None if dt == "u1" else "J2K")]
        if ra != "NONE" and dt == "f4":
            ra = rng.choice(["NONE", ra])
    f, c = rng.choice(combos)
    return {"img": img, "fmt": f, "comp": c, "otype": out, "ra": ra, "sm": rng.random() < 0.85}


def gen_window(rng, img):
    W, H = img["w"], img["h"]
    r = rng.random()
    if r < 0.12:
        return [0, 0, W, H]
    if r < 0.2:
        return [rng.randrange(W), rng.randrange(H), 1, 1]
    w, h = rng.choice([(8, 8), (16, 16), (16, 8), (8, 16), (24, 24), (13, 7), (2, 3)])
    return [rng.randrange(0, W - w + 1), rng.randrange(0, H - h + 1), w, h]


def gen_bad_window(rng, img):
    W, H = img["w"], img["h"]
    return rng.choice([[W + 5, 0, 8, 8], [0, H + 9, 8, 8], [-200, -200, 10, 10], [0, 0, 0, 0], [4, 4, 0, 5], [3, 3, -4, 8],
                       [W - 4, H - 4, 16, 16], [0, 0, W * 3, H * 3]])


def gen_out(rng, win):
    return rng.choice([None, None, None, [win[2], win[3]], [max(1, win[2] * 2), max(1, win[3] * 2)], [max(1, win[2] // 2), max(1, win[3] // 2)], [12, 7]])


def open_factory(cfg, path, sensor_model=None, opened=None):
    from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, RangeAdjustmentType, load_gdal_dataset
    from aws.osml.image_processing.gdal_tile_factory import GDALTileFactory
    ds, sm = opened or load_gdal_dataset(path)
    use = sm if cfg["sm"] else None
    if sensor_model is not None and use is not None:
        use = sensor_model(use)
    f = GDALTileFactory(ds, use, GDALImageFormats(cfg["fmt"]), None if cfg["comp"] is None else GDALCompressionOptions(cfg["comp"]),
                        cfg["otype"], RangeAdjustmentType(cfg["ra"]))
    return ds, sm, f


def normalise(data, fmt):
    b = bytearray(data)
    if fmt == "NITF" and bytes(b[0:4]) == b"NITF":
        b[25:39] = b"0" * 14
    return bytes(b)


def sha(data, fmt):
    return hashlib.sha256(normalise(data, fmt)).hexdigest()[:20]


def ref_tile(spec):
    """Runs in a pristine process: the same image, a fresh factory, one request."""
    world.wipe()
    world.use_exceptions(spec["exc"])
    path = "/vsimem/ref/" + spec.get("name", "image")
    cfg = spec["cfg"]
    world.put(path, world.image_bytes(cfg["img"]))
    out = {}
    try:
        ds, sm, f = open_factory(cfg, path)
        r = f.create_encoded_tile(list(spec["win"]), None if spec["out"] is None else tuple(spec["out"]))
    except Exception as e:
        r = None
        out["exc"] = type(e).__name__
    if r is None:
        out["what"] = "none"
        return out
    out.update(what="tile", sha=sha(r, cfg["fmt"]), n=len(r))
    if cfg["fmt"] == "NITF" and cfg["sm"] and sm is not None:
        from aws.osml.photogrammetry import ImageCoordinate
        x, y, w, h = spec["win"]
        import math
        out["corners"] = []
        for c in ([x, y], [x + w, y], [x + w, y + h], [x, y + h]):
            g = sm.image_to_world(ImageCoordinate(c))
            out["corners"].append([math.degrees(g.longitude), math.degrees(g.latitude)])
    return out


DMS = re.compile(r"(\d\d)(\d\d)(\d\d)([NS])(\d\d\d)(\d\d)(\d\d)([EW])")


def parse_igeolo(s):
    out = []
    if len(s) != 60:
        return None
    for i in range(4):
        m = DMS.fullmatch(s[15 * i:15 * i + 15])
        if not m:
            return None
        g = m.groups()
        lat = int(g[0]) + int(g[1]) / 60 + int(g[2]) / 3600
        lon = int(g[4]) + int(g[5]) / 60 + int(g[6]) / 3600
        out.append([-lon if g[7] == "W" else lon, -lat if g[3] == "S" else lat])
    return out


def inspect(data, fmt):
    """Decode a tile: (array (bands,h,w), IGEOLO or None, driver)."""
    p = "/vsimem/_look/t"
    with world.bare():
        world.put(p, data)
        d = world.G("Open")(p)
        if d is None:
            r = None
        else:
            a = d.ReadAsArray()
            if a is not None and a.ndim == 2:
                a = a[None]
            md = d.GetMetadata() or {}
            r = (a, md.get("NITF_IGEOLO"), d.GetDriver().ShortName)
        d = None
        for f in ("/vsimem/_look/t", "/vsimem/_look/t.aux.xml"):
            world.G("Unlink")(f)
        world.G("RmdirRecursive")("/vsimem/_look")
    return r


def check_tile(sim, cfg, win, out, data, ref, pre="tile"):
    """Independent checks of one returned tile."""
    x, y, w, h = win
    img = cfg["img"]
    got = inspect(data, cfg["fmt"])
    sim.check(got is not None and got[0] is not None, pre + "-not-readable", f"{len(data)} bytes")
    a, igeolo, drv = got
    ow, oh = out if out is not None else (w, h)
    inside = x >= 0 and y >= 0 and w > 0 and h > 0 and x + w <= img["w"] and y + h <= img["h"]
    sim.check(drv == cfg["fmt"], pre + "-wrong-format", drv)
    if inside:
        sim.check(a.shape[1:] == (oh, ow), pre + "-wrong-size", f"{a.shape} for window {win} output {out}")
        sim.check(a.shape[0] == img.get("bands", 1), pre + "-wrong-bands", f"{a.shape}")
    if inside and (cfg["fmt"], cfg["comp"]) in LOSSLESS and cfg["ra"] == "NONE" and cfg["otype"] is None and (ow, oh) == (w, h) and \
            (cfg["fmt"] != "PNG" or img.get("dtype", "u1") in ("u1", "u2")):
        src = world.pixels(img)[:, y:y + h, x:x + w]
        sim.check(a.dtype == src.dtype and np.array_equal(a, src), pre + "-wrong-pixels",
                  lambda: f"window {win} of {img['kind']}: {int((a != src).sum())} of {src.size} values differ")
        sim.probe("pixel-exact-tiles")
    if inside and ref and ref.get("corners") and cfg["fmt"] == "NITF":
        sim.check(igeolo is not None, pre + "-corners-missing")
        g = parse_igeolo(igeolo)
        sim.check(g is not None, pre + "-corners-malformed", igeolo)
        # when GDAL itself knows a geographic transform its NITF writer records the centres of the corner pixels of the tile
        half = 0.0
        if img["kind"] in world.TIFF_KINDS or img["kind"] in ("nitfgeo", "rsm"):
            lon, lat = [c[0] for c in ref["corners"]], [c[1] for c in ref["corners"]]
            half = 0.51 * max((max(lon) - min(lon)) / ow, (max(lat) - min(lat)) / oh)
        tol = 1.01 / 3600 + half
        for (lo, la), (rlo, rla) in zip(g, ref["corners"]):
            sim.check(abs(lo - rlo) < tol and abs(la - rla) < tol, pre + "-wrong-corners",
                      lambda: f"{igeolo} for window {win}, expected {ref['corners']}")
        sim.probe("corner-checks")
