"""C03: chips cut from SAR chips keep pointing at the original collection."""
import itertools
import math
import re
import xml.etree.ElementTree as ET

from .. import inject
from ..world import DES_WIDTHS

RUNS = {"quick": 260, "thorough": 7000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history in which tiles are cut from a SAR image, from those tiles and so on, each time through a new "
        "factory, with other requests before and after, failed attempts and retries; non-trivial if at least one tile of a tile was made and "
        "checked; distinct by the digest of the event trace")
REAL = ["load_gdal_dataset", "SensorModelFactory", "SICD and SIDD sensor model builders and models", "ChippedImageSensorModel",
        "GDALTileFactory", "SICDUpdater", "SIDDUpdater", "NITFDESAccessor", "generated SICD/SIDD data classes", "GDAL NITF driver"]
STUBS = ["storage is GDAL's in-memory file system", "GDAL functions wrapped to fail at chosen calls", "sensor model wrapper that fails at a chosen call"]
ASSUMPTIONS = ["chips have at least two rows and two columns (the interpolation of the SIDD specification needs them)",
               "resized SIDD chips follow the corner-pixel convention of the SIDD specification"]
STATE_MEASURE = "image kind, depth, resized or not, outcome of the attempts before"
KINDS = ["sicd-capella", "sicd-pfa", "sicd-rma", "sicd-rgaz", "sidd", "sidd-chip", "sidd", "sidd-chip", "sidd100"]


def gen(rng, tier, index):
    from .. import tileworld as T
    kind = rng.choice(KINDS)
    img = T.gen_image(rng, [kind])
    if kind.startswith("sidd") and rng.random() < 0.3:
        img["ver"] = "3.0.0"
    if rng.random() < 0.25:
        img["des2"] = rng.choice(["sicd", "note"]) if kind.startswith("sidd") else "note"
    if rng.random() < 0.4:
        img["deshdr"] = rng.randrange(3)
    other = T.gen_image(rng, [rng.choice(KINDS + ["rpc", "nitfgeo"])])
    ops = []
    sidd = kind.startswith("sidd")

    def decoy():
        r = rng.random()
        d = {"w": rng.choice([2, 3, 8, 16, 999]), "h": rng.choice([2, 3, 8, 16, 999]), "x": rng.randrange(97), "y": rng.randrange(97)}
        if r < 0.2:
            d["bad"] = rng.randrange(6)
        elif r < 0.4:
            d["out"] = [rng.choice([2, 5, 12, 32]), rng.choice([3, 7, 16])]
        elif r < 0.55:
            d["faults"] = [{"fn": rng.choice(["Translate", "VSIFOpenL", "VSIFReadL", "*"]), "n": 0, "kind": rng.choice(["err", "after"])}]
        elif r < 0.65:
            d["sm_fail"] = rng.randrange(4)
        d["on"] = rng.choice(["here", "here", "other", "root"])
        return d

    depth = rng.choice([1, 2, 2, 3, 3, 4, 5])
    for k in range(depth):
        o = {"w": rng.choice([2, 3, 12, 16, 24, 24, 32, 60]), "h": rng.choice([2, 3, 12, 16, 24, 24, 32, 60]), "x": rng.randrange(97),
             "y": rng.randrange(97), "pre": [decoy() for _ in range(rng.choice([0, 1, 1, 2, 3]))],
             "post": [decoy() for _ in range(rng.choice([0, 0, 1, 2]))], "sm": rng.random() < 0.7, "fresh": rng.random() < 0.7}
        if sidd and rng.random() < 0.4:
            o["out"] = [rng.choice([4, 9, 16, 30, 48]), rng.choice([4, 7, 16, 33])]
        if rng.random() < 0.3:
            o["faults"] = [{"fn": rng.choice(["Translate", "VSIFOpenL", "VSIStatL", "VSIFReadL"]), "n": 0, "kind": rng.choice(["err", "after", "raise"])}]
        elif rng.random() < 0.15:
            o["sm_fail"] = rng.randrange(4)
        inject.add_line_faults(rng, [o] + [d for d in o["pre"] + o["post"] if "sm_fail" not in d], 0.08)
        if k > 0 and rng.random() < 0.3:
            o["from"] = rng.randrange(4)      # another branch: cut from an earlier level again
        ops.append(o)
    return {"img": img, "other": other, "exc": rng.random() < 0.5, "ops": ops}


def warm(plan):
    from .. import world
    world.image_bytes(plan["img"])
    world.image_bytes(plan["other"])


# ---------------------------------------------------------------------------------------------------- reference side
def ref(spec):
    """Ground locations of pixels of the original image, from a pristine process."""
    from .. import world
    from aws.osml.gdal import load_gdal_dataset
    from aws.osml.photogrammetry import ImageCoordinate
    world.wipe()
    world.use_exceptions(False)
    world.put("/vsimem/ref/image", world.image_bytes(spec["img"]))
    ds, sm = load_gdal_dataset("/vsimem/ref/image")
    out = []
    for x, y in spec["px"]:
        g = [sm.image_to_world(ImageCoordinate(c)) for c in ([x, y], [x + 1, y], [x, y + 1])]
        out.append([[c.longitude, c.latitude, c.elevation] for c in g])
    return out


def ecef(lon, lat, h):
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    n = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    return [(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - e2) + h) * math.sin(lat)]


def dist(a, b):
    return math.dist(ecef(*a), ecef(*b))


DOC = re.compile(rb"<((?:\w+:)?)(SICD|SIDD)\b.*</\1\2>", re.S)


def documents(data):
    """(subheader before, XML text) of the SAR document of a NITF file, found in the raw bytes."""
    out = []
    for seg in data.split(b"DEXML_DATA_CONTENT")[1:]:
        m = DOC.search(seg)
        if m:
            pro = seg[:m.start()]
            i = pro.find(b"<?xml")
            out.append((pro if i < 0 else pro[:i], m.group(0).decode("utf-8")))
    return out


def fields(head):
    """Values of the fields of a DES subheader (text may be padded on either side)."""
    h, out = head.lstrip(), []
    for w in [2, 1] + DES_WIDTHS + [4]:
        out.append(h[:w].strip())
        h = h[w:]
    return out + [h.strip()]


def norm(t):
    t = (t or "").strip()
    try:
        return float(t)
    except ValueError:
        pass
    m = re.fullmatch(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(?:\.(\d*))?(Z?)", t)
    if m:
        return (m.group(1), float("0." + (m.group(2) or "0")), m.group(3))
    return {"true": "true", "1": "true"}.get(t, t)


def flatten(xml):
    root = ET.fromstring(xml)
    out = []

    def go(e, path):
        out.append((path, norm(e.text if len(e) == 0 else ""), tuple(sorted((k, norm(v)) for k, v in e.attrib.items() if "XMLSchema-instance" not in k))))
        n = {}
        for c in e:
            n[c.tag] = n.get(c.tag, 0) + 1
            go(c, f"{path}/{c.tag}[{n[c.tag]}]")
    go(root, root.tag)
    return out


def split(flat, sidd):
    """(values that describe the chip, everything else)."""
    own, rest = {}, []
    for p, v, a in flat:
        short = re.sub(r"\{[^}]*\}|\[1\]", "", p)
        if not sidd and re.fullmatch(r"SICD/ImageData/(FirstRow|FirstCol|NumRows|NumCols)", short):
            own[short.rsplit("/", 1)[1]] = v
        elif sidd and short.startswith("SIDD/DownstreamReprocessing/GeometricChip/"):
            if short.endswith(("/Row", "/Col")):
                own[short.split("GeometricChip/")[1]] = v
        elif sidd and (short == "SIDD/DownstreamReprocessing/GeometricChip" or short == "SIDD/DownstreamReprocessing"):
            pass
        else:
            rest.append((p, v, a))
    return own, rest


class Chip:
    """What the reference model knows about one image of the chain."""

    def __init__(self, W, H, sidd):
        self.W, self.H, self.sidd = W, H, sidd
        self.to_root = (0.0, 1.0, 0.0, 1.0)        # x_root = x0 + sx * x, y_root = y0 + sy * y
        self.own = None

    def child(self, x, y, w, h, ow, oh, base):
        c = Chip(ow, oh, self.sidd)
        x0, sx, y0, sy = self.to_root
        kx, ky = (w - 1) / (ow - 1), (h - 1) / (oh - 1)
        c.to_root = (x0 + sx * x, sx * kx, y0 + sy * y, sy * ky)
        if not self.sidd:
            c.own = {"FirstRow": base["FirstRow"] + c.to_root[2], "FirstCol": base["FirstCol"] + c.to_root[0], "NumRows": oh, "NumCols": ow}
        else:
            c.own = {"ChipSize/Row": oh, "ChipSize/Col": ow}
            for nm, cx, cy in (("UpperLeft", 0, 0), ("UpperRight", ow - 1, 0), ("LowerLeft", 0, oh - 1), ("LowerRight", ow - 1, oh - 1)):
                rx, ry = c.to_root[0] + c.to_root[1] * cx, c.to_root[2] + c.to_root[3] * cy
                if base:        # the original image is itself a chip: bilinear position between its recorded corners
                    u, v = ry / (base["ChipSize/Row"] - 1), rx / (base["ChipSize/Col"] - 1)
                    q = {}
                    for ax in ("Row", "Col"):
                        ul, ur = base[f"OriginalUpperLeftCoordinate/{ax}"], base[f"OriginalUpperRightCoordinate/{ax}"]
                        ll, lr = base[f"OriginalLowerLeftCoordinate/{ax}"], base[f"OriginalLowerRightCoordinate/{ax}"]
                        q[ax] = (ul * (1 - v) + ur * v) * (1 - u) + (ll * (1 - v) + lr * v) * u
                else:
                    q = {"Row": ry, "Col": rx}
                for ax in ("Row", "Col"):
                    c.own[f"Original{nm}Coordinate/{ax}"] = q[ax]
        return c


def run(plan, sim):
    import numpy as np
    from .. import world, tileworld as T
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    world.use_exceptions(plan["exc"])
    img = plan["img"]
    sidd = img["kind"].startswith("sidd")
    cfg = {"img": img, "fmt": "NITF", "comp": "NONE", "otype": None, "ra": "NONE", "sm": True}

    errors = itertools.count()

    class Flaky:
        def __init__(self, sm):
            self._sm, self.left = sm, None

        def image_to_world(self, *a, **k):
            if self.left is not None:
                if self.left == 0:
                    self.left = None
                    sim.fault("sensor-model:raise")
                    raise world.model_error(plan.get("index", 0) + next(errors))
                self.left -= 1
            return self._sm.image_to_world(*a, **k)

        def world_to_image(self, *a, **k):
            return self._sm.world_to_image(*a, **k)

    def attempt(f, win, out, o):
        sim.injector.arm(o.get("faults", []))
        if isinstance(f.sensor_model, Flaky):
            f.sensor_model.left = o.get("sm_fail")
        try:
            r = f.create_encoded_tile(list(win), None if out is None else tuple(out))
        except Exception as e:
            r = e
        for x in sim.injector.disarm():
            sim.fault(f"{x[0]}:{x[2]}")
        if isinstance(f.sensor_model, Flaky):
            f.sensor_model.left = None
        return r

    def window(o, W, H):
        w, h = min(o["w"], W), min(o["h"], H)
        return [o["x"] % (W - w + 1), o["y"] % (H - h + 1), w, h]

    root_bytes = world.image_bytes(img)
    world.put("/vsimem/in/root", root_bytes)
    docs0 = documents(root_bytes)
    head0, xml0 = docs0[0]
    base, rest0 = split(flatten(xml0), sidd)
    arr0 = world.pixels(img)

    world.put("/vsimem/in/other", world.image_bytes(plan["other"]))
    other = T.open_factory(dict(cfg, img=plan["other"]), "/vsimem/in/other", Flaky)

    # levels: (path, Chip, pixels or None, open factory or None)
    levels = [["/vsimem/in/root", Chip(img["w"], img["h"], sidd), arr0, None]]

    def factory(k, use_sm, fresh):
        if levels[k][3] is None or fresh:
            levels[k][3] = T.open_factory(dict(cfg, sm=use_sm), levels[k][0], Flaky)
        return levels[k][3]

    hist = []
    for o in plan["ops"]:
        k = o["from"] % len(levels) if "from" in o else len(levels) - 1
        if levels[k][1].W < 3 or levels[k][1].H < 3:
            k = 0
        path, chip, arr, _ = levels[k]
        fac = factory(k, o["sm"], o["fresh"])

        def decoys(lst):
            for d in lst:
                if d["on"] == "other":
                    f, W, H = other[2], plan["other"]["w"], plan["other"]["h"]
                elif d["on"] == "root":
                    f, W, H = factory(0, True, False)[2], img["w"], img["h"]
                else:
                    f, W, H = fac[2], chip.W, chip.H
                win = window(d, W, H)
                if "bad" in d:
                    win = [[W + 5, 0, 8, 8], [0, H + 9, 8, 8], [-200, -200, 10, 10], [0, 0, 0, 0], [W - 2, H - 2, 16, 16], [0, 0, W * 3, H * 3]][d["bad"]]
                r = attempt(f, win, d.get("out"), d)
                sim.event("decoy", d["on"], win, type(r).__name__)
                sim.probe("decoys")

        decoys(o["pre"])
        x, y, w, h = win = window(o, chip.W, chip.H)
        out = o.get("out") if sidd else None
        ow, oh = out or (w, h)
        if o.get("faults") or o.get("sm_fail") is not None:
            r = attempt(fac[2], win, out, o)
            sim.event("attempt", win, out, type(r).__name__)
            sim.probe("failed-attempts")
            hist.append("attempt")
        r = attempt(fac[2], win, out, {})
        sim.check(r is not None and not isinstance(r, Exception), "chip-refused", lambda: f"{img['kind']} depth {k + 1} window {win} output {out}: {r!r}")
        data = bytes(r)
        sim.event("chip", k, win, out, T.sha(data, "NITF"))
        decoys(o["post"])

        # the metadata of the chip against the reference model
        where = f"{img['kind']} depth {k + 1} window {win} output {out}"
        new = chip.child(x, y, w, h, ow, oh, base)
        docs = documents(data)
        sim.check(len(docs) >= 1, "metadata-missing", where)
        head, xml = docs[0]
        own, rest = split(flatten(xml), sidd)
        sim.check(len(head) == len(head0) and fields(head) == fields(head0), "des-header-changed", lambda: f"{where}: {head!r} was {head0!r}")
        sim.check(set(own) == set(new.own), "chip-metadata-incomplete", lambda: f"{where}: {sorted(own)}")
        for n, v in new.own.items():
            sim.check(isinstance(own[n], float) and abs(own[n] - v) < 1e-6 * max(1.0, abs(v)), "chip-metadata-wrong",
                      lambda: f"{where}: {n} is {own[n]}, should be {v}")
        if rest != rest0:
            diff = [(a, b) for a, b in zip(rest, rest0) if a != b][:2]
            sim.check(False, "metadata-changed", lambda: f"{where}: {len(rest)} and {len(rest0)} elements, first differences {diff}")

        # pixels and geolocation of the reopened chip
        p = f"/vsimem/in/chip{len(levels)}"
        world.put(p, data)
        lv = [p, new, None, None]
        levels.append(lv)
        ds, sm, _ = lv[3] = T.open_factory(dict(cfg, sm=o["sm"]), p, Flaky)
        with world.bare():
            a = ds.ReadAsArray()
        sim.check(a is not None, "chip-not-readable", where)
        a = a if a.ndim == 3 else a[None]
        sim.check(a.shape[1:] == (oh, ow), "chip-wrong-size", lambda: f"{where}: {a.shape}")
        if (ow, oh) == (w, h):
            want = arr[:, y:y + h, x:x + w]
            sim.probe("pixel-exact-chips")
        else:
            ix = np.floor((np.arange(ow) + 0.5) * w / ow + 1e-9).astype(int)
            iy = np.floor((np.arange(oh) + 0.5) * h / oh + 1e-9).astype(int)
            want = arr[:, y:y + h, x:x + w][:, iy][:, :, ix]
        if (ow, oh) == (w, h):
            sim.check(np.array_equal(a, want), "chip-wrong-pixels", lambda: f"{where}: {int((a != want).sum())} of {a.size}")
        else:
            sim.check(np.isin(a, arr[:, y:y + h, x:x + w]).all(), "chip-invented-pixels", where)
            close = np.mean(a == want)
            sim.check(close > 0.5, "chip-wrong-pixels", lambda: f"{where}: only {close:.2f} of the resized pixels match")
            sim.probe("resized-chips")
        lv[2] = a
        sim.check(sm is not None, "chip-without-sensor-model", where)
        pts = sorted({(0, 0), (ow - 1, oh - 1), (ow - 1, 0), ((ow - 1) / 2, (oh - 1) / 3)})
        tr = new.to_root
        rootpx = [[tr[0] + tr[1] * px, tr[2] + tr[3] * py] for px, py in pts]
        refs = sim.ref({"img": img, "px": rootpx})
        for (px, py), rp, g in zip(pts, rootpx, refs):
            c = sm.image_to_world(ImageCoordinate([px, py]))
            got = [c.longitude, c.latitude, c.elevation]
            gsd = min(dist(g[0], g[1]), dist(g[0], g[2]))
            d = dist(got, g[0])
            sim.check(d < 0.05 * gsd, "chip-misplaced",
                      lambda: f"{where}: pixel ({px},{py}) is {d / gsd:.3f} pixels away from pixel {rp} of the original")
            b = sm.world_to_image(GeodeticWorldCoordinate(g[0]))
            e = max(abs(b.x - px) * tr[1], abs(b.y - py) * tr[3])
            sim.check(e < 0.05, "chip-misplaced-inverse", lambda: f"{where}: ground of pixel ({px},{py}) maps to ({b.x},{b.y})")
            sim.probe("geolocated-points")
        sim.probe("chips")
        if k > 0:
            sim.probe("chips-of-chips")
        hist.append((k, out is not None))
        sim.state((img["kind"], hist[-3:]))


def nontrivial(s):
    return s["probes"].get("chips-of-chips", 0) > 0
