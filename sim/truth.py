"""Independent statements of the imaging equations, computed from the raw metadata of the generated images."""
import json
import math
import xml.etree.ElementTree as ET

import numpy as np

from . import smworld, world

A84, F84 = 6378137.0, 1 / 298.257223563
E2 = F84 * (2 - F84)


def ecef(lon, lat, h):
    n = A84 / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return np.array([(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - E2) + h) * math.sin(lat)])


def tre_fields(md, name):
    root = ET.fromstring(md["tre"][0])
    t = root.find(f".//tre[@name='{name}']")
    if t is None:
        return None
    return fields(t)


def fields(t):
    d = {f.get("name"): f.get("value") for f in t.findall("field")}
    for r in t.findall("repeated"):
        d[r.get("name")] = [float(f.get("value")) for f in r.iter("field")]
    return d


def rpc(md):
    d = tre_fields(md, "RPC00B")
    g = {k: float(d[k]) for k in ("LINE_OFF", "SAMP_OFF", "LAT_OFF", "LONG_OFF", "HEIGHT_OFF", "LINE_SCALE", "SAMP_SCALE", "LAT_SCALE", "LONG_SCALE", "HEIGHT_SCALE")}
    co = {k: next(v for n, v in d.items() if n.startswith(k) and isinstance(v, list)) for k in ("LINE_NUM", "LINE_DEN", "SAMP_NUM", "SAMP_DEN")}

    def w2i(lon, lat, h):
        p, l, z = (math.degrees(lat) - g["LAT_OFF"]) / g["LAT_SCALE"], (math.degrees(lon) - g["LONG_OFF"]) / g["LONG_SCALE"], (h - g["HEIGHT_OFF"]) / g["HEIGHT_SCALE"]
        t = np.array([1, l, p, z, l * p, l * z, p * z, l * l, p * p, z * z, p * l * z, l ** 3, l * p * p, l * z * z, l * l * p, p ** 3, p * z * z,
                      l * l * z, p * p * z, z ** 3])
        r = {k: float(np.dot(t, v)) for k, v in co.items()}
        return (r["SAMP_NUM"] / r["SAMP_DEN"] * g["SAMP_SCALE"] + g["SAMP_OFF"], r["LINE_NUM"] / r["LINE_DEN"] * g["LINE_SCALE"] + g["LINE_OFF"])
    return w2i


def homography(src, dst):
    """Projective map taking four points to four points."""
    m = []
    for (x, y), (u, v) in zip(src, dst):
        m += [[x, y, 1, 0, 0, 0, -u * x, -u * y, -u], [0, 0, 0, x, y, 1, -v * x, -v * y, -v]]
    h = np.linalg.svd(np.array(m, dtype=np.float64))[2][-1].reshape(3, 3)

    def f(x, y):
        r = h @ [x, y, 1.0]
        return float(r[0] / r[2]), float(r[1] / r[2])
    return f


def corners(md, w, h, x0=0, y0=0):
    """Corner coordinates of an image of that size, relative to a location near by (for the numerical condition)."""
    d = tre_fields(md, "CSCRNA")
    p = [(float(d[c + "CNR_LONG"]), float(d[c + "CNR_LAT"])) for c in ("UL", "UR", "LR", "LL")]
    c = np.mean(p, axis=0)
    f = homography([((a - c[0]) * 100, (b - c[1]) * 100) for a, b in p], [(0, 0), (1, 0), (1, 1), (0, 1)])

    def w2i(lon, lat, z):
        x, y = f((math.degrees(lon) - c[0]) * 100, (math.degrees(lat) - c[1]) * 100)
        return x * w - x0, y * h - y0
    return w2i


def chip(md, w2i):
    """Full image coordinates -> chip coordinates."""
    d = tre_fields(md, "ICHIPB")
    g = [[(float(d[f"{k}_COL_{c}"]), float(d[f"{k}_ROW_{c}"])) for c in ("11", "12", "22", "21")] for k in ("FI", "OP")]
    o = g[0][0]
    f = homography([((x - o[0]) / 100, (y - o[1]) / 100) for x, y in g[0]], [(x / 100, y / 100) for x, y in g[1]])

    def to_chip(*a):
        x, y = w2i(*a)
        x, y = f((x - o[0]) / 100, (y - o[1]) / 100)
        return x * 100, y * 100
    return to_chip


def gcps(md):
    p = [(g.GCPX, g.GCPY) for g in md["gcps"]]
    c = np.mean(p, axis=0)
    f = homography([((a - c[0]) * 100, (b - c[1]) * 100) for a, b in p], [(g.GCPPixel / 10, g.GCPLine / 10) for g in md["gcps"]])
    return lambda lon, lat, z: tuple(10 * v for v in f((math.degrees(lon) - c[0]) * 100, (math.degrees(lat) - c[1]) * 100))


def sections(md):
    """A sectioned RSM model: the low order polynomial selects the section. The second result tells how far the choice is from the border."""
    root = ET.fromstring(md["tre"][0])
    ida, pia = tre_fields(md, "RSMIDA"), tre_fields(md, "RSMPIA")
    secs = {}
    for t in root.findall(".//tre[@name='RSMPCA']"):
        one = {"tre": [md["tre"][0], t]}
        b = fields(t)
        secs[(int(b["RSN"]), int(b["CSN"]))] = rsm(one, b)
    g = {k: float(pia[k]) for k in ("RSSIZ", "CSSIZ")}
    first = (float(ida["MINR"]), float(ida["MINC"]))
    n = (int(pia["RNIS"]), int(pia["CNIS"]))
    ground = local(ida)

    def w2i(lon, lat, h):
        x, y, z = ground(lon, lat, h)
        rc = [sum(float(pia[p + k]) * v for k, v in (("0", 1), ("X", x), ("Y", y), ("Z", z), ("XX", x * x), ("XY", x * y), ("XZ", x * z), ("YY", y * y), ("YZ", y * z),
                                                     ("ZZ", z * z))) for p in "RC"]
        s = [(rc[0] - first[0]) / g["RSSIZ"], (rc[1] - first[1]) / g["CSSIZ"]]
        if any(abs(v - round(v)) < 1e-6 and 0 < round(v) < m for v, m in zip(s, n)):
            return None
        return secs[tuple(min(max(math.floor(v), 0), m - 1) + 1 for v, m in zip(s, n))](lon, lat, h)
    return w2i


def local(a):
    """Geodetic (radians, metres) -> coordinates of the ground domain of a replacement sensor model."""
    if a["GRNDD"] == "R":
        o = np.array([float(a[k]) for k in ("XUOR", "YUOR", "ZUOR")])
        u = np.array([[float(a[f"{c}U{r}R"]) for c in "XYZ"] for r in "XYZ"])     # rows: unit vectors of the local axes
        return lambda lon, lat, h: u @ (ecef(lon, lat, h) - o)
    if a["GRNDD"] == "H":
        return lambda lon, lat, h: [lon % (2 * math.pi), lat, h]
    return lambda lon, lat, h: [lon, lat, h]


def rsm(md, b=None):
    a, b = tre_fields(md, "RSMIDA"), b or tre_fields(md, "RSMPCA")
    ground = local(a)
    n = {k: float(b[k]) for k in ("RNRMO", "CNRMO", "XNRMO", "YNRMO", "ZNRMO", "RNRMSF", "CNRMSF", "XNRMSF", "YNRMSF", "ZNRMSF")}

    def poly(p, x):
        c, q = b[p + "PCF"], [int(b[f"{p}PWR{k}"]) for k in "XYZ"]
        v = 0.0
        m = 0
        for k in range(q[2] + 1):
            for j in range(q[1] + 1):
                for i in range(q[0] + 1):
                    v += c[m] * x[0] ** i * x[1] ** j * x[2] ** k
                    m += 1
        return v

    def w2i(lon, lat, h):
        x = ground(lon, lat, h)
        x = [(x[i] - n[k + "NRMO"]) / n[k + "NRMSF"] for i, k in enumerate("XYZ")]
        return (poly("CN", x) / poly("CD", x) * n["CNRMSF"] + n["CNRMO"], poly("RN", x) / poly("RD", x) * n["RNRMSF"] + n["RNRMO"])
    return w2i


def affine(md):
    from osgeo import osr
    gt = md["gt"]
    tr = None
    if md["wkt"]:
        s, d = osr.SpatialReference(md["wkt"]), osr.SpatialReference()
        d.ImportFromEPSG(4326)
        for x in (s, d):
            x.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        tr = osr.CoordinateTransformation(d, s)
    m = np.linalg.inv([[gt[1], gt[2]], [gt[4], gt[5]]])

    def w2i(lon, lat, h):
        x, y = math.degrees(lon), math.degrees(lat)
        if tr is not None:
            x, y = tr.TransformPoint(x, y)[:2]
        v = m @ [x - gt[0], y - gt[3]]
        return float(v[0]), float(v[1])
    return w2i


def world_to_image(spec):
    """The imaging equation (lon, lat in radians, height) -> (x, y), or None if there is no independent statement of it."""
    md = smworld.metadata({k: v for k, v in spec.items() if k in ("kind", "ver")})
    k, types = spec["kind"], spec.get("types")
    if (k in world.GT or k == "nitfgeo") and not types:
        with world.bare():
            return affine(dict(md, gt=spec.get("gt") or md["gt"]))
    if k in ("rpc", "rpcchip"):
        if types is None or "RPC" in types:
            f = rpc(md)
        elif types == ["PROJECTIVE"]:
            if k == "rpc":
                f = corners(md, *smworld.DIMS[k])
            else:
                d = tre_fields(md, "ICHIPB")
                f = corners(md, float(d["FI_COL"]), float(d["FI_ROW"]))
        else:
            return None
        return f if k == "rpc" else chip(md, f)
    if k in ("rsm", "rsmgeo", "rsm2pi"):
        return rsm(md)
    if k == "rsmsec":
        return sections(md)
    if k == "gtgcp" and not types:
        return gcps(md)
    return None


# ------------------------------------------------------------------------------------------------------------- radar
def _local(e):
    return e.tag.rsplit("}", 1)[-1]


def _find(e, path):
    for p in path.split("/"):
        e = next((c for c in e if _local(c) == p), None)
        if e is None:
            return None
    return e


def _poly1(e):
    return [float(c.text) for c in sorted((c for c in e if _local(c) == "Coef"), key=lambda c: int(c.get("exponent1")))]


def _poly2(e, x, y):
    return sum(float(c.text) * x ** int(c.get("exponent1")) * y ** int(c.get("exponent2")) for c in e if _local(c) == "Coef")


def _xyz(e):
    return np.array([float(_find(e, k).text) for k in ("X", "Y", "Z")])


def radar(kind):
    """Pixel -> position and velocity of the sensor when that pixel was imaged; and (scene center pixel, scene center ecef)."""
    if not (kind.startswith("sicd-") or kind in ("sidd", "sidd100")):
        return None
    name = f"example.sicd121.{kind[5:]}.xml" if kind.startswith("sicd-") else f"example.{kind}.xml"
    root = ET.fromstring(world.fixture(name))
    if kind.startswith("sicd-"):
        arp, toa, ss = _find(root, "Position/ARPPoly"), _find(root, "Grid/TimeCOAPoly"), [float(_find(root, f"Grid/{d}/SS").text) for d in ("Row", "Col")]
        ref = [float(_find(root, "ImageData/SCPPixel/" + d).text) for d in ("Row", "Col")]
        first = [float(_find(root, "ImageData/First" + d).text) for d in ("Row", "Col")]
        scp = _xyz(_find(root, "GeoData/SCP/ECF"))
        ref = [r - f for r, f in zip(ref, first)]
        plane = None
    else:
        pp = _find(root, "Measurement/PlaneProjection")
        arp, toa, ss = _find(root, "Measurement/ARPPoly"), _find(pp, "TimeCOAPoly"), [float(_find(pp, "SampleSpacing/" + d).text) for d in ("Row", "Col")]
        ref = [float(_find(pp, "ReferencePoint/Point/" + d).text) for d in ("Row", "Col")]
        scp = _xyz(_find(pp, "ReferencePoint/ECEF"))
        plane = [_xyz(_find(pp, f"ProductPlane/{d}UnitVector")) for d in ("Row", "Col")]
    polys = [_poly1(_find(arp, k)) for k in ("X", "Y", "Z")]

    def at(px):
        xr, yc = (px[1] - ref[0]) * ss[0], (px[0] - ref[1]) * ss[1]
        t = _poly2(toa, xr, yc)
        p = np.array([sum(c * t ** i for i, c in enumerate(q)) for q in polys])
        v = np.array([sum(i * c * t ** (i - 1) for i, c in enumerate(q) if i) for q in polys])
        return p, v, (scp + xr * plane[0] + yc * plane[1] if plane else None)
    return at, [ref[1], ref[0]], scp


def range_and_rate(pos, vel, ground):
    d = ground - pos
    r = float(np.linalg.norm(d))
    return r, float(-np.dot(vel, d) / r)
