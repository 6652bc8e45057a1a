"""The simulated world: source images and elevation tiles on simulated storage (GDAL's in-memory file system), built
deterministically from small specifications, and helpers to damage, cut off and restore that storage."""
import json
import math
import os

import numpy as np

from . import inject, sched

HERE = os.path.dirname(os.path.abspath(__file__))
FIX = os.path.join(os.path.dirname(HERE), "fixtures")
_cache = {}
_tres = None
DES_WIDTHS = [2, 11, 2, 20, 2, 8, 4, 1, 8, 43, 1, 40, 1, 8, 15]
DES_HEADER = "01U" + "".join(" " * w for w in DES_WIDTHS) + "0000"


def G(name):
    """The real GDAL function behind a seam."""
    from osgeo import gdal
    return inject.real(getattr(gdal, name))


def tres():
    global _tres
    if _tres is None:
        _tres = json.load(open(os.path.join(FIX, "tres.json")))
    return _tres


def fixture(name):
    key = ("fx", name)
    if key not in _cache:
        _cache[key] = open(os.path.join(FIX, name), encoding="utf-8").read()
    return _cache[key]


# ---------------------------------------------------------------------------------------------------------- storage
class bare:
    """Harness code on the storage: no faults, no scheduling points, GDAL reports errors by return value."""

    def __enter__(self):
        from osgeo import gdal
        self.inj = inject.get_active()
        inject.set_active(None)
        self.q = sched.quiet()
        self.q.__enter__()
        self.exc = gdal.GetUseExceptions()
        if self.exc:
            gdal.DontUseExceptions()

    def __exit__(self, *a):
        from osgeo import gdal
        if self.exc:
            gdal.UseExceptions()
        self.q.__exit__()
        inject.set_active(self.inj)


def put(path, data):
    with bare():
        G("FileFromMemBuffer")(path, bytes(data))


def get(path):
    with bare():
        st = G("VSIStatL")(path)
        if st is None:
            return None
        f = G("VSIFOpenL")(path, "rb")
        if f is None:
            return None
        b = G("VSIFReadL")(1, st.size, f) if st.size else b""
        G("VSIFCloseL")(f)
        return bytes(b) if b is not None else b""


def unlink(path):
    with bare():
        G("Unlink")(path)


def model_error(n):
    """What a sensor model or a user supplied elevation model may raise."""
    kinds = [ValueError, FloatingPointError, RuntimeError, KeyError, ZeroDivisionError, OSError, TypeError]
    return kinds[n % len(kinds)]("simulated sensor model failure")


def overwrite(path, data):
    """Change the bytes of a file in place, as seen by everyone who has it open."""
    from osgeo import gdal
    with bare():
        f = G("VSIFOpenL")(path, "rb+")
        if f is None:
            return False
        gdal.VSIFTruncateL(f, 0)
        gdal.VSIFSeekL(f, 0, 0)
        if data:
            gdal.VSIFWriteL(bytes(data), 1, len(data), f)
        G("VSIFCloseL")(f)
        return True


def listing(root="/vsimem/"):
    """All files below root, sorted."""
    out = []
    with bare():
        def walk(d):
            for n in sorted(G("ReadDir")(d) or []):
                if n in (".", ".."):
                    continue
                p = d.rstrip("/") + "/" + n
                st = G("VSIStatL")(p)
                if st is not None and st.IsDirectory():
                    out.append(p + "/")
                    walk(p)
                else:
                    out.append(p)
        walk(root)
    return sorted(set(out))


def wipe():
    with bare():
        for n in G("ReadDir")("/vsimem/") or []:
            if n not in (".", ".."):
                G("RmdirRecursive")("/vsimem/" + n)
                G("Unlink")("/vsimem/" + n)


def use_exceptions(on):
    from osgeo import gdal
    if on:
        gdal.UseExceptions()
    else:
        gdal.DontUseExceptions()


# ----------------------------------------------------------------------------------------------------------- images
DT = {"u1": 1, "u2": 2, "i2": 3, "u4": 4, "i4": 5, "f4": 6, "f8": 7}


def pixels(spec):
    """The pixel values of an image specification, shape (bands, h, w)."""
    w, h, b = spec["w"], spec["h"], spec.get("bands", 1)
    dt = spec.get("dtype", "u1")
    rs = np.random.RandomState(spec.get("pseed", 1))
    yy, xx = np.mgrid[0:h, 0:w].astype("f8")
    out = []
    for i in range(b):
        style = spec.get("style", "noise")
        if style == "noise":
            a = rs.randint(1, 250, size=(h, w)).astype("f8")
        else:  # smooth
            p = rs.uniform(0, 6.28, size=4)
            amp = [45, 12, 30, 20][spec.get("pseed", 1) % 4] if spec.get("anchor") else 45
            a = 128 + amp * np.sin(xx / spec.get("wl", 18.0) + p[0]) + amp * np.cos(yy / (spec.get("wl", 18.0) * 0.8) + p[1])
            a = np.floor(a)
        if spec.get("anchor"):      # different images with the same range of values
            a[0, 0], a[-1, -1] = 3, 251
        if dt in ("u2", "i2", "u4", "i4"):
            a = a * (13 if dt[1] == "2" else 1000003) + (0 if dt[0] == "u" else -800)
        elif dt in ("f4", "f8"):
            a = a * 1.5 - 100.25
        out.append(a)
    return np.stack(out).astype({"u1": "uint8", "u2": "uint16", "i2": "int16", "u4": "uint32", "i4": "int32", "f4": "float32",
                                 "f8": "float64"}[dt])


GT = {"gt4326": ((10.0, 0.0005, 0.0, 50.0, 0.0, -0.0004), 4326), "gt": ((-71.5, 0.0008, 0.0, 42.25, 0.0, -0.0006), None),
      "gtutm": ((500000.0, 10.0, 0.0, 4500000.0, 0.0, -10.0), 32633), "gtsouth": ((25.125, 0.0007, 0.0, -12.5, 0.0, -0.0005), 4326),
      "gtrot": ((10.0, 0.0005, 0.0001, 50.0, 0.0001, -0.0004), 4326),
      # crosses the antimeridian
      "gtdate": ((816900.0, 10.0, 0.0, 8120000.0, 0.0, -10.0), 32760)}
# two local grids that differ in nothing but their parameters
SITE = ('PROJCS["site grid",GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],'
        'UNIT["degree",0.0174532925199433]],PROJECTION["Transverse_Mercator"],PARAMETER["latitude_of_origin",%s],'
        'PARAMETER["central_meridian",%s],PARAMETER["scale_factor",1],PARAMETER["false_easting",10000],PARAMETER["false_northing",20000],'
        'UNIT["metre",1]]')
GT["gtsite"] = ((9000.0, 10.0, 0.0, 24000.0, 0.0, -10.0), SITE % (48, 9))
GT["gtsite2"] = ((9000.0, 10.0, 0.0, 24000.0, 0.0, -10.0), SITE % (-33, 151))
NITF_KINDS = ["nitf", "nitfgeo", "rpc", "rpcchip", "rsm", "rsmsec", "rsmgeo", "rsm2pi", "sicd-capella", "sicd-pfa", "sicd-rma", "sicd-rgaz",
              "sidd", "sidd-chip", "sidd100"]
TIFF_KINDS = ["tif", "gt", "gt4326", "gtutm", "gtgcp", "gtsouth", "gtrot", "gtsite", "gtsite2"]
IGEOLO = "334000N1170000W334000N1160000W330000N1160000W330000N1170000W"


def nitf_options(spec):
    k, t = spec["kind"], tres()
    if k == "nitf":
        o = []
    elif k == "nitfgeo":
        o = ["ICORDS=G", "IGEOLO=" + IGEOLO]
    elif k == "rpc":
        o = ["TRE=RPC00B=" + t["RPC00B"], "TRE=CSCRNA=" + t["CSCRNA"]]
    elif k == "rpcchip":
        o = ["TRE=RPC00B=" + t["RPC00B_CHIP"], "TRE=ICHIPB=" + t["ICHIPB"], "TRE=CSCRNA=" + t["CSCRNA"]]
    elif k == "rsm":
        o = ["TRE=RSMIDA=" + t["RSMIDA"], "TRE=RSMPCA=" + t["RSMPCA"], "ICORDS=G", "IGEOLO=" + IGEOLO]
    elif k in ("rsmgeo", "rsm2pi"):      # ground domains in longitude and latitude, [-pi, pi) and [0, 2 pi)
        o = ["TRE=RSMIDA=" + t["RSMIDA_" + k[3:].upper()], "TRE=RSMPCA=" + t["RSMPCA_" + k[3:].upper()]]
    elif k == "rsmsec":
        o = ["TRE=RSMIDA=" + t["RSMIDA"], "TRE=RSMPIA=" + t["RSMPIA"]] + ["TRE=RSMPCA=" + x for x in t["RSMPCA_SECTIONS"]]
    elif k.startswith("sicd-"):
        xml = spec.get("xml") or fixture(f"example.sicd121.{k[5:]}.xml")
        o = ["DES=XML_DATA_CONTENT=" + des_header(spec) + sicd_version(xml, spec.get("ver"))] + more_des(spec) + ["ICAT=SAR", "ISUBCAT=I,Q", "IREP=NODISPLY",
             "IREPBAND= , "]
    elif k.startswith("sidd"):
        xml = spec.get("xml") or fixture(f"example.{k}.xml")
        if spec.get("ver"):
            xml = xml.replace("urn:SIDD:2.0.0", "urn:SIDD:" + spec["ver"])
        o = ["DES=XML_DATA_CONTENT=" + des_header(spec) + xml] + more_des(spec)
    else:
        raise AssertionError(k)
    if spec.get("block"):
        o += [f"BLOCKXSIZE={spec['block']}", f"BLOCKYSIZE={spec['block']}"]
    return o


def des_header(spec):
    """Security and user fields of the DES subheader; variant 0 is blank."""
    k = spec.get("deshdr", 0)
    if k == 0:
        return DES_HEADER
    vals = ["US", "", "XX", "USA", "DD", "20450101", "25X1", "S", "20300101", "simulated classification text", "O", "authority", "A", "20200101", "7"]
    h = "01U" + "".join((v if k == 2 or i % 2 else "").ljust(w)[:w] for i, (w, v) in enumerate(zip(DES_WIDTHS, vals)))
    return h + "0000"


def more_des(spec):
    """Further XML segments behind the SAR document (a SIDD product often carries the SICD document of its source too)."""
    k = spec.get("des2")
    if not k:
        return []
    doc = fixture("example.sicd121.capella.xml") if k == "sicd" else "<note><text>unrelated</text></note>"
    return ["DES=XML_DATA_CONTENT=" + DES_HEADER + doc]


def sicd_version(xml, ver):
    return xml if not ver else xml.replace("urn:SICD:1.2.1", "urn:SICD:" + ver)


def image_bytes(spec):
    """Encoded bytes of an image specification (cached)."""
    from osgeo import gdal, osr
    key = json.dumps(spec, sort_keys=True)
    if key in _cache:
        return _cache[key]
    with bare():
        a = pixels(spec)
        m = gdal.GetDriverByName("MEM").Create("", spec["w"], spec["h"], a.shape[0], DT[spec.get("dtype", "u1")])
        for i in range(a.shape[0]):
            m.GetRasterBand(i + 1).WriteArray(a[i])
        if spec.get("nodata") is not None:
            m.GetRasterBand(1).SetNoDataValue(spec["nodata"])
        if spec["kind"] in NITF_KINDS:
            p = "/vsimem/_mk/m.ntf"
            r = gdal.GetDriverByName("NITF").CreateCopy(p, m, options=nitf_options(spec))
        else:
            k = spec["kind"]
            if k in GT:
                gt, epsg = GT[k]
                m.SetGeoTransform(spec.get("gt") or gt)
                if epsg:
                    sr = osr.SpatialReference()
                    if isinstance(epsg, int):
                        sr.ImportFromEPSG(epsg)
                    else:
                        sr.ImportFromWkt(epsg)
                    m.SetProjection(sr.ExportToWkt())
            elif k == "gtgcp":
                sr = osr.SpatialReference()
                sr.ImportFromEPSG(4326)
                w, h = spec["w"], spec["h"]
                m.SetGCPs([gdal.GCP(10, 50, 0, 0, 0), gdal.GCP(10.1, 50.01, 0, w, 0), gdal.GCP(10.1, 49.91, 0, w, h),
                           gdal.GCP(10.01, 49.9, 0, 0, h)], sr.ExportToWkt())
            p = "/vsimem/_mk/m.tif"
            o = []
            if spec.get("block"):
                o += ["TILED=YES", f"BLOCKXSIZE={spec['block']}", f"BLOCKYSIZE={spec['block']}"]
            if spec.get("comp"):
                o += ["COMPRESS=" + spec["comp"]]
            r = gdal.GetDriverByName("GTiff").CreateCopy(p, m, options=o)
        if r is None:
            raise AssertionError(f"cannot build {spec}: {gdal.GetLastErrorMsg()}")
        r.FlushCache()
        r = None
        if spec.get("ovr"):
            d = G("OpenEx")(p, 1)
            d.BuildOverviews("AVERAGE", spec["ovr"])
            d = None
        b = get(p)
        for f in listing("/vsimem/_mk/"):
            G("Unlink")(f)
    if len(_cache) > 300:
        _cache.clear()
    _cache[key] = b
    return b


# --------------------------------------------------------------------------------------------------------- elevation
def dem_posts(spec):
    """Posts of an elevation tile: {"lon","lat" (degrees, lower left), "n": posts per side, "seed", "nx","ny", "dtype"}"""
    rs = np.random.RandomState(spec["seed"])
    ny, nx = spec.get("ny", spec["n"]), spec.get("nx", spec["n"])
    lo, hi = spec.get("range", [0, 3000])
    if spec.get("style") == "smooth":
        yy, xx = np.mgrid[0:ny, 0:nx].astype("f8")
        a = (lo + hi) / 2 + (hi - lo) / 2 * np.sin(xx / nx * 3 + rs.uniform(0, 6)) * np.cos(yy / ny * 3 + rs.uniform(0, 6))
        a = np.floor(a)
    else:
        a = rs.randint(lo, hi, size=(ny, nx)).astype("f8")
    return a.astype("int16" if spec.get("dtype", "i2") == "i2" else "float32")


def dem_geotransform(spec):
    ny, nx = spec.get("ny", spec["n"]), spec.get("nx", spec["n"])
    cov = spec.get("span", 1.0)
    return (spec["lon"], cov / nx, 0.0, spec["lat"] + cov, 0.0, -cov / ny)


def dem_bytes(spec):
    from osgeo import gdal
    key = "dem" + json.dumps(spec, sort_keys=True)
    if key in _cache:
        return _cache[key]
    with bare():
        a = dem_posts(spec)
        p = "/vsimem/_mk/d.tif"
        m = gdal.GetDriverByName("MEM").Create("", a.shape[1], a.shape[0], 1, 3 if spec.get("dtype", "i2") == "i2" else 6)
        m.GetRasterBand(1).WriteArray(a)
        if not spec.get("nogeo"):
            m.SetGeoTransform(dem_geotransform(spec))
        r = gdal.GetDriverByName("GTiff").CreateCopy(p, m, options=(["COMPRESS=" + spec["comp"]] if spec.get("comp") else []) +
                                                        ([f"BLOCKYSIZE={spec['rows']}"] if spec.get("rows") else []))
        r.FlushCache()
        r = None
        b = get(p)
        for f in listing("/vsimem/_mk/"):
            G("Unlink")(f)
    _cache[key] = b
    return b


# -------------------------------------------------------------------------------------------------------------- misc
def damage(data, dmg):
    """Apply damage operations to bytes: ["cut", n] ["flip", off, mask] ["set", off, byte] ["fill", off, n, byte] ["copy", a, b, n]"""
    b = bytearray(data)
    for d in dmg:
        if not b:
            break
        op = d[0]
        if op == "cut":
            b = b[:d[1]]
        elif op == "flip":
            b[d[1] % len(b)] ^= d[2]
        elif op == "set":
            b[d[1] % len(b)] = d[2]
        elif op == "fill":
            o = d[1] % len(b)
            n = len(b[o:o + d[2]])
            b[o:o + n] = bytes([d[3]]) * n
        elif op == "copy":
            o, s = d[1] % len(b), d[2] % len(b)
            c = bytes(b[s:s + d[3]])
            n = min(len(c), len(b) - o)
            b[o:o + n] = c[:n]
        else:
            raise AssertionError(op)
    return bytes(b)
