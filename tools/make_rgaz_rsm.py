"""Development-time tool: a SICD document of a range-Doppler image (derived from the polar format example) and replacement
sensor models in geodetic ground domains (fitted to the rectangular example).  Not used by the checks."""
import json
import math
import re
import sys
import xml.etree.ElementTree as ET

import numpy as np

sys.path.insert(0, "/repo/src")
sys.path.insert(0, "/verif/tools")

s = open("/verif/fixtures/example.sicd121.pfa.xml").read()
ang, rng = (float(re.search(f"<{t}>(.*?)</{t}>", s).group(1)) for t in ("DopplerConeAng", "SlantRange"))
look = 1.0 if "<SideOfTrack>L" in s else -1.0
s = s.replace("<ImageFormAlgo>PFA<", "<ImageFormAlgo>RGAZCOMP<")
s, n = re.subn(r"<PFA>.*</PFA>", f"""<RgAzComp><AzSF>{-look * math.sin(math.radians(ang)) / rng!r}</AzSF><KazPoly order1="1"><Coef exponent1="0">0</Coef><Coef exponent1="1">0.001</Coef></KazPoly></RgAzComp>""", s, flags=re.S)
assert n == 1
open("/verif/fixtures/example.sicd121.rgaz.xml", "w").write(s)

D = "/repo/test/data/"
SPEC = ET.parse("/usr/share/gdal/nitf_spec.xml").getroot()


def tre(name):
    return ET.parse(D + "i_6130a_truncated_tres.xml").getroot().find(f"./tre[@name='{name}']")


def sci(x):
    return f"{x:+.14E}"


def encode(t, overrides, polys=None):
    spec = SPEC.find(f".//tre[@name='{t.get('name')}']")
    vals = {f.get("name"): f.get("value") for f in t.findall("field")}
    vals.update(overrides)
    out = ""
    for el in spec:
        if el.tag == "field":
            v = vals.get(el.get("name")) or ""
            assert len(v) <= int(el.get("length")), (el.attrib, v)
            out += v.ljust(int(el.get("length")))
        else:
            for c in polys[el.get("name")]:
                out += sci(c)
    return out


from aws.osml.gdal.rsm_sensor_model_builder import RSMSensorModelBuilder  # noqa
from aws.osml.photogrammetry import GeodeticWorldCoordinate  # noqa
ida, pca = tre("RSMIDA"), tre("RSMPCA")
root = ET.Element("tres")
root.append(ida)
root.append(pca)
m = RSMSensorModelBuilder(root).build()
box = m.context.ground_domain.geodetic_lonlat_bbox
el = [v.elevation for v in m.context.ground_domain.geodetic_ground_domain_vertices]
lo, hi = min(el), max(el)
lo, hi = max(lo, -100.0), min(hi, 1500.0)
print([math.degrees(b) for b in box], lo, hi)
r = np.random.RandomState(1)
P = np.column_stack([r.uniform(box[0], box[2], 40000), r.uniform(box[1], box[3], 40000), r.uniform(lo, hi, 40000)])
I = np.array([(lambda c: [c.y, c.x])(m.world_to_image(GeodeticWorldCoordinate(list(p)))) for p in P])
K = (I[:, 0] > -500) & (I[:, 0] < 9800) & (I[:, 1] > -500) & (I[:, 1] < 9600)
P, I = P[K], I[K]
print(len(P))
off = np.array([(box[0] + box[2]) / 2, (box[1] + box[3]) / 2, (lo + hi) / 2])
sf = np.array([(box[2] - box[0]) / 2, (box[3] - box[1]) / 2, (hi - lo) / 2])
N = (P - off) / sf
pw = (1, 1, 1)
terms = [(i, j, k) for k in range(pw[2] + 1) for j in range(pw[1] + 1) for i in range(pw[0] + 1)]
A = np.column_stack([N[:, 0] ** i * N[:, 1] ** j * N[:, 2] ** k for i, j, k in terms])
vals = {f.get("name"): f.get("value") for f in pca.findall("field")}
ro, rs_, co, cs = (float(vals[k]) for k in ("RNRMO", "RNRMSF", "CNRMO", "CNRMSF"))


def rational(v):
    """num / den = v, den = 1 + ...; linearised least squares, reweighted by the denominator."""
    w = np.ones(len(v))
    for _ in range(5):
        x = np.linalg.lstsq(np.column_stack([A, -A[:, 1:] * v[:, None]]) * w[:, None], v * w, rcond=None)[0]
        num, den = x[:len(terms)], np.concatenate([[1.0], x[len(terms):]])
        w = 1 / np.abs(A @ den)
    print("fit", np.abs((A @ num) / (A @ den) - v).max() * rs_)
    return num, den


rn, rd = rational((I[:, 0] - ro) / rs_)
cn, cd = rational((I[:, 1] - co) / cs)
t = json.load(open("/verif/fixtures/tres.json"))
for name, grndd, shift in (("GEO", "G", 0.0), ("2PI", "H", 2 * math.pi)):
    ov = {"GRNDD": grndd}
    for k in ("XUOR", "YUOR", "ZUOR") + tuple(f"{a}U{b}R" for a in "XYZ" for b in "XYZ"):
        ov[k] = ""
    n = 1
    for z in (lo, hi):
        for y in (box[1], box[3]):
            for x in (box[0], box[2]):
                ov.update({f"V{n}X": sci(x + shift), f"V{n}Y": sci(y), f"V{n}Z": sci(z)})
                n += 1
    ov.update(GRPX=sci(off[0] + shift), GRPY=sci(off[1]), GRPZ=sci(0.0))
    t["RSMIDA_" + name] = encode(ida, ov)
    po = {"XNRMO": sci(off[0] + shift), "YNRMO": sci(off[1]), "ZNRMO": sci(off[2]), "XNRMSF": sci(sf[0]), "YNRMSF": sci(sf[1]), "ZNRMSF": sci(sf[2])}
    for p in ("RN", "RD", "CN", "CD"):
        po.update({p + "PWRX": str(pw[0]), p + "PWRY": str(pw[1]), p + "PWRZ": str(pw[2]), p + "TRMS": f"{len(terms):03d}"})
    t["RSMPCA_" + name] = encode(pca, po, {"RNPCF": rn, "RDPCF": rd, "CNPCF": cn, "CDPCF": cd})
json.dump(t, open("/verif/fixtures/tres.json", "w"), indent=0)
