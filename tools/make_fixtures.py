"""Development-time tool: encodes the TRE values of the repository's XML fixtures as NITF TRE strings
(fixtures/tres.json) using the field widths of GDAL's nitf_spec.xml.  Not used by the checks."""
import json
import sys
import xml.etree.ElementTree as ET

import numpy as np

SPEC = ET.parse("/usr/share/gdal/nitf_spec.xml").getroot()
D = "/repo/test/data/"


def enc_field(el, val):
    n = int(el.get("length"))
    v = (val or "")
    assert len(v) <= n, (el.attrib, v)
    return v.ljust(n)


def encode(tre, overrides=None):
    overrides = overrides or {}
    spec = SPEC.find(f".//tre[@name='{tre.get('name')}']")
    vals = {f.get("name"): f.get("value") for f in tre.findall("field")}
    vals.update(overrides)
    out = ""
    for el in spec:
        if el.tag == "field":
            out += enc_field(el, vals.get(el.get("name")))
        elif el.tag == "loop":
            rep = tre.find(f"./repeated[@name='{el.get('name')}']")
            for g in rep:
                for f, s in zip(g, el):
                    out += enc_field(s, f.get("value"))
        elif el.tag == "if":
            raise SystemExit("if")
    L = spec.get("length")
    assert L is None or len(out) == int(L), (tre.get("name"), len(out), L)
    return out


def tre(path, name):
    return ET.parse(D + path).getroot().find(f"./tre[@name='{name}']")


out = {}
out["RPC00B"] = encode(tre("sample-metadata-ms-rpc00b.xml", "RPC00B"))
out["CSCRNA"] = encode(tre("sample-metadata-ms-rpc00b.xml", "CSCRNA"))
out["RPC00B_CHIP"] = encode(tre("sample-metadata-rpc00b-ichipb.xml", "RPC00B"))
out["ICHIPB"] = encode(tre("sample-metadata-rpc00b-ichipb.xml", "ICHIPB"))
rsmida = tre("i_6130a_truncated_tres.xml", "RSMIDA")
rsmpca = tre("i_6130a_truncated_tres.xml", "RSMPCA")
out["RSMIDA"] = encode(rsmida)
out["RSMPCA"] = encode(rsmpca)


def sci(x):
    return f"{x:+.14E}"


# a 2 x 2 sectioned model: same polynomials with a small known offset per section
secs = []
for r in (1, 2):
    for c in (1, 2):
        secs.append(encode(rsmpca, {"RSN": f"{r:03d}", "CSN": f"{c:03d}",
                                    "RNRMO": sci(4646.0 + 0.02 * r), "CNRMO": sci(4561.0 + 0.03 * c)}))
out["RSMPCA_SECTIONS"] = secs
# least squares fit of the low order polynomial
sys.path.insert(0, "/repo/src")
from aws.osml.gdal.rsm_sensor_model_builder import RSMSensorModelBuilder  # noqa
from aws.osml.photogrammetry import WorldCoordinate  # noqa
root = ET.Element("tres")
root.append(rsmida)
root.append(rsmpca)
m = RSMSensorModelBuilder(root).build()
rng = np.random.RandomState(1)
A, R, C = [], [], []
for _ in range(400):
    x, y, z = rng.uniform(0, 5000), rng.uniform(0, 4700), rng.uniform(-500, 500)
    ic = m.ground_domain_to_image(WorldCoordinate([x, y, z]))
    A.append([1, x, y, z, x * x, x * y, x * z, y * y, y * z, z * z])
    R.append(ic.y)
    C.append(ic.x)
rc = np.linalg.lstsq(np.array(A), np.array(R), rcond=None)[0]
cc = np.linalg.lstsq(np.array(A), np.array(C), rcond=None)[0]
print(np.abs(np.array(A) @ rc - R).max())
ov = {"IID": "2_8", "EDITION": "1101222272-2", "RNIS": "002", "CNIS": "002", "TNIS": "004",
      "RSSIZ": sci(4646.5), "CSSIZ": sci(4561.5)}
for p, co in (("R", rc), ("C", cc)):
    for s, v in zip(["0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"], co):
        ov[p + s] = sci(v)
e = ET.Element("tre", {"name": "RSMPIA"})
out["RSMPIA"] = encode(e, ov)
json.dump(out, open("/verif/fixtures/tres.json", "w"), indent=0)
print({k: (len(v) if isinstance(v, str) else [len(x) for x in v]) for k, v in out.items()})
