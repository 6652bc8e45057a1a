"""Generator of SICD and SIDD documents from the structure in fixtures/schemas.json, and comparison of a written document with what was put in.

A document is built as a tree of nodes {"t": tag, "a": {name: [kind, value]}, "v": [kind, value] or None, "c": [nodes]}; kinds are float, int, bool, str,
enum, date, datetime and tokens. The text is written here, without the classes of the toolkit, and a document written by the toolkit is read back
with the XML parser of the standard library only."""
import json
import math
import os
import xml.etree.ElementTree as ET
from decimal import Decimal
from xml.sax.saxutils import escape

_SCHEMAS = None
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def schemas():
    global _SCHEMAS
    if _SCHEMAS is None:
        with open(os.path.join(HERE, "fixtures", "schemas.json")) as f:
            _SCHEMAS = json.load(f)
    return _SCHEMAS


def _tag(ns, name):
    return "{%s}%s" % (ns, name) if ns else name


STRINGS = ["alpha", "Site 7", "a&b", "x < y > z", "O'Neil \"Q\"", "données", "東京", "0012", "1e5", "true", "A/B;C", "x" * 60, "100%", "\u00b5m", "None", "", " lead", "two  spaces", "line\nbreak"]
FLOATS = ["0.0", "1.0", "-1.0", "0.1", "1E5", "-2.5e-7", "123456789.123456789", "1.7976931348623157E308", "5e-324", "3.141592653589793", "1e22", "-0.0",
          "6378137", "0.30000000000000004", "9007199254740993", "1e-05", "100", "1e16", "1e15", "0.0001", "12345678901234567890"]
OTHERS = {"([VHXYSE]|RHC": ["V:H", "RHC:LHC", "OTHER1:V"], "[VHXYSE]|RHC": ["V", "RHC", "OTHER_2"], "OTHER.*": ["OTHERLAND", "OTHER"], "NATO": ["NATO/a", "NATO/-"],
          "SI-G": ["SI-G-ABCD"], "KDK": ["KDK-BLFH-A1", "RSV-ABC"], "SAR": ["SAR-ABC"], "RD-SG": ["RD-SG-14"], "ACCM": ["ACCM-A1", "NNPI"], "([0-9]+)": ["1,2,3", "255,0,17"]}


def _by_pattern(rng, pattern):
    for k in sorted(OTHERS, key=len, reverse=True):
        if pattern.startswith(k):
            return rng.choice(OTHERS[k])
    return "A1-B2"


def _prim(rng, prim, f):
    if prim == "float":
        lo = f.get("min_inclusive", f.get("min_exclusive"))
        hi = f.get("max_inclusive", f.get("max_exclusive"))
        if lo is not None or hi is not None:
            lo = float(lo) if lo is not None else float(hi) - 1000.0
            hi = float(hi) if hi is not None else lo + 1000.0
            return ["float", repr(lo + (hi - lo) * rng.choice([0.5, 0.25, 0.123456789012345678, rng.random(), 0.999]))]
        return ["float", rng.choice(FLOATS) if rng.random() < 0.5 else repr(rng.uniform(-1, 1) * 10.0 ** rng.randrange(-12, 13))]
    if prim == "int":
        lo = f.get("min_inclusive", f.get("min_exclusive", -1000))
        hi = f.get("max_inclusive", f.get("max_exclusive", int(lo) + 70000))
        lo, hi = int(lo) + ("min_exclusive" in f), int(hi) - ("max_exclusive" in f)
        return ["int", str(rng.choice([lo, min(lo + 1, hi), hi, rng.randint(lo, hi)]))]
    if prim == "bool":
        return ["bool", rng.choice(["true", "false", "1", "0"])]
    if prim == "XmlDate":
        return ["date", "%04d-%02d-%02d" % (rng.randint(1970, 2035), rng.randint(1, 12), rng.randint(1, 28)) + rng.choice(["", "", "Z"])]
    if prim == "XmlDateTime":
        frac = rng.choice(["", ".5", ".123", ".123456", ".000001", ".987654321"])
        return ["datetime", "%04d-%02d-%02dT%02d:%02d:%02d" % (rng.randint(1970, 2035), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24),
                                                              rng.randrange(60), rng.randrange(60)) + frac + rng.choice(["Z", "Z", "", "+02:00", "-05:30"])]
    if f.get("pattern"):
        return ["str", _by_pattern(rng, f["pattern"])]
    n = f.get("length")
    if n:
        return ["str", ("ABCDEFGHIJ" * 20)[:int(n)]]
    return ["str", rng.choice(STRINGS)]


def _leaf(rng, t, f):
    if "enum" in t:
        v = rng.choice(t["enum"])
        return ["enum", v if isinstance(v, str) else repr(v)]
    return _prim(rng, t["prim"], f)


def _value(rng, f):
    if "fixed" in f:
        return ["bool" if f["types"][0].get("prim") == "bool" else "str", f["fixed"]]
    if "default" in f and rng.random() < 0.5:
        v = f["default"]
        return [("bool" if f["types"][0].get("prim") == "bool" else "enum" if "enum" in f["types"][0] else f["types"][0]["prim"]),
                str(v).lower() if isinstance(v, bool) else str(v)]
    if f["tokens"]:
        n = rng.choice([1, 1, 2, 5])
        return ["tokens", " ".join(_leaf(rng, rng.choice(f["types"]), f)[1] for _ in range(n)).strip()]
    return _leaf(rng, rng.choice(f["types"]), f)


def generate(rng, root, rich=0.3, budget=900):
    """A random document of the given kind (a key of the roots): every required part, and optional parts with probability `rich`."""
    s = schemas()
    left = [budget]

    def node(cls, tag, depth):
        n = {"t": tag, "a": {}, "v": None, "c": []}
        left[0] -= 1
        for f in s["types"][cls]["fields"]:
            req = f["required"] or (f.get("min_occurs") or 0) > 0
            kind = f["kind"]
            if kind == "Text":
                n["v"] = _value(rng, f)
            elif kind == "Attribute":
                if req or "fixed" in f or "default" in f or rng.random() < rich:
                    n["a"][_tag(f["ns"], f["name"])] = _value(rng, f)
            elif kind == "Element":
                p = 0.0 if left[0] <= 0 or depth > 12 else rich if depth else max(rich, 0.5)
                if f["many"]:
                    lo = int(f.get("min_occurs") or 0)
                    hi = min(int(f.get("max_occurs") or 3), lo + 3)
                    k = rng.randint(lo, max(lo, hi)) if lo or rng.random() < p else 0
                else:
                    k = 1 if req or rng.random() < p else 0
                for _ in range(k):
                    t = f["types"][0]
                    if "cls" in t:
                        n["c"].append(node(t["cls"], _tag(f["ns"], f["name"]), depth + 1))
                    else:
                        n["c"].append({"t": _tag(f["ns"], f["name"]), "a": {}, "v": _value(rng, f), "c": []})
        return n

    r = s["roots"][root]
    return node(r["cls"], _tag(r["ns"], r["name"]), 0)


def render(doc, rng=None):
    """The document as text. With rng the layout varies: indentation, prefixes instead of default namespaces, prolog, comments, quotes."""
    style = {"indent": rng.random() < 0.4, "prefix": rng.random() < 0.4, "prolog": rng.random() < 0.5, "comment": rng.random() < 0.3,
             "quote": rng.random() < 0.3} if rng else {}
    names = {}

    def collect(n):
        for t in [n["t"], *n["a"]]:
            if t.startswith("{"):
                names.setdefault(t[1:].split("}")[0], None)
        for c in n["c"]:
            collect(c)
    collect(doc)
    root_ns = doc["t"][1:].split("}")[0] if doc["t"].startswith("{") else None
    for i, ns in enumerate(sorted(names)):
        names[ns] = "" if ns == root_ns and not style.get("prefix") else "p%d:" % i
    attr_prefix = {ns: p or "d:" for ns, p in names.items()}
    q = "'" if style.get("quote") else '"'

    def name(t, table):
        if not t.startswith("{"):
            return t
        ns, local = t[1:].split("}")
        return table[ns] + local

    def attr(text):
        return q + escape(text, {'"': "&quot;", "'": "&apos;", "\n": "&#10;"}) + q

    out = []
    if style.get("prolog"):
        out.append('<?xml version="1.0"?>\n')

    def write(n, depth):
        pad = "\n" + "  " * depth if style.get("indent") and depth else ""
        decl = ""
        if depth == 0:
            for ns in sorted(names):
                p = names[ns]
                decl += " xmlns%s=%s" % (":" + p[:-1] if p else "", attr(ns))
                if not p:
                    decl += " xmlns:d=%s" % attr(ns)
        out.append(pad + "<" + name(n["t"], names) + decl)
        for k in n["a"]:
            out.append(" %s=%s" % (name(k, attr_prefix), attr(n["a"][k][1])))
        if n["v"] is None and not n["c"]:
            out.append("/>")
            return
        out.append(">")
        if n["v"] is not None:
            out.append(escape(n["v"][1]))
        for i, c in enumerate(n["c"]):
            if style.get("comment") and i == 1:
                out.append("<!-- a comment -->")
            write(c, depth + 1)
        out.append(("\n" + "  " * depth if style.get("indent") and n["c"] else "") + "</" + name(n["t"], names) + ">")
    write(doc, 0)
    return "".join(out)


def _time(text):
    body, _, frac = text.partition(".")
    zone = ""
    if frac:
        for i, ch in enumerate(frac):
            if ch in "Z+-":
                frac, zone = frac[:i], frac[i:]
                break
    else:
        for i in range(19, len(body)):
            if body[i] in "Z+-":
                body, zone = body[:i], body[i:]
                break
    return body, Decimal("0." + (frac or "0")), "Z" if zone in ("+00:00", "-00:00") else zone


def same_value(kind, want, got):
    if got is None:
        got = ""
    if kind == "float":
        try:
            a, b = float(want), float(got)
        except ValueError:
            return False
        return a == b or (math.isnan(a) and math.isnan(b))
    if kind == "int":
        try:
            return int(want) == int(got)
        except ValueError:
            return False
    if kind == "bool":
        return (want in ("true", "1")) == (got in ("true", "1")) and got in ("true", "false", "1", "0")
    if kind == "datetime":
        return _time(want) == _time(got)
    if kind == "tokens":
        return want.split() == got.split()
    return want == got


def differences(doc, text, limit=3):
    """What the written document does not say the same way as the tree it was made from: a list of descriptions, empty if equal."""
    try:
        root = ET.fromstring(text.encode("utf-8"))
    except ET.ParseError as e:
        return ["not well formed: %s" % e]
    out = []

    def walk(n, e, path):
        if len(out) >= limit:
            return
        local = n["t"].split("}")[-1]
        path = path + "/" + local
        if e.tag != n["t"]:
            out.append("%s is named %s" % (path, e.tag))
            return
        attrs = {k: v for k, v in e.attrib.items() if not k.startswith("{http://www.w3.org/2001/XMLSchema-instance}")}
        for k in sorted(set(n["a"]) | set(attrs)):
            if k not in n["a"]:
                out.append("%s@%s=%r was added" % (path, k, attrs[k]))
            elif k not in attrs:
                out.append("%s@%s=%r is lost" % (path, k, n["a"][k][1]))
            elif not same_value(n["a"][k][0], n["a"][k][1], attrs[k]):
                out.append("%s@%s=%r became %r" % (path, k, n["a"][k][1], attrs[k]))
        kids = list(e)
        if n["v"] is not None:
            if not same_value(n["v"][0], n["v"][1], e.text):
                out.append("%s=%r (%s) became %r" % (path, n["v"][1], n["v"][0], e.text))
        elif (e.text or "").strip():
            out.append("%s has the text %r" % (path, e.text))
        want, got = [c["t"] for c in n["c"]], [k.tag for k in kids]
        if want != got:
            lost = [t.split("}")[-1] for t in want if t not in got]
            new = [t.split("}")[-1] for t in got if t not in want]
            out.append("%s has other content: lost %s, new %s, %d instead of %d elements" % (path, lost, new, len(got), len(want)))
            return
        for c, k in zip(n["c"], kids):
            walk(c, k, path)
    walk(doc, root, "")
    return out


def find(doc, *names):
    """The first node at a path of local names, or None."""
    n = doc
    for name in names:
        n = next((c for c in n["c"] if c["t"].split("}")[-1] == name), None)
        if n is None:
            return None
    return n
