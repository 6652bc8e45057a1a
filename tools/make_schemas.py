#!/opt/venv/bin/python
"""Writes fixtures/schemas.json: the structure of the SICD and SIDD documents (elements, attributes, order, multiplicity, value types),
as taken once from the data classes of the pinned commit, which were generated from the official schemas. The checks generate documents from
this file and never from the classes under test."""
import dataclasses, enum, importlib, json, sys, typing
sys.path.insert(0, "/repo/src")
ROOTS = {"sicd121": ("aws.osml.formats.sicd.models.sicd_v1_2_1", "SICD"), "sicd130": ("aws.osml.formats.sicd.models.sicd_v1_3_0", "SICD"),
         "sidd100": ("aws.osml.formats.sidd.models.sidd_v1_0_0", "SIDD"), "sidd200": ("aws.osml.formats.sidd.models.sidd_v2_0_0", "SIDD"),
         "sidd300": ("aws.osml.formats.sidd.models.sidd_v3_0_0", "SIDD")}
types = {}


def leaf(t):
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return {"enum": [x.value if isinstance(x.value, (str, int, float)) else str(x.value) for x in t]}
    return {"prim": getattr(t, "__name__", str(t))}


def ref(t, ns):
    if dataclasses.is_dataclass(t):
        return {"cls": visit(t, ns)}
    return leaf(t)


def visit(c, ns):
    ns = getattr(c.__dict__.get("Meta"), "namespace", None) or ns
    key = c.__module__.rsplit("osml.", 1)[1].replace("formats.", "").replace(".models", "") + ":" + c.__qualname__ + "|" + (ns or "")
    if key in types:
        return key
    types[key] = out = {"fields": []}
    hints = typing.get_type_hints(c, vars(sys.modules[c.__module__]))
    for f in dataclasses.fields(c):
        m = dict(f.metadata)
        h = hints[f.name]
        many = False
        args = [a for a in typing.get_args(h) if a is not type(None)] if typing.get_origin(h) is typing.Union else [h]
        if len(args) == 1 and typing.get_origin(args[0]) in (list, tuple):
            inner = typing.get_args(args[0])[0]
            many = not m.get("tokens") or typing.get_origin(inner) in (list,)
            args = [a for a in typing.get_args(inner)] if typing.get_origin(inner) is typing.Union else [inner]
        d = {"name": m.get("name") or f.name, "kind": m.get("type") or ("Text" if not dataclasses.is_dataclass(args[0]) else "Element"), "ns": m["namespace"] if m.get("namespace") is not None else ns if m.get("type") == "Element" else None,
             "types": [ref(a, ns) for a in args], "many": many, "tokens": bool(m.get("tokens")), "required": bool(m.get("required"))}
        for k in ("min_occurs", "max_occurs", "min_inclusive", "max_inclusive", "min_exclusive", "max_exclusive", "pattern", "length", "min_length",
                  "max_length", "sequence", "format", "choices", "nillable", "white_space"):
            if k in m:
                d[k] = m[k] if k != "choices" else "YES"
        if not f.init and f.default is not dataclasses.MISSING:
            v = f.default
            v = v.value if isinstance(v, enum.Enum) else v
            d["fixed"] = str(v).lower() if isinstance(v, bool) else str(v)
        elif f.default is not dataclasses.MISSING and f.default is not None:
            v = f.default
            d["default"] = v.value if isinstance(v, enum.Enum) else v if isinstance(v, (str, int, float)) else str(v)
        out["fields"].append(d)
    return key


roots = {}
for k, (mod, cls) in ROOTS.items():
    c = getattr(importlib.import_module(mod), cls)
    roots[k] = {"cls": visit(c, None), "name": getattr(c.Meta, "name", cls), "ns": c.Meta.namespace}
json.dump({"roots": roots, "types": types}, open(sys.argv[1], "w"), indent=0, sort_keys=True)
print(len(types), roots)
