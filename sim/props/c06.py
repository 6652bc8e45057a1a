"""C06: sensor models have no memory."""
import contextlib
import math

from .. import inject

RUNS = {"quick": 500, "thorough": 12000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of conversions on shared sensor models (sequential, failing and in parallel threads), each "
        "compared with the same conversion on a new model in an unused process; non-trivial if a conversion was compared after an earlier one "
        "on the same model; distinct by the digest of the event trace including the interleaving")
REAL = ["GDALAffineSensorModel", "ProjectiveSensorModel", "RPCSensorModel", "RSMPolynomialSensorModel", "RSMSectionedPolynomialSensorModel",
        "SICDSensorModel with all projection sets", "ChippedImageSensorModel", "CompositeSensorModel", "SensorModelFactory and builders",
        "DigitalElevationModel", "ConstantElevationModel"]
STUBS = ["analytic terrain implementing ElevationModel, able to fail at a chosen call", "tile factory producing elevation tiles on demand"]
ASSUMPTIONS = ["results are compared with a tolerance of 1e-11 rad, 1e-5 m and 1e-6 pixel"]
STATE_MEASURE = "model kind, direction, hints and outcome of the last two conversions on that model"


def gen_op(rng, pts, nm, nd, thr):
    r = rng.random()
    o = {"m": rng.randrange(nm), "dem": rng.randrange(nd)}
    p = rng.choice(pts)
    if r < 0.6:
        o["dir"] = "i2w"
        o["pt"] = list(p)
        if rng.random() < 0.3:
            o["opts"] = {"kind": rng.choice(["empty", "guess", "guess", "dist", "both", "guess-array"]), "a": rng.choice([0.0, 0.001, -0.0007, 0.2]),
                         "d": rng.choice([0.0001, 0.005, 0.05])}
        if rng.random() < 0.12 and not thr:
            o["far"] = rng.choice([[1e6, 1e6], [-5e4, 10.0], ["nan", 5.0], ["inf", 0.0], [-1.0, -1.0]])
    else:
        o["dir"] = "w2i"
        o["pt"] = list(p)
        o["dh"] = rng.choice([0.0, 0.0, 30.0, -20.0, 300.0])
        o["dl"] = rng.choice([0.0, 0.0, 1e-9, 1e-4, 0.02])
        if rng.random() < 0.1 and not thr:
            o["far"] = rng.choice([["nan", 0.0], [3.0, -1.5], [0.0, "inf"]])
    if rng.random() < 0.15:
        o["fail"] = rng.choice([0, 0, 1, 2, 5, 20])
    if rng.random() < 0.4:
        o["reuse"] = True       # the caller's own coordinate object is used again and changed in between
    return o


def gen(rng, tier, index):
    from .. import smworld as S
    nm = rng.choice([1, 1, 2, 3])
    kinds = None
    if rng.random() < 0.5:
        kinds = ["rpc", "rpcchip", "rsm", "rsmsec", "rsmgeo", "rsm2pi", "sicd-capella", "sicd-pfa", "sicd-rma", "sicd-rgaz", "sidd", "sidd-chip"]
    models = [S.gen_model(rng, kinds) for _ in range(nm)]
    if nm > 1 and rng.random() < 0.4:
        models[1] = dict(models[0])
    elif nm > 1 and rng.random() < 0.5:
        models[:2] = [{"kind": k} for k in rng.choice(S.PAIRS)]
    dems = [None] + [S.gen_dem(rng, True) for _ in range(rng.choice([1, 2]))]
    base = [[rng.random(), rng.random()] for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.3:
        base[0][rng.randrange(2)] = 0.5         # beside the border of two image sections
    pts = []
    for b in base:
        pts.append([b[0], b[1], 0.0, 0.0])
        pts.append([b[0], b[1], rng.choice([1e-7, 1e-3, 0.4, 1.0]), rng.choice([0.0, -0.3, 1e-6])])
        pts.append([b[1], b[0], 0.0, 0.0])
    thr = rng.random() < 0.3
    plan = {"models": models, "dems": dems, "pre": [gen_op(rng, pts, nm, len(dems), False) for _ in range(rng.choice([2, 4, 8, 14]))], "threads": []}
    if thr:
        plan["threads"] = [[gen_op(rng, pts, nm, len(dems), True) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
    plan["post"] = [gen_op(rng, pts, nm, len(dems), False) for _ in range(rng.choice([0, 1, 3]))]
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.005, 0.03, 0.2]),
                     "d": rng.choice([2, 4]), "span": rng.choice([500, 4000]), "opcode": False}
    for o in plan["pre"] + plan["post"]:
        if "fail" not in o and rng.random() < 0.1:
            o["line"] = rng.choice(inject.LINES) if rng.random() < 0.5 else rng.randrange(400)
    return plan


def warm(plan):
    from .. import smworld as S
    for m in plan["models"]:
        S.metadata({k: v for k, v in m.items() if k in ("kind", "ver")})


def fnum(v):
    return float(v) if not isinstance(v, str) else float(v)


def image_point(spec, o):
    from .. import smworld as S
    if o["dir"] == "i2w" and o.get("far"):
        return [fnum(v) for v in o["far"]]
    W, H = S.DIMS[spec["kind"]]
    fx, fy, dx, dy = o["pt"]
    return [round(fx * W, 3) + dx, round(fy * H, 3) + dy]


def options_of(o, ground):
    import numpy as np
    from aws.osml.photogrammetry.sensor_model import SensorModelOptions as K
    q = o.get("opts")
    if not q:
        return None
    g = [ground[0] + q["a"], ground[1] - q["a"]] if ground else [q["a"], q["a"]]
    r = {}
    if q["kind"] in ("guess", "both"):
        r[K.INITIAL_GUESS] = g
    if q["kind"] == "guess-array":
        r[K.INITIAL_GUESS] = np.array(g)
    if q["kind"] in ("dist", "both"):
        r[K.INITIAL_SEARCH_DISTANCE] = q["d"]
    return r


def convert(model, dem, spec, o, ground, coord=None):
    """Carries out one conversion; returns a JSON-able outcome and the objects involved."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    objs = {}
    try:
        if o["dir"] == "i2w":
            v = image_point(spec, o)
            c = coord if coord is not None else ImageCoordinate(v)
            if coord is not None:
                c.x, c.y = v
            opts = options_of(o, ground)
            objs.update(coord=c, given=list(v), opts=opts, opts0=options_of(o, ground))
            r = model.image_to_world(c, elevation_model=dem, options=opts) if opts is not None or dem is not None else model.image_to_world(c)
            objs["res"] = r
            return ["world", float(r.longitude), float(r.latitude), float(r.elevation)], objs
        if o.get("far"):
            v = [fnum(x) for x in o["far"]] + [10.0]
        else:
            v = [ground[0] + o["dl"], ground[1] - o["dl"] / 2, ground[2] + o["dh"]]
        c = coord if coord is not None else GeodeticWorldCoordinate(v)
        if coord is not None:
            c.longitude, c.latitude, c.elevation = v
        objs.update(coord=c, given=list(v))
        r = model.world_to_image(c)
        objs["res"] = r
        return ["image", float(r.x), float(r.y)], objs
    except Exception as e:
        return ["exc", type(e).__name__], objs


def ref(spec):
    from .. import smworld as S
    from aws.osml.photogrammetry import ImageCoordinate
    m = S.build(spec["model"])
    if spec["what"] == "ground":
        try:
            g = m.image_to_world(ImageCoordinate(spec["px"]))
            return [float(g.longitude), float(g.latitude), float(g.elevation)]
        except Exception:
            return None
    d = S.elevation_model(spec["dem"])
    return convert(m, d, spec["model"], spec["op"], spec["ground"])[0]


def same(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == "exc":
        return a == b
    tol = [1e-11, 1e-11, 1e-5] if a[0] == "world" else [1e-6, 1e-6]
    for x, y, t in zip(a[1:], b[1:], tol):
        if math.isnan(x) and math.isnan(y) or x == y:
            continue
        if not abs(x - y) <= t * max(1.0, abs(y) * 1e-3):
            return False
    return True


def run(plan, sim):
    import numpy as np
    from .. import smworld as S, sched
    models = [S.build(m) for m in plan["models"]]
    dems = [S.elevation_model(d) for d in plan["dems"]]
    own = {}
    hist = {}

    def eq(a, b):
        if a is None or b is None:
            return a is b
        return set(a) == set(b) and all(type(a[k]) is type(b[k]) and np.array_equal(a[k], b[k]) for k in a)

    def step(o):
        mi, di = o["m"] % len(models), o["dem"] % len(dems)
        spec, dspec = plan["models"][mi], plan["dems"][di]
        W, H = S.DIMS[spec["kind"]]
        px = [round(o["pt"][0] * W, 3) + o["pt"][2], round(o["pt"][1] * H, 3) + o["pt"][3]]
        ground = sim.ref({"what": "ground", "model": spec, "px": px})
        if ground is None and (o["dir"] == "w2i" and not o.get("far")):
            return
        me = sched.me()
        key = (me, o["dir"])
        coord = own.get(key) if o.get("reuse") else None
        failing = False
        if o.get("fail") is not None and o["dir"] == "i2w" and dems[di] is not None:
            failing = S.fail_after(dems[di], o["fail"])
        line = sched.LineFault(o["line"], MemoryError("simulated allocation failure")) if o.get("line") is not None and me is None else None
        with line or contextlib.nullcontext():
            got, objs = convert(models[mi], dems[di], spec, o, ground, coord)
        line = bool(line and line.fired)
        if line:
            sim.fault("line:mem")
        if failing:
            fired = got == ["exc", "SimFailure"]
            S.fail_after(dems[di], None)
            if fired:
                sim.fault("elevation-model:raise")
        sim.event(o["dir"], mi, di, px, got, me)
        # arguments unchanged
        c = objs.get("coord")
        if c is not None:
            now = [float(v) for v in c.coordinate]
            sim.check(all(a == b or (math.isnan(a) and math.isnan(b)) for a, b in zip(now, objs["given"])) and len(now) == len(objs["given"]),
                      "argument-altered", lambda: f"{spec} {o['dir']}: {objs['given']} became {now}")
            sim.check(eq(objs.get("opts"), objs.get("opts0")), "hints-altered", lambda: f"{spec}: {objs['opts0']} became {objs['opts']}")
            if dspec and dspec["type"] == "const":
                sim.check(dems[di].constant_elevation == dspec["base"], "elevation-model-altered", lambda: f"{dspec}")
        if line or failing and got == ["exc", "SimFailure"]:
            sim.probe("failed-conversions")
        else:
            want = sim.ref({"what": "conv", "model": spec, "dem": dspec, "ground": ground, "op": {k: v for k, v in o.items() if k in ("dir", "pt", "dh", "dl", "far", "opts")}})
            sim.check(same(got, want), "result-depends-on-history" if me is None else "result-depends-on-other-threads",
                      lambda: f"{spec} {dspec} {o['dir']} {px} {o.get('opts')}: {got}, a new model gives {want}")
            sim.probe("compared")
            if mi in hist:
                sim.probe("compared-after-history")
            sim.probe("comparisons-" + spec["kind"])
        # the caller is free to change its own objects and the result afterwards
        r = objs.get("res")
        if r is not None:
            r.coordinate[:] = [99.0 + i for i in range(len(r.coordinate))]
        if c is not None:
            own[key] = c
            c.coordinate[:] = [77.0 + i for i in range(len(c.coordinate))]
        if objs.get("opts"):
            for k, v in list(objs["opts"].items()):
                if isinstance(v, list):
                    v[:] = [0.1, 0.1]
        hist.setdefault(mi, []).append((o["dir"], (o.get("opts") or {}).get("kind"), got[0], di))
        sim.state((spec["kind"], hist[mi][-2:]))

    for o in plan["pre"]:
        step(o)
    ths = [t for t in plan["threads"] if t]
    if ths:
        sim.threads([(lambda t=t: [step(o) for o in t]) for t in ths], plan["sched"])
    for o in plan["post"]:
        step(o)


def nontrivial(s):
    return s["probes"].get("compared-after-history", 0) > 0
