"""C17: SAR pixels are displayed on one scale of their power."""
import json
import math

import numpy as np

from . import c16
from .. import inject

RUNS = {"quick": 2500, "thorough": 60000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of display conversions of complex pixel arrays and of map tiles of complex images, in which callers reuse "
        "and change arrays, conversions are interrupted at arbitrary lines, statistics and reads fail and threads share the arrays; non-trivial if a result "
        "was compared with the equations after an earlier conversion; distinct by the digest of the event trace")
REAL = ["histogram_stretch", "quarter_power_image", "image_pixels_to_complex", "GDALTileFactory", "load_gdal_dataset", "GDAL statistics and GTiff driver", "OpenCV"]
STUBS = ["storage is GDAL's in-memory file system", "an exception is raised at a chosen executed line (allocation failure)"]
ASSUMPTIONS = ["magnitudes stay below 1e12, so that their squares fit 32-bit floating point numbers",
               "the brightness of a map tile is judged within a factor of five, and only when the components scatter around zero as those of SAR signals do, because it is estimated from the statistics of the two bands",
               "when the statistics of the image could not be computed only the order of the levels of that tile is judged"]
STATE_MEASURE = "conversion, pixel types, style of the values, outcome of the last two operations"
STYLES = ["speckle", "speckle", "bright", "ramp", "zero", "one-pixel", "hole", "negative", "small", "saturated"]


def gen_array(rng):
    kind = rng.choice(["RE32F_IM32F", "RE32F_IM32F", "RE16I_IM16I", "RE16I_IM16I", "AMP8I_PHS8I", "AMP8I_PHS8I", "f8"])
    a = {"kind": kind, "shape": [rng.choice([1, 2, 7, 16]), rng.choice([1, 3, 9, 20])], "style": rng.choice(STYLES), "seed": rng.randrange(1 << 30)}
    if kind == "AMP8I_PHS8I":
        a["lut"] = rng.choice([None, "linear", "log", "list"])
    if kind in ("RE32F_IM32F", "f8"):
        a["bad"] = rng.choice([None, None, None, "nan", "inf"])
    return a


def gen_op(rng, na, thr, img):
    if img is not None and rng.random() < 0.4:
        o = c16.gen_op(rng, img, 2, thr)
        if o["op"] == "ortho":
            if not thr and rng.random() < 0.2:
                o["faults"] = [{"fn": rng.choice(["Band.GetStatistics", "Band.ReadAsArray", "*"]), "n": rng.choice([0, 1]), "kind": "err"}]
            return o
    o = {"op": rng.choice(["stretch", "quarter", "quarter"]), "a": rng.randrange(na), "scale": rng.choice([None, None, 1.0, 3.0, 5.0, 8.0, 20.0]),
         "mean": rng.choice([None, None, None, 0.5, 40.0]), "explicit": rng.random() < 0.7, "spoil": None, "via": rng.choice(["image", "image", "mag"])}
    if not thr:
        o["spoil"] = rng.choice([None, None, "input", "result"])
        if rng.random() < 0.1:
            o["type"] = "AMP16I"
        if rng.random() < 0.2:
            o["fail"] = rng.choice([0, 1, 2, 3, 5, 8, 13])
    return o


def gen(rng, tier, index):
    na = rng.choice([1, 2, 3])
    img = None
    if rng.random() < 0.4:
        img = {"kind": "tif", "dtype": rng.choice(["f4", "f4", "i2"]), "cell": 12, "nx": rng.choice([4, 6]), "ny": rng.choice([3, 5]), "spots": [], "style": "sar"}
        n = img["nx"] * img["ny"]
        top = rng.choice([3.0, 100.0, 5000.0])
        st = rng.choice(["any", "any", "bright", "dark", "hole"])
        img["pal"] = []
        for _ in range(2):
            v = [rng.gauss(0, top / 4) for _ in range(n)]
            if st == "bright":
                v[rng.randrange(n)] = top * 5
            if st == "hole":
                v = [0.0 if k % 3 else x for k, x in enumerate(v)]
            if st == "dark":
                v = [x * 0.05 for x in v]
            img["pal"].append([float(round(max(-30000, min(30000, x)), 0 if img["dtype"] == "i2" else 3)) for x in v])
    plan = {"arrays": [gen_array(rng) for _ in range(na)], "img": img, "exc": rng.random() < 0.5, "ras": [rng.choice(["MINMAX", "DRA"]) for _ in range(2)],
            "ops": [gen_op(rng, na, False, img) for _ in range(rng.choice([2, 4, 8]))], "threads": []}
    if rng.random() < 0.35:
        plan["threads"] = [[gen_op(rng, na, True, img) for _ in range(rng.choice([1, 3]))] for _ in range(rng.choice([2, 3]))]
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.05, 0.2, 0.5]),
                     "d": rng.choice([2, 4]), "span": rng.choice([50, 400]), "opcode": rng.random() < 0.3}
    inject.add_line_faults(rng, [o for o in plan["ops"] if o["op"] == "ortho"], 0.1)
    return plan


def make(a):
    r = np.random.RandomState(a["seed"] % (2 ** 31))
    h, w = a["shape"]
    st = a["style"]
    if a["kind"] == "AMP8I_PHS8I":
        amp = r.rayleigh(40, (h, w)).clip(0, 255)
        if st == "zero":
            amp = amp * 0
        elif st == "bright":
            amp = 255 - amp / 8
        elif st == "one-pixel":
            amp = amp * 0
            amp[0, 0] = 200
        return np.stack([amp, r.uniform(0, 255, (h, w))]).astype("u1")
    x = r.normal(0, 300, (2, h, w))
    if st == "bright":
        x = x * 80
    elif st == "ramp":
        x = np.linspace(-20000, 20000, 2 * h * w).reshape(2, h, w)
    elif st == "zero":
        x = x * 0
    elif st == "one-pixel":
        x = x * 0
        x[0, 0, 0] = 1000
    elif st == "hole":
        x[:, : (h + 1) // 2] = 0
    elif st == "negative":
        x = -np.abs(x)
    elif st == "small":
        x = x / 300
    elif st == "saturated":
        x[:, r.uniform(size=(h, w)) < 0.4] = 32767
        x[:, 0, 0] = -32768
    x = x.clip(-32768, 32767)
    if a["kind"] == "RE16I_IM16I":
        return x.astype("i2")
    x = x.astype("f4" if a["kind"] == "RE32F_IM32F" else "f8")
    if a.get("bad"):
        x[0, h // 2, w // 2] = np.nan if a["bad"] == "nan" else np.inf
    return x


def table(a):
    if a["kind"] != "AMP8I_PHS8I" or a["lut"] is None:
        return None
    if a["lut"] == "linear":
        return np.linspace(0.0, 50.0, 256)
    if a["lut"] == "log":
        return np.exp(np.linspace(-3.0, 7.0, 256))
    return [float(i * i) for i in range(256)]


def power(a, pixels):
    """SICD volume 1, sections 4.2 and 4.10, in double precision."""
    x = pixels.astype("f8")
    if a["kind"] == "AMP8I_PHS8I":
        t = table(a)
        amp = x[0] if t is None else np.asarray(t, dtype="f8")[pixels[0]]
        return amp ** 2
    return x[0] ** 2 + x[1] ** 2


def equation(a, o, pixels):
    """SAND2019-2371, sections 3.1 and 3.2; a scene without any signal is black."""
    p = power(a, pixels)
    if o["op"] == "stretch":
        v, c = p, o["scale"] or 8.0
        m = None
    else:
        v, c = np.sqrt(p), o["scale"] or 3.0
        m = o["mean"]
    if m is None:
        m = float(np.mean(v[np.isfinite(v)])) if np.isfinite(v).any() else math.nan
    if m == 0:
        return v * 0.0
    return np.clip(255.0 * v / (c * m), 0.0, 255.0)


def run(plan, sim):
    from .. import sched, tileworld as T, world
    from aws.osml.gdal import load_gdal_dataset
    from aws.osml.image_processing import histogram_stretch, quarter_power_image
    from aws.osml.image_processing import sar_complex_imageop as op_module
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    world.use_exceptions(plan["exc"])
    arrays = [make(a) for a in plan["arrays"]]
    tables = [table(a) for a in plan["arrays"]]
    results = []            # (array handed out, its bytes)
    last = []
    image = {}
    facs = [None, None]
    shown = {}
    if plan["img"]:
        world.put("/vsimem/in/sar.tif", c16.image_bytes(plan["img"]))

    def convert(o, me):
        i = o["a"] % len(arrays)
        a, px = plan["arrays"][i], arrays[i]
        before, tbefore = px.tobytes(), None if tables[i] is None else np.asarray(tables[i]).tobytes()
        where = f"{json.dumps(a)} {json.dumps(o)} after {last[-3:]}"
        kw = {}
        if o["scale"] is not None:
            kw["scale_factor"] = o["scale"]
        if o["op"] == "quarter" and o["mean"] is not None:
            kw["precomputed_mean"] = o["mean"]
        named = a["kind"] if a["kind"] != "f8" else "RE32F_IM32F"
        ptype = o.get("type") or (named if o["explicit"] or a["kind"] == "AMP8I_PHS8I" else None)

        def call():
            if o["via"] == "mag":
                m = np.sqrt(power(a, px)) if False else power(a, px)
                return (op_module.histogram_stretch_mag_values if o["op"] == "stretch" else op_module.quarter_power_mag_values)(m, **kw)
            return (histogram_stretch if o["op"] == "stretch" else quarter_power_image)(px, pixel_type=ptype, amplitude_table=tables[i], **kw)
        r = exc = None
        fired = False
        if o.get("fail") is not None:
            f = sched.LineFault(o["fail"], MemoryError("simulated allocation failure"))
            with f:
                try:
                    r = call()
                except Exception as e:
                    exc = e
            fired = f.fired
            if fired:
                sim.fault("line:mem")
        else:
            try:
                r = call()
            except Exception as e:
                exc = e
        sim.check(px.tobytes() == before, "input-changed", where)
        sim.check(tables[i] is None or np.asarray(tables[i]).tobytes() == tbefore, "table-changed", where)
        if o.get("type") and o["via"] == "image":
            sim.check(r is None, "unknown-type-accepted", where)
        else:
            sim.check(r is not None or fired, "refused", lambda: f"{where}: {exc!r}")
        if r is not None:
            r = np.asarray(r)
            want = equation(a, o, px)
            sim.check(r.shape == want.shape, "wrong-shape", lambda: f"{where}: {r.shape}")
            fin = np.isfinite(power(a, px))
            got = r.astype("f8")
            sim.check(np.isfinite(got[fin]).all(), "not-a-level", lambda: f"{where}: {got[fin][~np.isfinite(got[fin])][:3]}")
            sim.check(((got[fin] >= 0) & (got[fin] <= 255)).all(), "outside-8-bit", lambda: f"{where}: {got[fin].min()}..{got[fin].max()}")
            d = np.abs(got - want)[fin]
            bad = d > 0.02 + 1e-4 * want[fin]
            sim.check(not bad.any(), "wrong-level", lambda: f"{where}: power {power(a, px)[fin][bad][0]} is shown as {got[fin][bad][0]}, the equation gives {want[fin][bad][0]}")
            results.append((r, r.tobytes()))
            sim.probe("levels", int(fin.sum()))
            if len(last) > 0:
                sim.probe("verified-after-history")
        for x, b in results:
            sim.check(x.tobytes() == b, "earlier-result-changed", where)
        if o["spoil"] == "input":
            if px.dtype.kind == "f":
                px *= 0.5
            else:
                px[...] = px[:, ::-1].copy()
            for x, b in results:
                sim.check(x.tobytes() == b, "result-shares-input", where)
        elif o["spoil"] == "result" and r is not None and r.flags.writeable:
            held = px.tobytes()
            results.pop()
            r[...] = 7
            sim.check(px.tobytes() == held, "input-shares-result", where)
        last.append((o["op"], a["kind"], a["style"], type(exc).__name__ if exc else "ok"))
        sim.event(me, o["op"], last[-1], fired, None if r is None else r.tobytes())
        sim.state(tuple(last[-2:]))

    def ortho(o, me, own):
        img = plan["img"]
        i = o["f"] % 2
        if own[i] is None:
            own[i] = T.open_factory({"fmt": "PNG", "comp": "NONE", "otype": 1, "ra": plan["ras"][i], "sm": True}, "/vsimem/in/sar.tif", None, None)
        W, H = img["nx"] * img["cell"], img["ny"] * img["cell"]
        x0, y0, x1, y1 = o["box"]
        lon = [math.radians(c16.GT0[0] + c16.GT0[1] * W * q) for q in (x0, x1)]
        lat = [math.radians(c16.GT0[3] + c16.GT0[5] * H * q) for q in (y1, y0)]
        where = f"{plan['ras'][i]} {json.dumps(o)} after {last[-3:]} of {img['dtype']} cells {img['pal']}"
        sim.injector.arm(o.get("faults") or [])
        r = exc = None
        try:
            r = own[i][2].create_orthophoto_tile((lon[0], lat[0], lon[1], lat[1]), tuple(o["size"]))
        except Exception as e:
            exc = e
        fired = sim.injector.disarm()
        for x in fired:
            sim.fault(f"{x[0]}:{x[2]}")
        sim.check(r is not None or fired, "tile-refused", lambda: f"{where}: {exc!r}")
        if r is not None:
            got = T.inspect(bytes(r), "PNG")
            sim.check(got is not None and got[0] is not None, "tile-not-readable", where)
            level = got[0][0].astype("f8")
            rows, cols = samples(img, o)
            if rows and cols:
                v = [[(rr[1] // img["cell"]) * img["nx"] + cc[1] // img["cell"] for cc in cols] for rr in rows]
                px = np.array(img["pal"])
                px = np.stack([p.astype("f4") if img["dtype"] == "f4" else p.astype("i2").astype("f8") for p in px]).astype("f8")
                p = (px[0] ** 2 + px[1] ** 2)[np.array(v)].ravel()
                t = level[np.ix_([rr[0] for rr in rows], [cc[0] for cc in cols])].ravel()
                failed = any(x[0] in ("Band.GetStatistics", "line") for x in fired)
                table_ = {} if failed else shown
                for x, y in sorted(set(zip(p.tolist(), t.tolist()))):
                    l, h = table_.get(x, (y, y))
                    l, h = min(l, y), max(h, y)
                    sim.check(h - l <= 1.01, "scale-differs", lambda: f"{where}: the power {x} is shown as {y}, elsewhere as {l if y != l else h}")
                    table_[x] = (l, h)
                top = -1.0
                for x in sorted(table_):
                    sim.check(table_[x][1] >= top - 1.01, "order", lambda: f"{where}: the power {x} is shown as {table_[x]}, a lower one as {top}")
                    top = max(top, table_[x][0])
                # the level is proportional to the fourth root of the power
                mean = float(np.mean(np.sqrt(px[0] ** 2 + px[1] ** 2)))
                ks = [(y / math.sqrt(x), 1.01 / math.sqrt(x)) for x, (y, h) in table_.items() if x > 0 and 12 < y < 250]
                if ks and not failed:
                    lo, hi = max(k - e for k, e in ks), min(k + e for k, e in ks)
                    sim.check(lo <= hi * (1 + 1e-6), "not-proportional", lambda: f"{where}: {sorted(table_.items())[:12]}")
                    centred = all(abs(float(np.mean(b))) <= 0.3 * float(np.std(b)) for b in px)
                    if mean > 0 and centred:
                        f = hi * mean / 85.0
                        sim.check(0.2 < f < 5, "wrong-brightness", lambda: f"{where}: factor {f}")
                sim.probe("tile-levels", int(len(t)))
                if last:
                    sim.probe("verified-after-history")
        last.append(("ortho", img["dtype"], type(exc).__name__ if exc else "ok", bool(fired)))
        sim.event(me, "ortho", last[-1], fired, None if r is None else T.sha(r, "PNG"))
        sim.state(tuple(last[-2:]))

    def samples(img, o):
        c, W, H = img["cell"], img["nx"] * img["cell"], img["ny"] * img["cell"]
        x0, y0, x1, y1 = o["box"]
        tw, th = o["size"]
        xs = [W * (x0 + (x1 - x0) * i / (tw - 1)) for i in range(tw)]
        ys = [H * (y0 + (y1 - y0) * j / (th - 1)) for j in range(th)]
        m = 3.5 + 0.5 * max(W * (x1 - x0) / (tw - 1), H * (y1 - y0) / (th - 1))

        def fit(vs, n):
            return [(k, int(v)) for k, v in enumerate(vs) for q in [int(v // c)] if 0 <= q < n and v - q * c >= m and (q + 1) * c - v >= m]
        return fit(ys, img["ny"]), fit(xs, img["nx"])

    for o in plan["ops"]:
        if o["op"] == "ortho":
            ortho(o, 0, facs)
        else:
            convert(o, 0)
    ths = [t for t in plan["threads"] if t]
    if ths:
        sim.threads([(lambda t=t, k=k: [ortho(o, k + 1, own) if o["op"] == "ortho" else convert(o, k + 1) for own in [[None, None]] for o in t])
                     for k, t in enumerate(ths)], plan["sched"])
        sim.probe("shared")


def nontrivial(s):
    p = s["probes"]
    return p.get("verified-after-history", 0) > 0
