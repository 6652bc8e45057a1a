"""C01: an encoded tile depends only on its own request."""
RUNS = {"quick": 420, "thorough": 9000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of tile requests (valid, repeated, rejected, failing) against several tile factories in one "
        "process, on one to three simulated threads that each own their factories; every returned tile is compared with the tile a fresh "
        "factory makes in a pristine process; non-trivial if at least three tiles were compared and the history had repeated, rejected or "
        "failed requests or thread switches; distinct by the digest of the event trace")
REAL = ["load_gdal_dataset", "GDALTileFactory.create_encoded_tile", "SICDUpdater", "SIDDUpdater", "get_type_and_scales", "all sensor models",
        "GDAL drivers NITF, GTiff, PNG, JPEG, JP2OpenJPEG", "xsdata"]
STUBS = ["storage is GDAL's in-memory file system", "random temporary names come from a seeded generator",
         "gdal.Translate and the read-back calls are wrapped to fail on command (failed requests in the history)"]
ASSUMPTIONS = ["the file date field of NITF tiles is ignored", "each thread uses its own dataset and factory (GDAL datasets are not thread safe)",
               "corner coordinates are compared to one arc second"]
STATE_MEASURE = "last three requests (factory, window, output size, outcome) of each history"

import itertools


def gen(rng, tier, index):
    from .. import tileworld as T, world
    imgs = []
    for _ in range(rng.choice([1, 1, 2])):
        kinds = rng.choice([None, None, ["sicd-capella", "sicd-pfa", "sicd-rma", "sicd-rgaz", "sidd", "sidd-chip", "sidd100"], ["rpc", "rpcchip", "rsm", "rsmsec", "rsmgeo", "rsm2pi", "nitfgeo"]])
        imgs.append(T.gen_image(rng, kinds))
        if imgs[-1]["kind"] in world.TIFF_KINDS and rng.random() < 0.25:
            imgs[-1]["w"], imgs[-1]["h"] = rng.choice([(300, 25), (26, 270), (530, 24)])
    cfgs = [T.gen_cfg(rng, rng.choice(imgs)) for _ in range(rng.choice([1, 1, 2, 3]))]
    # several factories can use one dataset object; an image can be replaced by another one at the same path
    for i in range(1, len(cfgs)):
        same = [j for j in range(i) if cfgs[j]["img"] == cfgs[i]["img"] and "share" not in cfgs[j]]
        if same and rng.random() < 0.6:
            cfgs[i]["share"] = rng.choice(same)
    for c in cfgs:
        if rng.random() < 0.5 and "share" not in c:
            c["alt"] = dict(c["img"], pseed=(c["img"]["pseed"] + 1) % 3)
            if rng.random() < 0.5 and not c["img"]["kind"].startswith("si"):
                c["alt"]["anchor"] = True
    pool = {}

    def op():
        f = rng.randrange(len(cfgs))
        img = cfgs[f]["img"]
        r = rng.random()
        if r < 0.08:
            return {"op": "new", "f": f, "swap": rng.random() < 0.6}
        if r < 0.12:
            return {"op": "ortho", "f": f, "d": rng.choice([0.0, 0.01, 1.0]), "size": rng.choice([[8, 8], [9, 5]])}
        if r < 0.22:
            w = T.gen_bad_window(rng, img)
        else:
            if pool.setdefault(f, []) and rng.random() < 0.4:
                w = list(rng.choice(pool[f]))
                if rng.random() < 0.4:
                    w[0], w[1] = rng.randrange(0, img["w"] - w[2] + 1), rng.randrange(0, img["h"] - w[3] + 1)
            else:
                w = T.gen_window(rng, img)
            pool[f].append(w)
        o = {"op": "tile", "f": f, "win": w, "out": T.gen_out(rng, w)}
        if w[2] <= 0 or w[3] <= 0:
            o["out"] = None
        if rng.random() < 0.1:
            o["faults"] = [{"fn": rng.choice(["Translate", "VSIFOpenL", "VSIStatL", "VSIFReadL", "*"]), "n": rng.choice([0, 0, 1, 2]),
                            "kind": rng.choice(["err", "after"])}]
        if rng.random() < 0.06:
            o["sm_fail"] = rng.randrange(4)
        return o
    heavy = any(c["img"]["kind"].startswith(("si", "rsm")) for c in cfgs)
    nt = rng.choice([1, 1, 2, 3])
    n = rng.choice([6, 12, 25]) if nt == 1 else rng.choice([3, 5, 8])
    if heavy:
        n = max(3, n // 2)
    elif nt == 1 and rng.random() < 0.06:
        n = 90
    return {"cfgs": cfgs, "exc": rng.random() < 0.5, "threads": [[op() for _ in range(n)] for _ in range(nt)],
            "sched": {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.002, 0.02, 0.2]),
                      "d": 5, "span": 4000}}


def warm(plan):
    from .. import world
    for c in plan["cfgs"]:
        world.image_bytes(c["img"])
        if c.get("alt"):
            world.image_bytes(c["alt"])


def ref(spec):
    from .. import tileworld as T
    return T.ref_tile(spec)


def run(plan, sim):
    from .. import sched, world, tileworld as T
    cfgs = plan["cfgs"]
    world.use_exceptions(plan["exc"])

    errors = itertools.count()

    class Flaky:
        """Passes everything through to the real sensor model; raises on command."""
        def __init__(self, sm):
            self._sm = sm
            self._left = None

        def image_to_world(self, *a, **k):
            if self._left is not None:
                if self._left == 0:
                    self._left = None
                    sim.fault("sensor-model:raise")
                    raise world.model_error(plan.get("index", 0) + next(errors))
                self._left -= 1
            return self._sm.image_to_world(*a, **k)

        def world_to_image(self, *a, **k):
            return self._sm.world_to_image(*a, **k)

    def client(ti, ops):
        made = {}
        seen = set()
        hist = []
        kept = []

        current = {}        # which of the two images is at a path
        opened = set()

        def actual(i):
            g = cfgs[i].get("share", i)
            if g >= len(cfgs):
                g = i
            return g, dict(cfgs[i], img=cfgs[g]["alt"] if current.get(g) else cfgs[i]["img"])

        def factory(i, fresh=False, swap=False):
            g, c = actual(i)
            path = f"/vsimem/t{ti}/f{g}/image"
            if swap and cfgs[g].get("alt"):
                for j in list(made):
                    if actual(j)[0] == g:
                        del made[j]
                current[g] = not current.get(g)
                opened.discard(g)
                g, c = actual(i)
                sim.probe("replaced-images")
            if fresh or i not in made:
                if g not in opened:
                    world.unlink(path + ".aux.xml")
                    world.put(path, world.image_bytes(c["img"]))
                    opened.add(g)
                made.pop(i, None)
                other = [made[j] for j in made if j != i and actual(j)[0] == g] if not fresh else []
                if other:
                    sim.probe("shared-datasets")
                made[i] = T.open_factory(c, path, Flaky, other[0][:2] if other else None)
            return made[i]

        for o in ops:
            if o["f"] >= len(cfgs):
                continue
            if o["op"] == "new":
                ds = sm = f = None      # nothing keeps a replaced image open
                factory(o["f"], True, o.get("swap"))
                sim.event("new", ti, o["f"])
                continue
            ds, sm, f = factory(o["f"])
            cfg = actual(o["f"])[1]
            if o["op"] == "ortho":
                if sm is None or not cfg["sm"]:
                    continue
                from aws.osml.photogrammetry import ImageCoordinate
                import math
                with sched.quiet():
                    c = sm.image_to_world(ImageCoordinate([cfg["img"]["w"] / 2, cfg["img"]["h"] / 2]))
                lo, la = c.longitude, c.latitude
                try:
                    f.create_orthophoto_tile((lo + o["d"], la + o["d"], lo + o["d"] + 1e-5, la + o["d"] + 1e-5), tuple(o["size"]))
                except Exception as e:
                    sim.event("ortho", ti, type(e).__name__)
                sim.probe("decoy-orthophotos")
                continue
            win = list(o["win"])
            out = None if o["out"] is None else tuple(o["out"])
            if o.get("sm_fail") is not None and isinstance(f.sensor_model, Flaky):
                f.sensor_model._left = o["sm_fail"]
            sim.injector.arm(o.get("faults", []))
            exc = r = None
            try:
                r = f.create_encoded_tile(win, out)
            except Exception as e:
                exc = e
            fired = sim.injector.disarm()
            if isinstance(f.sensor_model, Flaky):
                if o.get("sm_fail") is not None and f.sensor_model._left is None:
                    fired = fired + [["sensor-model", 0, "raise"]]
                f.sensor_model._left = None
            for x in fired:
                if x[0] != "sensor-model":
                    sim.fault(f"{x[0]}:{x[2]}")
            sim.event("tile", ti, o["f"], win, out, None if r is None else T.sha(r, cfg["fmt"]), type(exc).__name__)
            hist = (hist + [[o["f"], win, out, r is None]])[-3:]
            sim.state(hist)
            with sched.quiet():
                sim.check(win == o["win"], "window-argument-altered", f"{o['win']} -> {win}")
                spec = {"cfg": cfg, "win": o["win"], "out": o["out"], "exc": plan["exc"]}
                rf = sim.ref(spec)
                if r is None:
                    if rf["what"] == "tile":
                        sim.check(fired, "tile-refused", lambda: f"{cfg['img']['kind']} {cfg['fmt']} window {win} output {out}: {exc!r}, a fresh factory serves it")
                        sim.probe("failed-requests")
                    else:
                        sim.probe("rejected-requests")
                else:
                    sim.check(rf["what"] == "tile", "rejected-request-served", lambda: f"window {win} output {out}: a fresh factory refuses it")
                    sim.check(T.sha(r, cfg["fmt"]) == rf["sha"], "tile-depends-on-history",
                              lambda: f"{cfg['img']['kind']} {cfg['fmt']}/{cfg['comp']} window {win} output {out}: {len(r)} bytes, a fresh factory gives {rf['n']} bytes"
                              + first_diff(cfg, win, out, r))
                    T.check_tile(sim, cfg, win, out, bytes(r), rf)
                    kept.append((r, bytes(r)))
                    sim.probe("tiles-compared")
                    k = (o["f"], tuple(win), out)
                    if k in seen:
                        sim.probe("repeated-requests")
                    seen.add(k)
                for a, b in kept:
                    sim.check(a == b, "returned-tile-changed", "the bytes of an earlier tile were changed by a later request")
        made.clear()

    def first_diff(cfg, win, out, r):
        return ""

    ths = [t for t in plan["threads"]]
    if len(ths) <= 1:
        for t in ths:
            client(0, t)
    else:
        sim.threads([(lambda i=i, t=t: client(i, t)) for i, t in enumerate(ths)], plan["sched"])


def nontrivial(s):
    p = s["probes"]
    return p.get("tiles-compared", 0) >= 3 and (p.get("repeated-requests", 0) or p.get("rejected-requests", 0) or p.get("failed-requests", 0)
                                                or p.get("switches", 0) > 2)
