"""C02: a tile request that hits an error never yields a partial tile or leftovers."""
RUNS = {"quick": 620, "thorough": 14000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of tile requests and factory constructions during which storage loses and regains its bytes "
        "and library calls fail at chosen positions; non-trivial if at least one fault fired or storage was cut during a request and at least "
        "one correct tile was served afterwards; distinct by the digest of the event trace")
REAL = ["load_gdal_dataset", "GDALTileFactory", "SICDUpdater", "SIDDUpdater", "get_type_and_scales", "all sensor models",
        "GDAL drivers NITF, GTiff, PNG, JPEG, JP2OpenJPEG (real read errors on cut-off files)"]
STUBS = ["storage is GDAL's in-memory file system, cut off and restored by the simulator",
         "GDAL functions wrapped to fail before or after doing their work (exception or empty result, depending on GDAL's mode)",
         "sensor model wrapper that raises at a chosen call"]
ASSUMPTIONS = ["removing and closing temporary files does not fail", "reads from the in-memory file system are not short",
               "a source whose bytes are cut off gives read errors (uncompressed and LZW/DEFLATE sources), it does not return other bytes",
               "metadata segments of a NITF file and, with range adjustment, the pixels are intact while a factory is constructed (GDAL drops "
               "cut-off segments and ignores unreadable blocks when it approximates statistics, without an error)",
               "a GDAL handle that can no longer read its file after an outage is refused service until the image is opened again",
               "a statistics side file next to the source is allowed"]
STATE_MEASURE = "outcome, faults fired and storage state of the last two requests"

import itertools


def gen(rng, tier, index):
    from .. import tileworld as T, world
    kinds = rng.choice([None, None, ["sicd-capella", "sicd-pfa", "sicd-rma", "sicd-rgaz", "sidd", "sidd-chip", "sidd100"]])
    img = T.gen_image(rng, kinds)
    if rng.random() < 0.04:
        img = {"kind": rng.choice(["gt4326", "nitf", "tif", "rpc"]), "w": 1100, "h": 700, "pseed": 1, "bands": rng.choice([1, 3]), "dtype": rng.choice(["u1", "f4"])}
    cfg = T.gen_cfg(rng, img)
    ops = []
    enum = index % 3 == 0       # single faults at every position in turn
    for k in range(rng.choice([3, 6, 10])):
        r = rng.random()
        w = T.gen_window(rng, img) if rng.random() < 0.93 else T.gen_bad_window(rng, img)
        o = {"op": "tile", "win": w, "out": T.gen_out(rng, w) if w[2] > 0 and w[3] > 0 else None}
        if r < 0.12:
            o = {"op": "new"}
        if rng.random() < 0.6:
            what = rng.random()
            if what < 0.45:
                fns = ["Translate", "VSIFOpenL", "VSIStatL", "VSIFReadL", "*", "*"] if o["op"] == "tile" else ["Open", "Band.GetStatistics", "Band.GetHistogram", "*"]
                o["faults"] = [{"fn": rng.choice(fns), "n": rng.choice([0, 0, 0, 1, 2, 3]), "kind": rng.choice(["err", "err", "after", "raise" if rng.random() < 0.2 else "err"])}
                               for _ in range(rng.choice([1, 1, 2]))]
            elif what < 0.6:
                o["sm_fail"] = rng.randrange(0, 5)
            else:
                o["cut"] = {"at": rng.choice(["before", "before", 0, 1, 2, 3]), "frac": rng.choice([0.0, 0.3, 0.5, 0.6, 0.8, 0.9, 0.95, 0.99]),
                            "heal": rng.choice(["after", "after", "later"])}
        if o["op"] == "new" and (img["kind"] not in world.TIFF_KINDS or cfg["ra"] != "NONE"):
            o.pop("cut", None)      # see ASSUMPTIONS
        ops.append(o)
    if enum:
        ops = []
        w = T.gen_window(rng, img)
        for n in range(0, 6):
            ops.append({"op": "tile", "win": w, "out": None, "faults": [{"fn": "*", "n": n, "kind": ["err", "after", "raise"][(index // 3) % 3]}]})
        for n in range(0, 4):
            ops.append({"op": "tile", "win": w, "out": None, "sm_fail": n})
    ops.append({"op": "heal"})
    ops.append({"op": "tile", "win": T.gen_window(rng, img), "out": None})
    return {"cfg": cfg, "exc": rng.random() < 0.5, "ops": ops}


def warm(plan):
    from .. import world
    world.image_bytes(plan["cfg"]["img"])


def ref(spec):
    from .. import tileworld as T
    return T.ref_tile(spec)


def run(plan, sim):
    from .. import world, tileworld as T
    cfg = plan["cfg"]
    world.use_exceptions(plan["exc"])
    path = "/vsimem/in/image"
    good = world.image_bytes(cfg["img"])
    world.put(path, good)

    errors = itertools.count()

    class Flaky:
        def __init__(self, sm):
            self._sm, self._left = sm, None

        def image_to_world(self, *a, **k):
            if self._left is not None:
                if self._left == 0:
                    self._left = None
                    sim.fault("sensor-model:raise")
                    raise world.model_error(plan.get("index", 0) + next(errors))
                self._left -= 1
            return self._sm.image_to_world(*a, **k)

        def world_to_image(self, *a, **k):
            return self._sm.world_to_image(*a, **k)

    allowed = {"/vsimem/in", "/vsimem/in/", path, path + ".aux.xml"}
    state = {"cut": False, "hist": []}
    cur = [None]

    def heal():
        if state["cut"]:
            world.overwrite(path, good)
            state["cut"] = False
            sim.event("heal")

    def readable(win):
        with world.bare():
            try:
                return cur[0][0].ReadAsArray(win[0], win[1], win[2], win[3]) is not None
            except Exception:
                return False

    def cut(frac):
        state["ever"] = True
        world.overwrite(path, good[:int(len(good) * frac)])
        state["cut"] = True
        sim.fault("storage:cut")
        sim.event("cut", frac)

    def guarded(o, body):
        """Runs one operation under its faults; returns (result, exception, disturbed)."""
        touched = [state["cut"]]
        hooks = []
        c = o.get("cut")
        if c:
            if c["at"] == "before":
                cut(c["frac"])
                touched[0] = True
            else:
                def hook(name, j, c=c):
                    if j == c["at"] and not state["cut"]:
                        cut(c["frac"])
                        touched[0] = True
                hooks.append(hook)
        flaky = cur[0][2].sensor_model if cur[0] is not None and isinstance(getattr(cur[0][2], "sensor_model", None), Flaky) else None
        if flaky is not None and o.get("sm_fail") is not None and o["op"] == "tile":
            flaky._left = o["sm_fail"]
        sim.injector.arm(o.get("faults", []), hooks)
        r = exc = None
        try:
            r = body()
        except Exception as e:
            exc = e
        fired = sim.injector.disarm()
        for x in fired:
            sim.fault(f"{x[0]}:{x[2]}")
        sm_fired = flaky is not None and o.get("sm_fail") is not None and o["op"] == "tile" and flaky._left is None
        if flaky is not None:
            flaky._left = None
        if c and c["heal"] == "after":
            heal()
        return r, exc, bool(fired) or sm_fired or touched[0]

    def no_leftovers(where):
        left = [x for x in world.listing("/vsimem/") if x not in allowed]
        sim.check(not left, "leftover-files", lambda: f"{where}: {left}")
        sim.check(sim.injector.opened == sim.injector.closed, "leftover-handles",
                  lambda: f"{where}: {sim.injector.opened} opened, {sim.injector.closed} closed")

    # the factory under test is made without faults first
    cur[0] = T.open_factory(cfg, path, Flaky)
    for o in plan["ops"]:
        if o["op"] == "heal":
            heal()
            continue
        if o["op"] == "new":
            if cfg["img"]["kind"] not in world.TIFF_KINDS or cfg["ra"] != "NONE":
                heal()      # see ASSUMPTIONS
            r, exc, disturbed = guarded(o, lambda: T.open_factory(cfg, path, Flaky))
            sim.event("new", r is not None, type(exc).__name__)
            sim.check(r is not None or disturbed, "factory-refused", repr(exc))
            if r is not None:
                cur[0] = r
                sim.probe("factories-made-under-faults" if disturbed else "factories")
            else:
                sim.probe("failed-factories")
            no_leftovers("factory construction")
            continue
        win, out = list(o["win"]), None if o["out"] is None else tuple(o["out"])
        f = cur[0][2]
        r, exc, disturbed = guarded(o, lambda: f.create_encoded_tile(win, out))
        sim.event("tile", win, out, None if r is None else T.sha(r, cfg["fmt"]), type(exc).__name__, disturbed)
        state["hist"] = (state["hist"] + [(r is None, type(exc).__name__, disturbed, state["cut"])])[-2:]
        sim.state((cfg["img"]["kind"], cfg["fmt"], state["hist"]))
        no_leftovers(f"request {win}")
        rf = sim.ref({"cfg": cfg, "win": o["win"], "out": o["out"], "exc": plan["exc"]})
        if r is None and not disturbed and state.get("ever") and not readable(win):
            # GDAL's own handle remembers the outage (lazily read tables of a TIFF); the request is refused, which is right
            sim.probe("handle-broken-by-outage")
        elif r is None:
            sim.check(disturbed or rf["what"] != "tile", "tile-refused-without-fault",
                      lambda: f"{cfg['img']['kind']} {cfg['fmt']} window {win} output {out}: {exc!r}")
            sim.probe("failures-reported" if disturbed else "rejected-requests")
        else:
            sim.check(rf["what"] == "tile", "rejected-request-served", f"window {win} output {out}")
            sim.check(T.sha(r, cfg["fmt"]) == rf["sha"], "wrong-tile-after-fault" if disturbed else "wrong-tile",
                      lambda: f"{cfg['img']['kind']} {cfg['fmt']}/{cfg['comp']} {cfg['ra']} window {win} output {out}: {len(r)} bytes differ from the {rf['n']} bytes of a fresh factory")
            T.check_tile(sim, cfg, win, out, bytes(r), rf)
            sim.probe("tiles-under-faults" if disturbed else "tiles")
    cur[0] = None


def nontrivial(s):
    return bool(s["faults"]) and s["probes"].get("tiles", 0) > 0
