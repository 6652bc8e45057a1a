"""C08: temporary GDAL configuration never outlives its scope."""
RUNS = {"quick": 4500, "thorough": 100000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history of nested, repeated and failing configuration scopes (possibly on several simulated "
        "threads); non-trivial if at least two scopes were entered and at least one exception, injected fault or thread switch happened; "
        "distinct by the digest of the full event trace")
REAL = ["aws.osml.gdal.GDALConfigEnv", "load_gdal_dataset", "GDALTileFactory", "GDALDigitalElevationModelTileFactory", "DigitalElevationModel",
        "Geolocator", "get_image_extension", "get_type_and_scales",
        "GDAL configuration store"]
STUBS = ["gdal.SetConfigOption / GetConfigOption wrapped so that a chosen call raises while a scope is entered"]
ASSUMPTIONS = ["scopes of different threads use different options (GDAL configuration is process wide)",
               "setting an option cannot fail while options are being restored",
               "option values are compared through gdal.GetConfigOption"]
STATE_MEASURE = "complete option table after each operation"

KEYS = ["VSI_CACHE", "GDAL_HTTP_TIMEOUT", "CPL_VSIL_CURL_CHUNK_SIZE", "OSML_A", "OSML_B", "AWS_REGION", "AWS_SECRET_ACCESS_KEY",
        "AWS_ACCESS_KEY_ID", "AWS_SESSION_TOKEN", "GDAL_DISABLE_READDIR_ON_OPEN"]
CRED = {"AWS_SECRET_ACCESS_KEY": "SecretAccessKey", "AWS_ACCESS_KEY_ID": "AccessKeyId", "AWS_SESSION_TOKEN": "SessionToken"}


def prepare():
    from .. import world
    for i in IMGS:
        world.image_bytes(i)
    world.dem_bytes(DEM)


IMGS = [{"kind": "gt4326", "w": 24, "h": 20}, {"kind": "rpc", "w": 32, "h": 24}, {"kind": "sicd-capella", "w": 24, "h": 20, "bands": 2, "dtype": "f4"},
        {"kind": "sidd", "w": 24, "h": 20}, {"kind": "gtutm", "w": 40, "h": 30, "dtype": "u2", "bands": 3, "ovr": [2]}]
DEM = {"lon": 10, "lat": 49, "n": 21, "seed": 3}


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def val(rng):
    return rng.choice(["YES", "NO", "1", "42", "", "a=b", "secret" + str(rng.randrange(5)), 7, 0, True, 2.5])


def gen_body(rng, depth, envs, keys):
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.5 and depth < 5:
            ops.append({"op": "scope", "env": rng.randrange(envs), "as_call": rng.random() < 0.1, "ops": gen_body(rng, depth + 1, envs, keys)})
        elif r < 0.6:
            ops.append({"op": "creds", "env": rng.randrange(envs), "none": rng.random() < 0.2, "v": rng.randrange(100)})
        elif r < 0.7:
            ops.append({"op": "set", "key": rng.choice(keys), "val": rng.choice(["X", "Y", None])})
        elif r < 0.86:
            ops.append({"op": "raise", "what": rng.choice(["Boom", "Boom", "KeyError", "Stop", "GeneratorExit", "SystemExit"])})
        elif r < 0.92:
            ops.append({"op": "catch", "ops": gen_body(rng, depth + 1, envs, keys)})
        else:
            ops.append(gen_toolkit(rng))
    return ops


TOOLKIT = ["load", "tile", "tile", "missing", "damaged", "ortho", "dem", "dem", "dem-missing", "dem-damaged", "geolocate", "extension", "types"]
FAULTS = ["*", "*", "Open", "Translate", "Band.ReadAsArray", "Band.GetStatistics", "VSIFOpenL", "Dataset.GetMetadata"]


def gen_toolkit(rng):
    o = {"op": "toolkit", "what": rng.choice(TOOLKIT), "img": rng.randrange(len(IMGS)), "ra": rng.choice(["NONE", "MINMAX", "DRA"])}
    if rng.random() < 0.4:
        o["faults"] = [{"fn": rng.choice(FAULTS), "n": rng.randrange(0, 4), "kind": rng.choice(["err", "err", "raise", "mem"])}]
    return o


def gen_thread(rng, keys, single):
    envs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.15:
            envs.append(None)
        else:
            if rng.random() < 0.15 and any(isinstance(e, dict) and "same" not in e for e in envs):
                # two scopes made from one and the same dictionary
                envs.append({"same": rng.choice([i for i, e in enumerate(envs) if isinstance(e, dict) and "same" not in e])})
            else:
                envs.append({k: val(rng) for k in rng.sample(keys, rng.randrange(1, min(4, len(keys)) + 1))})
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        ops.append({"op": "catch", "ops": gen_body(rng, 0, len(envs), keys)})
    return {"envs": envs, "later": rng.choice(["none", "none", "change", "add", "remove", "clear"]), "keys": keys, "ops": ops, "creds": any(k.startswith("AWS_S") for k in keys)}


def gen(rng, tier, index):
    base = {k: rng.choice(["NO", "orig", "16384"]) for k in KEYS if rng.random() < 0.4}
    nt = rng.choice([1, 1, 1, 2, 3])
    if nt == 1:
        threads = [gen_thread(rng, KEYS, True)]
    else:
        ks = KEYS[:6] if rng.random() < 0.5 else [k for k in KEYS if not k.startswith("AWS_S") and not k.startswith("AWS_A")]
        rng.shuffle(ks)
        parts = [ks[i::nt] for i in range(nt)]
        threads = [gen_thread(rng, p, False) for p in parts]
        if rng.random() < 0.5:
            threads[0]["keys"] = threads[0]["keys"] + list(CRED)
            threads[0]["creds"] = True
        for i, t in enumerate(threads):
            if not t["creds"]:
                strip(t["ops"])
    faults = []
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 2, 3])):
            faults.append({"enter": rng.randrange(0, 8), "call": rng.randrange(0, 6), "kind": rng.choice(["raise", "after", "get"])})
    mode = rng.choice(["random", "random", "pct"])
    return {"base": base, "threads": threads, "faults": faults, "exc": rng.random() < 0.5,
            "default": rng.random() < 0.3,
            "sched": {"mode": mode, "seed": rng.randrange(1 << 30), "p": rng.choice([0.05, 0.2, 0.5]), "d": 4, "span": 300,
                      "opcode": rng.random() < 0.3}}


def strip(ops):
    for o in list(ops):
        if o["op"] == "creds":
            ops.remove(o)
        elif "ops" in o:
            strip(o["ops"])


def run(plan, sim):
    from osgeo import gdal
    from aws.osml.gdal import GDALConfigEnv, load_gdal_dataset, set_gdal_default_configuration
    from aws.osml.gdal import GDALImageFormats
    from aws.osml.image_processing.gdal_tile_factory import GDALTileFactory
    from .. import inject, world, sched
    real_set, real_get = inject.real(gdal.SetConfigOption), inject.real(gdal.GetConfigOption)
    allkeys = KEYS + ["GDAL_CACHEMAX", "CPL_DEBUG", "GDAL_NUM_THREADS"]
    for i, img in enumerate(IMGS):
        world.put(f"/vsimem/src{i}", world.image_bytes(img))
    world.put("/vsimem/bad.tif", world.image_bytes(IMGS[0])[:300])
    world.put("/vsimem/dem/n49_e010_.tif", world.dem_bytes(DEM))
    world.put("/vsimem/dem/bad.tif", world.dem_bytes(DEM)[:200])
    world.use_exceptions(plan["exc"])
    if plan["default"]:
        set_gdal_default_configuration()
    for k in KEYS:
        real_set(k, plan["base"].get(k))

    def table(keys):
        return {k: real_get(k) for k in keys}

    def everything():
        """All configuration options set in the process, whoever knows of them."""
        return dict(gdal.GetConfigOptions(), **table(allkeys))

    def toolkit(o):
        from aws.osml.gdal import GDALDigitalElevationModelTileFactory, RangeAdjustmentType, get_image_extension, get_type_and_scales
        from aws.osml.photogrammetry import DigitalElevationModel, GeodeticWorldCoordinate, ImageCoordinate, SRTMTileSet
        what = o["what"]
        path = f"/vsimem/src{o['img']}"
        if what in ("missing", "damaged"):
            load_gdal_dataset("/vsimem/none.tif" if what == "missing" else "/vsimem/bad.tif")
        elif what.startswith("dem-"):
            GDALDigitalElevationModelTileFactory("/vsimem/dem").get_tile("none.tif" if what == "dem-missing" else "bad.tif")
        elif what == "dem":
            dem = DigitalElevationModel(SRTMTileSet(version="", prefix="", format_extension=".tif"), GDALDigitalElevationModelTileFactory("/vsimem/dem"))
            for lon in (0.1758, 0.1760, 0.5):
                c = GeodeticWorldCoordinate([lon, 0.8639, 0.0])
                dem.set_elevation(c)
                dem.describe_region(c)
        elif what == "extension":
            get_image_extension("/vsimem/src0")
        else:
            ds, sm = load_gdal_dataset(path)
            if what == "types":
                get_type_and_scales(ds, 1, RangeAdjustmentType[o["ra"]])
            elif what == "tile":
                f = GDALTileFactory(ds, sm, GDALImageFormats.NITF if o["img"] != 4 else GDALImageFormats.PNG, range_adjustment=RangeAdjustmentType[o["ra"]],
                                    output_type=None if 1 < o["img"] < 4 else 1)
                f.create_encoded_tile([0, 0, 8, 8])
            elif what == "ortho":
                f = GDALTileFactory(ds, sm, range_adjustment=RangeAdjustmentType[o["ra"] if o["img"] not in (2, 4) else "MINMAX"])
                a, b = sm.image_to_world(ImageCoordinate([2, 18])), sm.image_to_world(ImageCoordinate([20, 2]))
                f.create_orthophoto_tile((min(a.x, b.x), min(a.y, b.y), max(a.x, b.x), max(a.y, b.y)), (8, 8))
            elif what == "geolocate":
                import geojson
                from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
                Geolocator(ImagedFeaturePropertyAccessor(), sm, None, 3).geolocate_features(
                    [geojson.Feature(geometry=None, properties={"imageBBox": [2, 3, 9, 12]})])

    start_all = everything()
    enters = [0]
    state = {}

    def runner(ti, th):
        keys = th["keys"]
        objs, opts, givens = [], [], []
        for e in th["envs"]:
            if e is not None and "same" in e and givens[e["same"]] is not None:
                given = givens[e["same"]]
                d = dict(opts[e["same"]])
            else:
                d = None if e is None else {k: v for k, v in e.items() if k in keys}
                given = None if d is None else dict(d)
            objs.append(GDALConfigEnv(given) if given is not None else GDALConfigEnv())
            givens.append(given)
            opts.append(dict(d or {}))
        # later changes of the caller's dictionary are not part of the scope
        for given in givens:
            if given is None:
                continue
            later = th.get("later", "none")
            if later == "add":
                given[keys[0]] = "later"
                given[keys[-1]] = "later"
            elif later == "change":
                for k in given:
                    given[k] = "later"
            elif later == "remove" and given:
                given.pop(next(iter(given)))
            elif later == "clear":
                given.clear()
        kept = [None if g is None else dict(g) for g in givens]

        def do(ops):
            for o in ops:
                what = o["op"]
                if what == "scope":
                    scope(o)
                elif what == "creds":
                    i = o["env"]
                    if o["none"]:
                        r = objs[i].with_aws_credentials(None)
                    else:
                        c = {v: f"{v}{o['v']}" for v in CRED.values()}
                        c["Expiration"] = "never"
                        r = objs[i].with_aws_credentials(c)
                        opts[i].update({k: f"{v}{o['v']}" for k, v in CRED.items()})
                        sim.probe("credential-rotations")
                    sim.check(r is objs[i], "builder-not-self")
                elif what == "set":
                    real_set(o["key"], o["val"])
                elif what == "raise":
                    sim.probe("exceptions-raised")
                    raise {"Boom": Boom, "KeyError": KeyError, "Stop": Stop, "GeneratorExit": GeneratorExit,
                           "SystemExit": SystemExit}[o["what"]]("x")
                elif what == "catch":
                    try:
                        do(o["ops"])
                    except (Boom, KeyError, Stop, GeneratorExit, SystemExit, RuntimeError) as e:
                        sim.event("caught", ti, type(e).__name__)
                        if isinstance(e, RuntimeError) and "simulated" not in str(e):
                            raise
                elif what == "toolkit":
                    before = everything()       # no other thread runs during this operation
                    sim.injector.arm(o.get("faults", []))
                    try:
                        with sched.quiet():
                            toolkit(o)
                    except sched.SimAbort:
                        raise
                    except Exception as e:
                        if not sim.injector.slots[sched.me()].fired and not o["what"].endswith(("missing", "damaged")):
                            raise
                        sim.event("toolkit-failed", o["what"], type(e).__name__)
                        sim.probe("toolkit-failures")
                    finally:
                        for x in sim.injector.disarm():
                            sim.fault(f"{x[0]}:{x[2]}")
                    after = everything()
                    sim.check(before == after, "toolkit-changed-configuration", lambda: diff(before, after))
                    sim.probe("toolkit-operations")

        def scope(o):
            i = o["env"]
            before = table(keys)
            want = {k: str(v) for k, v in opts[i].items()}
            n = enters[0]
            enters[0] += 1
            inj = sim.injector
            fl = [f for f in plan["faults"] if f["enter"] == n]
            body = {"ran": False, "exc": None}
            inj.arm([])
            if fl:
                arm_config_fault(sim, fl[0], ti)
            try:
                with objs[i]:
                    disarm_config_fault(sim)
                    body["ran"] = True
                    sim.probe("scopes-entered")
                    sim.event("entered", ti, i)
                    got = {k: real_get(k) for k in want}
                    sim.check(got == want, "option-not-in-effect", lambda: diff(want, got))
                    rest = {k: v for k, v in table(keys).items() if k not in want}
                    sim.check(all(before[k] == v for k, v in rest.items()), "option-set-that-was-not-requested", lambda: diff({k: before[k] for k in rest}, rest))
                    sim.state(sorted(table(keys).items(), key=str))
                    # what the body itself sets outside the scope's options stays; remember for the comparison
                    try:
                        snap = table(keys)
                        do(o["ops"])
                    except BaseException as e:
                        body["exc"] = e
                        raise
                    finally:
                        now = table(keys)
                        for k in keys:
                            if k not in want:
                                before[k] = now[k]
                if body["exc"] is not None:
                    sim.check(False, "exception-swallowed", repr(body["exc"]))
            except BaseException as e:
                fired = disarm_config_fault(sim)
                if isinstance(e, sched.SimAbort):
                    raise
                from ..core import Violation
                if isinstance(e, Violation):
                    raise
                if body["ran"]:
                    sim.check(e is body["exc"], "exception-replaced", f"{body['exc']!r} became {e!r}")
                else:
                    sim.check(fired, "enter-raised-without-fault", repr(e))
                check_restored(before)
                raise
            disarm_config_fault(sim)
            check_restored(before)

        def check_restored(before):
            after = table(keys)
            sim.check(after == before, "option-not-restored", lambda: diff(before, after))

        do(th["ops"])
        sim.check(givens == kept, "options-argument-mutated", lambda: f"{kept} became {givens}")

    ths = plan["threads"]
    if len(ths) == 1:
        runner(0, ths[0])
    elif ths:
        sim.threads([(lambda i=i, t=t: runner(i, t)) for i, t in enumerate(ths)], plan["sched"])
    if True:
        end = everything()
        sim.event("end", sorted(end.items(), key=str))
        changed = {k for k in set(end) | set(start_all) if end.get(k) != start_all.get(k)}
        legit = set()

        def walk(ops):
            for o in ops:
                if o["op"] == "set":
                    legit.add(o["key"])
                if "ops" in o:
                    walk(o["ops"])
        for t in ths:
            walk(t["ops"])
        sim.check(changed <= legit, "option-left-behind", lambda: diff(start_all, end))


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


_cfg = {}      # simulated thread -> pending fault


def arm_config_fault(sim, f, tid):
    from .. import sched
    _cfg[sched.me()] = {"left": f["call"], "kind": f["kind"], "fired": False}
    inj = sim.injector
    orig_decide = type(inj).decide

    def decide(name):
        c = _cfg.get(sched.me())
        if c is not None and c["left"] is not None:
            want = "GetConfigOption" if c["kind"] == "get" else "SetConfigOption"
            if name == want:
                if c["left"] == 0:
                    c["left"] = None
                    c["fired"] = True
                    sim.fault(f"{want}:{'raise' if c['kind'] != 'after' else 'after'}")
                    return "raise" if c["kind"] != "after" else "after-raise"
                c["left"] -= 1
        return orig_decide(inj, name)
    inj.decide = decide


def disarm_config_fault(sim):
    from .. import sched
    c = _cfg.pop(sched.me(), None)
    return bool(c and c["fired"])


def nontrivial(s):
    p = s["probes"]
    return p.get("scopes-entered", 0) >= 2 and (p.get("exceptions-raised", 0) or s["faults"] or p.get("switches", 0) > 2)
