"""C18: a SICD or SIDD document that is read and written says the same."""
import copy
import json
import xml.etree.ElementTree as ET

RUNS = {"quick": 360, "thorough": 12000}
LEVEL = "exploration"
RULE = ("one evaluation is one simulated history in which generated SICD and SIDD documents of all supported versions are read, updated for chips and "
        "written, by one or several threads, with torn and damaged documents and with allocation failures at arbitrary lines of the toolkit and the XML "
        "binding; non-trivial if a written document was compared with what was generated after a failure, an update of another document or next to "
        "another thread; distinct by the digest of the event trace")
REAL = ["SICDUpdater", "SIDDUpdater", "generated SICD 1.2.1, 1.3.0 and SIDD 1.0, 2.0, 3.0 data classes", "xsdata", "lxml"]
STUBS = ["an exception is raised at a chosen executed line (allocation failure)"]
ASSUMPTIONS = ["the structure of the documents is the one recorded in fixtures/schemas.json, taken once from the classes generated from the official schemas",
               "numbers and times are the same if their values are, whatever their notation"]
STATE_MEASURE = "kinds of document, kinds and outcomes of the last two operations"
KINDS = ["sicd121", "sicd130", "sidd100", "sidd200", "sidd300"]


def gen_op(rng, nd, thr):
    r = rng.random()
    o = {"d": rng.randrange(nd), "u": rng.randrange(3)}
    if r < 0.25:
        o["op"] = "read"
    elif r < 0.5:
        o["op"] = "write"
    elif r < 0.75:
        o.update(op="chip", win=[rng.choice([0, 3, 100, 7000]), rng.choice([0, 5, 999]), rng.choice([2, 16, 512]), rng.choice([2, 33, 1024])],
                 out=rng.choice([None, None, [4, 8]]))
    elif r < 0.85 and not thr:
        o.update(op="torn", at=rng.choice([0.0, 0.05, 0.5, 0.9, 0.999, round(rng.random(), 4)]))
    elif r < 0.95 and not thr:
        o.update(op="damage", how=rng.choice(["char", "drop", "extra", "version", "twice"]), at=round(rng.random(), 4))
    else:
        o["op"] = "reread"
    if not thr and o["op"] in ("read", "write", "chip", "reread") and rng.random() < 0.3:
        o["fail"] = rng.choice([0, 1, 5, 40, 200, 1000, 5000, rng.randrange(3000)])
    return o


def gen(rng, tier, index):
    nd = rng.choice([1, 2, 3])
    docs = []
    for _ in range(nd):
        docs.append({"kind": rng.choice(KINDS), "seed": rng.randrange(1 << 30), "rich": rng.choice([0.0, 0.1, 0.3, 0.7]), "layout": rng.choice([None, rng.randrange(1000)])})
    if rng.random() < 0.3 and nd > 1:
        docs[1] = dict(docs[0], layout=docs[1]["layout"])
        if rng.random() < 0.5:
            docs[1]["seed"] += 1
    plan = {"docs": docs, "ops": [gen_op(rng, nd, False) for _ in range(rng.choice([3, 6, 10]))], "threads": []}
    if rng.random() < 0.4:
        plan["threads"] = [[gen_op(rng, nd, True) for _ in range(rng.choice([2, 4]))] for _ in range(rng.choice([2, 3]))]
        for d in docs:
            d["rich"] = min(d["rich"], 0.1)
            d["budget"] = 200
    deep = rng.random() < 0.5
    plan["sched"] = {"mode": rng.choice(["random", "random", "pct"]) if deep else "random", "seed": rng.randrange(1 << 30),
                     "p": rng.choice([0.0005, 0.005, 0.05] if deep else [0.1, 0.3, 0.5]),
                     "d": rng.choice([3, 8]), "span": rng.choice([3000, 60000]), "packages": ["xsdata"] if deep else []}
    return plan


_cache = {}


def document(d):
    import random
    from .. import docgen
    key = json.dumps(d, sort_keys=True)
    if key not in _cache:
        if len(_cache) > 100:
            _cache.clear()
        tree = docgen.generate(random.Random(d["seed"]), d["kind"], d["rich"], d.get("budget", 900))
        _cache[key] = (tree, docgen.render(tree, None if d["layout"] is None else random.Random(d["layout"])))
    return _cache[key]


def run(plan, sim):
    from aws.osml.image_processing.sicd_updater import SICDUpdater
    from aws.osml.image_processing.sidd_updater import SIDDUpdater
    from .. import docgen, sched
    docs = [document(d) for d in plan["docs"]]
    kinds = [d["kind"] for d in plan["docs"]]
    last = []

    def make(i, text):
        return (SICDUpdater if kinds[i].startswith("sicd") else SIDDUpdater)(text)

    def attempt(o, fn):
        """(result, exception, the simulated failure happened)"""
        if o.get("fail") is None:
            try:
                return fn(), None, False
            except Exception as e:
                return None, e, False
        f = sched.LineFault(o["fail"], MemoryError("simulated allocation failure"), ("xsdata",))
        r = exc = None
        with f:
            try:
                r = fn()
            except Exception as e:
                exc = e
        if f.fired:
            sim.fault("line:mem")
        return r, exc, f.fired

    def expected(i, chip):
        """The tree a document must be equal to, and the names of a part that is judged elsewhere."""
        tree = docs[i][0]
        if chip is None:
            return tree
        tree = copy.deepcopy(tree)
        win = chip["win"]
        if kinds[i].startswith("sicd"):
            data = docgen.find(tree, "ImageData")
            for name, delta, fixed in (("NumRows", None, win[3]), ("NumCols", None, win[2]), ("FirstRow", win[1], None), ("FirstCol", win[0], None)):
                n = docgen.find(data, name)
                n["v"] = ["int", str(fixed if delta is None else int(n["v"][1]) + delta)]
        return tree

    def strip(text):
        """A SIDD document without its geometric chip, and that chip."""
        root = ET.fromstring(text.encode("utf-8"))
        for e in root:
            if e.tag.endswith("}DownstreamReprocessing"):
                for c in list(e):
                    if c.tag.endswith("}GeometricChip"):
                        e.remove(c)
                        if not len(e):
                            root.remove(e)
                        return ET.tostring(root, encoding="unicode"), c
        return text, None

    def strip_tree(tree):
        tree = copy.deepcopy(tree)
        d = docgen.find(tree, "DownstreamReprocessing")
        old = None
        if d is not None:
            old = docgen.find(d, "GeometricChip")
            d["c"] = [c for c in d["c"] if not c["t"].endswith("}GeometricChip")]
            if not d["c"] and not d["a"]:
                tree["c"] = [c for c in tree["c"] if c is not d]
        return tree, old

    def verify(i, chip, text, where):
        sim.check(isinstance(text, str), "not-a-document", lambda: f"{where}: {type(text)}")
        if kinds[i].startswith("sidd") and chip is not None:
            tree, old = strip_tree(docs[i][0])
            rest, new = strip(text)
            diff = docgen.differences(tree, rest)
            sim.check(new is not None, "no-chip", where)
            vals = {e.tag.split("}")[-1]: [float(c.text) for c in e] for e in new}
            size = chip.get("out") or chip["win"][2:]
            sim.check(vals.get("ChipSize") == [size[1], size[0]], "wrong-chip", lambda: f"{where}: {vals}, requested {chip}")
            if old is None:
                x, y, w, h = chip["win"]
                want = {"OriginalUpperLeftCoordinate": [y, x], "OriginalUpperRightCoordinate": [y, x + w - 1], "OriginalLowerLeftCoordinate": [y + h - 1, x],
                        "OriginalLowerRightCoordinate": [y + h - 1, x + w - 1]}
                for k, v in want.items():
                    sim.check(vals.get(k) == v, "wrong-chip", lambda: f"{where}: {k} {vals.get(k)}, requested {chip}")
        else:
            diff = docgen.differences(expected(i, chip), text)
        sim.check(not diff, "document-changed", lambda: f"{where}: {'; '.join(diff)}")
        sim.probe("documents-verified")
        if len(last) > 1:
            sim.probe("verified-after-history")

    def step(o, ups, me):
        i = o["d"] % len(docs)
        tree, text = docs[i]
        where = f"{kinds[i]} {json.dumps(o)} after {last[-3:]}"
        op, exc, fired = o["op"], None, False
        slot = (i, o["u"])
        if op == "torn":
            bad = text[:int(len(text.rstrip()) * o["at"])]
            r, exc, fired = attempt(o, lambda: make(i, bad))
            sim.fault("document:torn")
            sim.check(r is None, "torn-document-accepted", lambda: f"{where}: {len(bad)} of {len(text)} characters")
        elif op == "damage":
            k = int(len(text) * o["at"])
            must = True
            if o["how"] == "char":
                k = text.find("<", k)
                k = k if k > 0 else text.rfind("<")
                bad = text[:k] + text[k + 1:]
            elif o["how"] == "drop":
                k = text.rfind("</", 0, max(k, len(text) // 2))
                bad = text[:k] + text[text.find(">", k) + 1:] if k > 0 else text[:-1]
            elif o["how"] == "twice":
                bad = text + text
            else:
                must = False
                if o["how"] == "extra":
                    k = text.rfind("</")
                    bad = text[:k] + "<Unheard><Of>17</Of></Unheard>" + text[k:]
                else:
                    bad = text.replace(":1.", ":9.").replace(":2.", ":8.").replace(":3.", ":7.")
            if must:
                try:
                    ET.fromstring(bad.encode("utf-8"))
                    return                              # still a document by chance
                except ET.ParseError:
                    pass
            r, exc, fired = attempt(o, lambda: make(i, bad))
            sim.fault("document:" + o["how"])
            if must:
                sim.check(r is None, "damaged-document-accepted", where)
            elif r is not None:
                out = r.encode_current_xml()
                sim.check("Unheard" in out if o["how"] == "extra" else docgen.differences(tree, out) != [], "content-dropped", where)
        else:
            u = ups.get(slot)
            if op in ("read", "reread") or u is None:
                src, chip = text, None
                if op == "reread" and u is not None and u[0] is not None:
                    chip = u[1]
                    src = u[0].encode_current_xml()
                    verify(i, chip, src, where)
                up, exc, fired = attempt(o if op in ("read", "reread") else {}, lambda: make(i, src))
                sim.check(up is not None or fired, "document-refused", lambda: f"{where}: {exc!r}")
                if up is None:
                    ups.pop(slot, None)
                else:
                    if src is text:
                        ups[slot] = u = [up, None, True]
                    verify(i, chip, up.encode_current_xml(), where)
            if op == "chip" and u is not None:
                out = o["out"] if kinds[i].startswith("sidd") else None
                r, exc, fired = attempt(o, lambda: u[0].update_image_data_for_chip(list(o["win"]), tuple(out) if out else None))
                sim.check(exc is None or fired, "chip-refused", lambda: f"{where}: {exc!r}")
                if exc is None:
                    u[1], u[2] = {"win": o["win"], "out": out}, True
                    verify(i, u[1], u[0].encode_current_xml(), where)
                else:
                    u[2] = False               # what it says now is between the two chips
            elif op == "write" and u is not None and u[2]:
                out, exc, fired = attempt(o, u[0].encode_current_xml)
                sim.check(out is not None or fired, "not-written", lambda: f"{where}: {exc!r}")
                if out is not None:
                    verify(i, u[1], out, where)
                verify(i, u[1], u[0].encode_current_xml(), where)
        last.append((op, kinds[i], type(exc).__name__ if exc else "ok"))
        sim.event(me, op, kinds[i], type(exc).__name__, fired)
        sim.state(tuple(last[-2:]))

    ups = {}
    for o in plan["ops"]:
        step(o, ups, 0)
    ths = [t for t in plan["threads"] if t]
    if ths:
        sim.threads([(lambda t=t, k=k: [step(o, own, k + 1) for own in [{}] for o in t]) for k, t in enumerate(ths)], plan["sched"])
        sim.probe("shared")
    # every updater still says what it should
    for (i, k), u in sorted(ups.items()):
        if u[2]:
            verify(i, u[1], u[0].encode_current_xml(), f"{kinds[i]} at the end, after {last[-3:]}")


def nontrivial(s):
    p = s["probes"]
    return p.get("verified-after-history", 0) > 0 and (p.get("shared", 0) > 0 or bool(s["faults"]) or p.get("documents-verified", 0) > 2)
