"""Writes MANIFEST.json from properties.jsonl and the scenarios that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over histories, schedules and faults"
NOTE = {
    "C01": "Every tile of a random history (several factories, rejected and failing requests, threads) is compared with the same request on a new factory in an unused process, and its pixels and corners with the generated source.",
    "C02": "Errors, empty results and exceptions are injected at every kind of GDAL call of a request, storage is cut off and restored in mid request; returned tiles must be byte-identical to the fault-free tile, leftovers are listed.",
    "C03": "Random chains of chips of chips with decoys; pixels, embedded XML and locations of the reopened chip are compared with the original image.",
    "C04": "Random lookups over tiles that vanish, get damaged and heal, cache sizes from zero, faults and threads; compared with an independent bilinear reference.",
    "C05": "Loads and retained tiles are compared with an executable least-recently-used model over random histories, failing loads and interleavings.",
    "C06": "Random histories of conversions on shared models, with failing elevation models and threads; each compared with a new model in an unused process.",
    "C07": "Random feature lists with model failures and worker crashes at chosen points, retries and concurrent workers; compared with a single undisturbed call and with direct conversions.",
    "C08": "Random nestings, credential rotations, failures while entering and threads; compared with a model of the configuration.",
    "C09": "Random truncation and damage of every kind of file and storage errors while opening, mixed with intact files whose results are compared with an unused process.",
    "C10": "Random histories of map tile requests with read and projection failures and threads; compared with an unused process and an independent resampling of the source.",
    "C11": "Elevation data is made unavailable in every way, totally or for single tiles; results compared with the same conversion without elevation model, and with the data after it comes back.",
    "C12": "Random histories over all parts of the toolkit with faults; source bytes compared after every step, on in-memory and real files.",
    "C13": "Random histories of conversions on all kinds of sensor models over flat, analytic and stored terrain with failing elevation data and threads; results judged by round trip, by the terrain and by independently computed imaging equations.",
    "C14": "Random histories of index construction with failing property accessors, queries, updates and changes of the collection, and threads; results compared with a brute-force search using independent rules for where the image geometry of a feature is found.",
    "C15": "Random histories of tile lookups, formatting and conversions with failing projections, callers that change their copies, and threads; results judged by the closed formulas of the tile matrix set and the ellipsoid.",
    "C16": "Random histories of encoded and map tiles of images with chosen histograms, with failing statistics and threads; values compared with an independently computed scale of the whole image, and with each other.",
    "C17": "Random histories of display conversions of generated pixel arrays and of map tiles of SAR images, with reused arrays, exceptions at arbitrary lines, failing reads and threads; levels compared with the published equations.",
    "C18": "Random documents generated from the recorded schemas, read, chipped and written in random histories with damaged input, exceptions at arbitrary lines and threads; the written text compared with the generated tree.",
}
TAIL = " Sampling, not proof: assurance grows with runs. Trusts GDAL, numpy and scipy, and the single-call behaviour of the code in an unused process where no independent reference is named."


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"/verif/check.py {i} --tier quick", "thorough_cmd": f"/verif/check.py {i} --tier thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration", "level_note": NOTE[i] + TAIL})
        elif i[0] == "N":
            na.append({"property": i, "reason": "A pure function of its input: no schedule, clock, fault, I/O or history for a simulator to control"})
        else:
            na.append({"property": i, "reason": "The scenario is not written yet"})
    m = {"version": 1, "setup_cmd": "/verif/tools/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all seams are module attributes wrapped at run time (GDAL bindings, threading locks, clocks, randomness)."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks")


main()
