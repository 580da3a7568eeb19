#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
GEO = "TLA+ map specification; TLC validates recorded histories of the real library against it"
GEONOTE = ("Each history of the real library is replayed in the TLA+ specification by TLC, which computes every next state itself; "
           "bounded by the generated maps and histories. Trusts TLC, the driver's projection of the map state and exact integer geometry on quarter-pixel coordinates.")
CHECKS = {}
for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17):
    CHECKS["C%02d" % i] = (GEO, GEONOTE)
EXTRA = os.path.join(ROOT, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    CHECKS.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 checks/run.py %s quick" % p,
                                thorough_cmd="python3 checks/run.py %s thorough" % p,
                                technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason="not built yet: the specification does not cover this part so far"))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
