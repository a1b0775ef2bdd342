#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TRUST = " Trusted: the driver that records the calls, the numeric primitives of the specification (Num/Vec, checked against their TLA+ definitions by VecTest), gcc, MKL and TLC."
NOTE = {
 "default": "Every recorded history is decided against the TLA+ specification: TLC explores all behaviours the specification allows for that history (rounding-dependent tests branch) and the history must be one of them, aspect by aspect. Exhaustive over the specification's control behaviours in the bounded model; sampled over data and histories of the real code.",
}
checks = [dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
               evidence_file="evidence/%s.json" % i, technique="TLA+ specification checked with TLC; recorded executions of the library validated against it (trace validation) on specification-derived histories",
               level="model_checking", level_note=NOTE.get(i, NOTE["default"]) + TRUST) for i in ids]
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=[],
               notes="No hooks in /repo: the public API exposes the abstract state; time, memory, signals and the linear-algebra library are observed and controlled by interposing external symbols at link time (harness/driver.c)."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
