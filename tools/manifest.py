#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = ("Every step of thousands of recorded runs of the real program (native build of /repo's current tree) is compared with the "
        "TLA+ specification by TLC, and the property's own TLA+ predicate is evaluated on it; the specification itself is model "
        "checked in bounded models, whose operations are also replayed into the program. Trusts the harness's model of the Solana "
        "runtime and of the callee programs, and is exhaustive only within the models' bounds.")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": "TLA+ specification checked with TLC; recorded and model-generated runs of the real program validated against it",
                 "level": "model_checking", "level_note": NOTE} for i in ids],
     "not_applicable": []}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
