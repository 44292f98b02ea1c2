#!/usr/bin/env python3
"""rewrites MANIFEST.json from the registered checks and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import registry
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NOTE = ("TLC model-checks the TLA+ specification where a bounded model is given and validates every trace recorded from the real code "
        "(built from /repo with AddressSanitizer, virtual time, scripted hardware) against it; inputs are generated from the specification and by a seeded generator, "
        "so coverage of inputs is bounded. Trusts TLC, the mock interface and the virtual clock.")
checks = []; na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="TLA+ specification; TLC model checking, generated behaviours replayed, recorded traces validated",
            level="model_checking", level_note=registry.NOTES.get(i, NOTE)))
    else: na.append(dict(property=i, reason=registry.NA.get(i, "no check has been built for this property yet")))
json.dump(dict(version=1, setup_cmd="python3 lib/hbuild.py " + " ".join(registry.SETUP), checks=checks, not_applicable=na,
    notes="Specifications in spec/*.tla (TLA+, TLC). No hooks in /repo: hardware, time and heap are replaced at link time."), open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
