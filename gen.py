#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from checks/ (run by hand after adding a property)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import ALL, NA  # noqa: E402
from checks.meta import META  # noqa: E402

TECH = "abstract interpretation of the LLVM IR of the real sources (symbolic value graph, no execution, no solver), obligations decided by algebraic normalisation and value numbering"
NOTE = ("Decides the obligations listed in the evidence file on the value graph of the code under analysis, for arbitrary inputs/cells; real arithmetic instead of floating point (rounding ignored), "
        "equality decided by random interpretation over a 61-bit prime field (error probability below 2^-50). Trusts clang 18's IR, the declaration model of Kokkos/MPI/PDI in stubs/, and the drivers in spec/ that state the obligations.")
out = []
checks = []
na = []
for pid in sorted(META):
    m = META[pid]
    title = (ALL.get(pid) or (NA[pid][0],))[0]
    out.append({"id": pid, "title": title, "statement": m["statement"], "quantifier": {"over": m["over"], "text": m["text"]},
                "why_tests_cant": m["why"], "anchors": {"files": m["files"], "mechanism": m["mech"]}})
    if pid in ALL:
        checks.append({"property": pid, "quick_cmd": "python3 run.py %s" % pid, "thorough_cmd": "python3 run.py %s --thorough" % pid,
                       "technique": m.get("tech") or TECH, "level": "other", "level_note": m["note"] or NOTE})
    else:
        na.append({"property": pid, "reason": NA[pid][1]})
missing = set(ALL) - set(META)
assert not missing, missing
with open("properties.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
json.dump({"version": 1,
           "setup_cmd": "mkdir -p build && clang++-18 -O1 -std=c++17 $(llvm-config-18 --cxxflags) -fno-rtti tool/irdump.cpp -o build/irdump -L/usr/lib/llvm-18/lib -lLLVM-18",
           "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    for o in out:
        jsonschema.validate(o, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    print("jsonschema not available")
print(len(out), "properties", len(checks), "checks")
