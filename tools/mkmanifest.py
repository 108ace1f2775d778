#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/units.py and properties.jsonl."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from units import UNITS, LEVEL_NOTES, TECH
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = [dict(property=i, quick_cmd="python3 vrun.py %s --tier quick" % i, thorough_cmd="python3 vrun.py %s --tier thorough" % i,
               evidence_file="evidence/%s.json" % i, technique=TECH.get(i, "run-time monitoring with independent oracles under ASan/UBSan"),
               level="exploration", level_note=LEVEL_NOTES[i]) for i in ids if i in UNITS]
na = [dict(property=i, reason=NA.get(i, "Monitor not built.")) for i in ids if i not in UNITS]
m = dict(version=1, setup_cmd="python3 -c 'import json; json.load(open(\"MANIFEST.json\"))'", checks=checks, not_applicable=na,
         notes="Each check compiles the library headers of /repo's working tree into its monitors and runs them; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
