#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
from specs import SPECS
NA = {}
try: from specs import NOT_APPLICABLE as NA
except ImportError: pass
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=s.get("technique", "property-based testing: generated lattices and fields against a reference model"), level="exploration", level_note=s.get("note", "Generated-input search against an independent reference; says nothing about inputs that were not generated.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for this property yet")))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\"", hooks=dict(guard="JAXIONS_VERIF", enable="no hooks are compiled into the library; the harnesses link its sources unchanged", source_commits=[]), checks=checks, not_applicable=na,
         notes="Every check builds the library sources of /repo's working tree and its own harness into /verif/.build (content-hashed), so no set-up step is needed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks", len(na), "not claimed")
