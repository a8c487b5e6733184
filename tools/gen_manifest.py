#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py (properties with workloads) and lib/notes.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []; na = []
for i in ids:
    P = props.PROPS.get(i)
    if P is None:
        na.append(dict(property=i, reason=props.NOT_YET.get(i, "no check is registered yet; the technique applies and the workload is being built")))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=P.get("technique", props.TECH), level=P["level"], level_note=P.get("note", props.NOTE)))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks are compiled into /repo: the monitors use the public headers, the data structures they declare and link-time wrapping of system calls", source_commits=[]),
         checks=checks, not_applicable=na, notes="See DESIGN.md. known_findings.txt lists recorded and repaired defects.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
