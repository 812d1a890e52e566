#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
m = dict(version=1, setup_cmd="python3 tools/build.py asan sched plain tsan",
         hooks=dict(guard="none", enable="no hooks in /repo: instrumentation is by compiler flags and linker --wrap on an out-of-tree build of the working tree (tools/build.py)", source_commits=[]),
         checks=[], not_applicable=[], notes="check.py <id> rebuilds the library from /repo's working tree with instrumentation and runs the monitored workloads; see DESIGN.md. Repairs and findings are listed in known_findings.txt.")
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                                technique=c["technique"], level=c["level"], level_note=c["note"], evidence_file="evidence/%s.json" % p))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check under construction")))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
