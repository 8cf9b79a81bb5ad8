#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and checks/config.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(here + "/checks/config.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: " + conf[i].get("technique", "seeded search over schedules, histories and faults on the real code against a reference model"),
            level="exploration",
            level_note="Seeded random search, not exhaustive: no violation on the runs counted in the evidence file. Trusts g++'s instrumentation, the simulator in sim/ and the reference model in checks/%s.cpp. " % i + "; ".join(conf[i].get("assumptions", [])) + "."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are compiler instrumentation callbacks and link-time wrapping (see DESIGN.md). known_findings.json lists recorded and repaired defects.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
