#!/usr/bin/env python3
# writes MANIFEST.json from harness/props.json and properties.jsonl
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/harness/props.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s" % p["id"], thorough_cmd="bash check.sh %s --tier thorough" % p["id"],
        technique=c.get("technique", "runtime monitoring: reference-model monitor over generated histories, ASan+UBSan build"),
        level=c["level"], level_note=c.get("note", "Held on the executions generated and observed by this run (counts in the evidence file); says nothing about histories not produced. Trusts gcc's sanitizers, the monitor's model and the independent encoders/writers in /verif/harness.")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every monitor observes at the public (or, for C03/C35, the library-internal) interface. Every check rebuilds the library from /repo's working tree with cmake+ninja into /verif/build (cached by content).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
