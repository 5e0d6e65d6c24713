#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def c(id, technique, note, level="exploration"):
    T[id] = (technique, level, note)

c("C01", "property-based testing: generated git histories against a model of the trees",
  "Random histories of up to 16 commits; the oracle is the content the generator stored (not parsed back through diffs). Trusts git fast-import and git's rename detection.")
c("C02", "property-based testing: generated git histories against an attribution model",
  "Expected attribution comes from globally unique lines (set intersection, no diff involved) or, for repeated lines, from a full-context git diff; merges allow any identical parent.")
c("C03", "property-based testing: generated git histories and ref layouts against the generated DAG and git's raw change list",
  "Commit set and order are decided from the generated DAG, file sets from git diff-tree per parent.")
exec(open(os.path.join(here, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(here, "tools", "manifest_more.py")) else None

props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "Every check builds the harness (harness/, Go) against /repo's working tree in a temporary directory. Shared known findings and fixes: known-findings.txt. Replay a failure with: ./replay.sh FILE"}
for id in props:
    if id in T:
        t, lv, n = T[id]
        m["checks"].append({"property": id, "quick_cmd": "./check.sh %s quick" % id, "thorough_cmd": "./check.sh %s thorough" % id,
            "evidence_file": "evidence/%s.json" % id, "technique": t, "level": lv, "level_note": n})
    else:
        m["not_applicable"].append({"property": id, "reason": "check not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
