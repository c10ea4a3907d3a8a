#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {}
for f in sorted(os.listdir(V + "/harness")):
    if f.startswith("chk_"):
        src = open(V + "/harness/" + f).read()
        m = re.search(r"^CHECKS = dict\((.*?)\)", src, re.M | re.S)
        for p in re.findall(r"(C\d\d)=", m.group(1)):
            have[p] = f
NOTES = {}
exec(open(V + "/tools/notes.py").read())
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    checks.append(dict(property=i, quick_cmd="bash bin/check %s quick" % i, thorough_cmd="bash bin/check %s thorough" % i,
        evidence_file="evidence/%s.json" % i, level="model_checking",
        technique="TLA+ specification (%s) model-checked with TLC; recorded calls of the real code validated by TLC against it" % NOTES[i][0],
        level_note=NOTES[i][1]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "not built yet")) for p in props if p["id"] not in have]
m = dict(version=1, setup_cmd="bash bin/setup", hooks=dict(guard="none", enable="no hooks: the public API exposes the state", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+/TLC. See DESIGN.md. known_findings.jsonl lists recorded defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
