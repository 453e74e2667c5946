#!/usr/bin/env python3
"""Generates DESIGN.md from tools/design_head.md, the properties, the evidence of the last quick runs, the known findings
and the results of the planted changes (tools/caught.json)."""
import json, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(root + "/tools/design_head.md").read().rstrip() + "\n"
notes = json.load(open(root + "/tools/notes.json"))
methods = json.load(open(root + "/tools/methods.json"))
out += "\n## Properties\n"
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    e = json.load(open("%s/evidence/%s.json" % (root, p["id"])))
    c = e["coverage"]
    out += "\n### %s: %s\n\n" % (p["id"], p["title"])
    out += "*Method*: %s. %s\n\n" % (notes[p["id"]][0], methods[p["id"]])
    out += "*Execution and oracle*: %s.\n\n" % c["rule"]
    groups = collections.OrderedDict()
    for s in c["scenarios"]:
        name = re.sub(r"(of|polling|nil|for|in|with) [a-z_0-9]+/v[a-z_0-9]+[^ ]*( .*)?$", r"\1 (each type or method)", s["name"])
        key = name if "(each" in name else s["name"]
        g = groups.setdefault(key, [0, 0, s["bounds"]])
        g[0] += 1
        g[1] += s["executions"]
        if s["bounds"] != g[2] and "(each" in key:
            g[2] = max(g[2], s["bounds"], key=len)
    out += "*Bounds (quick tier)*:\n\n"
    items = list(groups.items())
    for name, (n, x, bounds) in items[:24]:
        out += "- %s: %s (%s%d executions)\n" % (name, bounds, "%d scenarios, " % n if n > 1 else "", x)
    if len(items) > 24:
        out += "- and %d more scenarios of the same form\n" % (len(items) - 24)
    if e.get("assumptions"):
        out += "\n*Assumptions*: %s.\n" % "; ".join(e["assumptions"])
    total = sum(s["executions"] for s in c["scenarios"])
    out += "\n*Cost (quick)*: %d executions, about %d s in 8 cores.\n" % (total, round(e.get("wall_seconds") or e.get("wall_s") or 0))
    out += "\n*Why tests can't*: %s\n" % p["why_tests_cant"]
out += "\n## Defects found\n\nAll of them were reproduced on the real code. Those repaired have a commit in /repo that starts with `fix:`.\n\n"
for f in json.load(open(root + "/known_findings.json")):
    if f["status"] == "known":
        out += "- **%s, not repaired** (`%s`): %s\n" % (f["property"], f["id"], f["what"])
for f in json.load(open(root + "/known_findings.json")):
    if f["status"] != "known":
        out += "- %s, repaired in %s: %s\n" % (f["property"], f["commit"], f["what"])
out += "\n" + open(root + "/tools/design_tail.md").read().strip() + "\n"
caught = json.load(open(root + "/tools/caught.json"))
out += "\n## Planted changes\n\n| Change | Property | What it breaks | Caught by |\n| --- | --- | --- | --- |\n"
for sid in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, sid)))
    out += "| %s | %s | %s | %s |\n" % (sid, m["property"], m["what_it_breaks"], ", ".join(caught.get(sid, [])) or "nothing")
open(root + "/DESIGN.md", "w").write(out)
