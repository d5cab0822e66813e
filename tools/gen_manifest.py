"""Regenerate MANIFEST.json from properties.jsonl and the property modules that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "mc", "props", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    t = TECH[pid]
    checks.append(dict(property=pid, quick_cmd="./check %s" % pid, thorough_cmd="VERIF_TIER=thorough ./check %s" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=t[0], level="model_checking", level_note=t[1]))
json.dump(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: the checks import gerrychain from /repo's working tree and control Python's random module from outside. Findings and repairs: known_findings.json, DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
