"""Assembles DESIGN.md from tools/design_head.md, the property modules' bounds and tools/design_props.json."""
import json, os, re, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(V, "tools", "design_head.md")).read()
D = json.load(open(os.path.join(V, "tools", "design_props.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = [head, "\n## Per property\n"]
import sys
sys.path.insert(0, V)


def bounds(pid):
    src = open(os.path.join(V, "mc", "props", pid.lower() + ".py")).read()
    hist = open(os.path.join(V, "mc", "core", "hist.py")).read()
    hb = ast.literal_eval(re.search(r"^BOUNDS = (\{.*?^\})", hist, re.S | re.M).group(1))
    m = re.search(r"^BOUNDS = (\{.*?\n\}|\{t: b \+ (\".*?\")[^\n]*|hist\.BOUNDS)", src, re.S | re.M)
    t = m.group(1)
    if t.startswith("{t:"):
        x = ast.literal_eval(re.search(r"b \+ (\".*?\")", src, re.S).group(1))
        return {k: v + x for k, v in hb.items()}
    if t == "hist.BOUNDS":
        return hb
    return ast.literal_eval(t)


for p in props:
    d = D[p["id"]]
    b = bounds(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("- **Explored**: %s" % d["explored"])
    out.append("- **Oracle**: %s" % d["oracle"])
    out.append("- **Bounds (quick)**: %s." % b["quick"].rstrip("."))
    out.append("- **Bounds (thorough)**: %s." % b["thorough"].rstrip("."))
    out.append("- **Cost (quick)**: about %s on 8 cores." % d["cost"])
    out.append("- **Why this reaches what tests cannot**: %s\n" % p["why_tests_cant"])
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
out = "\n".join(out)
kf = json.load(open(os.path.join(V, "known_findings.json")))
out = out.replace("@@FIXED@@", "\n".join("- " + x for x in kf["fixed"])).replace("@@FINDINGS@@", "\n".join("- %s: %s" % (f["id"], f["what"]) for f in kf["findings"]))
rows = ["| change | needs | check |", "|---|---|---|"]
missed = set(open(os.path.join(V, "tools", "missed.txt")).read().split()) if os.path.exists(os.path.join(V, "tools", "missed.txt")) else set()
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), "not caught" if i in missed else m["property"]))
out = out.replace("@@SEEDED@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
