#!/usr/bin/env python3
"""Rewrites properties.jsonl, MANIFEST.json and the generated part of DESIGN.md from tools/meta.py and spec.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "tools")]
from meta import P
from spec import CHECKS
with open(H + "/properties.jsonl", "w") as f:
    for i in sorted(P):
        p = P[i]
        assert len(p["title"]) <= 80, i
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in sorted(P):
    p = P[i]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
          "thorough_cmd": "python3 run.py %s --tier thorough" % i, "technique": p["tech"], "level": "exploration",
          "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
d = open(H + "/DESIGN.md").read()
A, B = "<!-- generated: properties -->\n", "<!-- end generated -->\n"
pre, rest = d.split(A); post = rest.split(B)[1]
body = ""
for i in sorted(P):
    p = P[i]
    src = ", ".join(sorted({"harness/" + b["src"] for b in CHECKS.get(i, {}).get("builds", [])}))
    body += "### %s %s\n\n%s\n\nHow: %s\n\nBounds: %s\n\nFiles: %s\n\n" % (i, p["title"], p["statement"], p["design"], p["note"], src)
A2, B2 = "<!-- generated: planted -->\n", "<!-- end planted -->\n"
p1, p2 = post.split(A2)[0], post.split(B2)[1]
caught = json.load(open(H + "/tools/caught.json"))
t = "| planted change | manifests with | breaks | caught by (property: test[failure]) | first missed |\n|---|---|---|---|---|\n"
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/" + i + "/meta.json"))
    c = caught.get(i, {})
    t += "| %s | %s | %s | %s | %s |\n" % (i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), c.get("by", "?").replace("|", "/"), c.get("missed", ""))
post = p1 + A2 + t + B2 + p2
open(H + "/DESIGN.md", "w").write(pre + A + body + B + post)
