#!/usr/bin/env python3
"""One description per property, in tools/props/*.json (python literals): writes properties.jsonl,
MANIFEST.json and checks.json, so that the three stay in step."""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
for f in sorted(glob.glob(os.path.join(H, "tools", "props", "*.py"))):
    for p in ast.literal_eval(open(f).read()):
        P[p["id"]] = p
out, checks, man = [], {}, []
for i in sorted(P):
    p = P[i]
    assert len(p["title"]) <= 80, p["title"]
    out.append(json.dumps({
        "id": i, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["forall"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                    "observe_at": p["observe"], "hook_needed": None}}))
    c = {"rule": p["rule"], "need": p.get("need", [])}
    if "feature" in p: c["feature"] = p["feature"]
    if "profile" in p: c["profile"] = p["profile"]
    if "sanitizer" in p: c["sanitizer"] = p["sanitizer"]
    c["assumptions"] = p.get("assume", [])
    checks[i] = c
    man.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
open(os.path.join(H, "properties.jsonl"), "w").write("\n".join(out) + "\n")
json.dump(checks, open(os.path.join(H, "checks.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": man, "not_applicable": [],
     "notes": "No hooks: everything is observed at the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(out), "properties")
