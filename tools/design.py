#!/usr/bin/env python3
"""Writes DESIGN.md from its parts."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(p): return open(os.path.join(H, p)).read()
P = {}
for f in sorted(glob.glob(os.path.join(H, "tools/props/*.py"))):
    for p in ast.literal_eval(open(f).read()):
        P[p["id"]] = p
bugs = {}
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(f))
    bugs[os.path.basename(os.path.dirname(f))] = m
caught = json.loads(rd("tools/design/caught.json"))
o = [rd("tools/design/head.md")]
known = [l for l in rd("known-findings.txt").splitlines() if l.startswith(("fixed:", "finding:"))]
for i in sorted(P):
    p = P[i]
    src = rd("harness/src/props/%s.rs" % i.lower())
    m = re.search(r"quick: ([\d_]+), thorough: ([\d_]+)", src)
    o.append("### %s %s\n\n" % (i, p["title"]))
    o.append("* **Specified:** %s\n" % p["statement"])
    o.append("* **Over:** %s.\n" % p["forall"])
    o.append("* **Workload and oracle:** %s\n" % p["rule"])
    o.append("* **Technique:** %s. Observed: %s.\n" % (p["technique"], "; ".join(p["observe"])))
    if p.get("need"):
        o.append("* **Must have been seen, or there is no verdict:** %s.\n" % ", ".join(p["need"]))
    o.append("* **Bounds and what is not claimed:** %s Cases: %s quick, %s thorough.%s\n" % (p["note"], m[1].replace("_", " "), m[2].replace("_", " "),
             " Built with the serialization features." if p.get("feature") else ""))
    o.append("* **Why tests cannot settle it:** %s\n" % p["why"])
    fx = [l for l in known if "property=%s " % i in l]
    if fx:
        o.append("* **Defects found:** %d repaired, %d known findings (`known-findings.txt`).\n" % (sum(l[:3] == "fix" for l in fx), sum(l[:3] == "fin" for l in fx)))
    b = [n for n in bugs if bugs[n]["property"] == i]
    if b:
        o.append("* **Planted bugs:** %s.\n" % ", ".join("`%s`" % n for n in b))
    o.append("\n")
o.append("## Planted bugs\n\nEach was written from the text of the property and the code, in a copy of /repo, with a demonstration\nthat uses only the crate; then the quick check of its property was run against it.\n\n| bug | property | what it breaks | quick check |\n|---|---|---|---|\n")
for n in sorted(bugs):
    o.append("| `%s` | %s | %s | %s |\n" % (n, bugs[n]["property"], bugs[n]["what_it_breaks"].replace("|", "\\|").replace("\n", " "), caught.get(n, "caught")))
o.append("\n")
o.append(rd("tools/design/tail.md").replace("{FIXED}", str(sum(l.startswith("fixed") for l in known))))
open(os.path.join(H, "DESIGN.md"), "w").write("".join(o))
print(len(P), "properties", len(bugs), "bugs", [n for n in bugs if n not in caught])
