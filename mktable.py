"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json and caught.txt (id, sub-check)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
caught = dict(l.split(None, 1) for l in open(H + "/caught.txt") if l.strip())
rows = []
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], caught.get(d, "missed").strip()))
s = open(H + "/DESIGN.md").read()
s = s[:s.index("## 5. Planted bugs")]
s += "## 5. Planted bugs\n\nEach one passes the repository's tests; `caught by` is the sub-check which reports it (quick tier).\n\n"
s += "| id | property | breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(H + "/DESIGN.md", "w").write(s)
