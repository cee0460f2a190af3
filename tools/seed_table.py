"""Rewrites the table of seeded changes at the end of DESIGN.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], "| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"))))
s = open(V + "/DESIGN.md").read()
h = "|---|---|---|\n"
i = s.index(h, s.index("## Seeded changes")) + len(h)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(r for _, r in sorted(rows)) + "\n")
