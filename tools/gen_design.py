"""Writes DESIGN.md from its parts: tools/design_head.md, tools/design_props.md, seeded/*/meta.json and seeded/results.txt."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p)).read()
res = {}
f = os.path.join(V, "seeded", "results.txt")
if os.path.exists(f):
    for l in open(f):
        w = l.split()
        if len(w) >= 2:
            res[w[0]] = w[1:]
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d, i = json.load(open(m)), os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/").replace("\n", " "), " ".join(res.get(i, ["?"]))))
text = rd("tools", "design_head.md") + rd("tools", "design_props.md")
text += "## Planted bugs (`seeded/`)\n\nResult: of the quick check of the property.\n\n| change | property | needs | result |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(V, "DESIGN.md"), "w").write(text)
