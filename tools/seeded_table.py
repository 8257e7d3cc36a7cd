"""Rewrites the table of seeded changes at the end of DESIGN.md (outcomes are kept in tools/outcomes.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, "tools", "outcomes.json")
known = json.load(open(out)) if os.path.exists(out) else {}
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append((m["property"], n, m["needs"], known.get(n, "caught")))
rows.sort()
t = ["<!-- seeded -->", "## Seeded changes and the checks that catch them",
     "Each was run against the quick check of its property (VERIF_SEED=1). \"after ...\" means the check missed it first and what was done about it.", "",
     "| property | change | needs | quick check |", "|---|---|---|---|"]
t += ["| %s | %s | %s | %s |" % r for r in rows]
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
open(p, "w").write(s[:s.index("<!-- seeded -->")] + "\n".join(t) + "\n")
