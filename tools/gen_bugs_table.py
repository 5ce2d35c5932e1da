"""The table of planted bugs of DESIGN.md (section 5), from seeded/*/meta.json: replaces everything after its marker."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- table -->\n"
rows = ["| planted bug | caught by | what it breaks | what it needs |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], *(" ".join(str(m[k]).split()).replace("|", "/") for k in ("what_it_breaks", "needs"))))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
assert MARK in s
open(p, "w").write(s[:s.index(MARK) + len(MARK)] + "\n".join(rows) + "\n")
