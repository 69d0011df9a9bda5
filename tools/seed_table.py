"""Development tool: writes the table of planted bugs into DESIGN.md from the results of seedtest.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open("/tmp/seedtest.json"))
rows = ["| planted bug | property | what it needs | caught by (quick) |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    c = [p for p, q in sorted(res.get(i, {}).get("checks", {}).items()) if q[0] == 1 and q[1]]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(c) or "—"))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->") + len("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "\n" + "\n".join(rows) + "\n" + s[b:])
