"""Put the table of planted bugs and their detection into DESIGN.md."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/detection.json"))
rows = ["| bug | needs | outcome |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['needs'].replace('|', '/')} | {res.get(i, ['not run'])[0]} by {m['property']} |")
p = V + "/DESIGN.md"
t = open(p).read()
a, b = t.index("<!-- matrix -->"), t.index("<!-- end -->")
open(p, "w").write(t[:a] + "<!-- matrix -->\n" + "\n".join(rows) + "\n" + t[b:])
