"""Development only: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for p in sorted(glob.glob(D + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} |")
p = D + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(len(rows) - 2)
