"""Rewrite the table of planted bugs in DESIGN.md from matrix.json and seeded/*/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mat = json.load(open(ROOT + "/tools/matrix.json"))
rows = []
for sid in sorted(os.listdir(ROOT + "/seeded")):
    meta = json.load(open(ROOT + "/seeded/%s/meta.json" % sid))
    m = mat.get(sid, {})
    caught = sorted(c for c, r in m.items() if r == "caught")
    missed = sorted(c for c, r in m.items() if r != "caught")
    rows.append("| %s | %s | %s | %s |" % (sid, meta["what_it_breaks"], ", ".join(caught) or "-", ", ".join(missed) or ""))
fn = ROOT + "/DESIGN.md"
s = open(fn).read().split("<!-- matrix -->")[0]
n = sum(1 for sid in mat if "caught" in mat[sid].values())
s += "<!-- matrix -->\n%d bugs, %d caught by their property's check.\n\n| bug | what it breaks | caught by | not by |\n|---|---|---|---|\n" % (len(rows), n)
s += "\n".join(rows) + "\n"
open(fn, "w").write(s)
