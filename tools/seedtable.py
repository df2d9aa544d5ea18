"""Rewrites the table of planted bugs in DESIGN.md from their descriptions."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, "seeded")
rows = ["| planted bug | caught by | what it needs |", "|---|---|---|"]
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, "meta.json")))
    rows.append("| %s | %s | %s |" % (s, m.get("caught_by", m["property"]), " ".join(str(m["needs"]).split())[:150].replace("|", "/")))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
