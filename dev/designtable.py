"""Rewrite the seed table of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
rows = []
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m))
    s = os.path.basename(os.path.dirname(m))
    w = " ".join(d["what_it_breaks"].split())
    rows.append("| %s | %s | %s |" % (s, d["property"], (w[:150].rsplit(" ", 1)[0] + " ...") if len(w) > 150 else w))
t = "<!-- seeds -->\n| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = "/verif/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->|\(The table of seeds.*?\)", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
