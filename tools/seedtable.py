"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. Run from the top of /verif."""
import glob, json, os, re

by = {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
rows = ["| property | planted changes caught by its quick check |", "|---|---|"]
rows += ["| %s | %s |" % (k, ", ".join(v)) for k, v in sorted(by.items())]
text = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->|SEEDTABLE", lambda _: text, s, flags=re.S)
open("DESIGN.md", "w").write(s)
