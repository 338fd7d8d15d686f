"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
rows.append("<!-- /seeds -->")
p = f"{here}/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "<!-- seeds -->" in s:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
else:
    s = s.replace("SEEDTABLE", t)
open(p, "w").write(s)
