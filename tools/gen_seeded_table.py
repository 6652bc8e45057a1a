"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeded_notes.json (documentation only)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, "tools", "seeded_notes.json")))
rows = ["<!-- table -->", "| bug | property | what it breaks | caught by | first |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    n = notes.get(d, {})
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {n.get('by', m['property'])} | {n.get('first', 'yes')} |")
rows.append("<!-- end -->")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "\n".join(rows)
s = s.replace("@@SEEDED@@", t) if "@@SEEDED@@" in s else re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
