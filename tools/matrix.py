"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| Planted bug | Caught by | Needs | Breaks |", "|---|---|---|---|"]
for m in sorted(root.glob("seeded/*/meta.json")):
    j = json.loads(m.read_text())
    rows.append("| %s | %s | %s | %s |" % (m.parent.name, j["property"], j["needs"], j["what_it_breaks"]))
table = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- end -->"
p = root / "DESIGN.md"
s = p.read_text()
s = s.replace("@TABLE@", table)
s = re.sub(r"<!-- seeded -->.*?<!-- end -->", lambda _: table, s, flags=re.S)
p.write_text(s)
