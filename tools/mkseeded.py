"""Rewrite DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).parent.parent
rows = ["| change | needs | outcome | caught by |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    t = m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")
    needs = str(m["needs"]).replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d.name} | {needs} | {t} | {m['property']} |")
p = root / "DESIGN.md"
s = p.read_text()
a, b = "<!-- seeded -->", "<!-- /seeded -->"
if a not in s:
    s = s.replace("SEEDED-TABLE", f"{a}\n{b}")
i, j = s.index(a), s.index(b)
p.write_text(s[:i] + a + "\n" + "\n".join(rows) + "\n" + s[j:])
