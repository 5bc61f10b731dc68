"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parents[1]
rows = ["| planted bug | property | needs, to manifest | caught by |", "|---|---|---|---|"]
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs']} | {d.get('caught_by', d['property'])} |")
p = root / "DESIGN.md"
t = p.read_text()
B, E = "<!-- table -->", "<!-- /table -->"
if "@@TABLE@@" in t:
    t = t.replace("@@TABLE@@", f"{B}\n{E}")
a, b = t.index(B) + len(B), t.index(E)
p.write_text(t[:a] + "\n" + "\n".join(rows) + "\n" + t[b:])
