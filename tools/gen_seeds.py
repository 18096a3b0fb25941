"""Writes the table of planted bugs into DESIGN.md."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | breaks | needs |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
f = root / "DESIGN.md"
s = f.read_text()
a = s.index("<!-- seeds -->") + len("<!-- seeds -->\n")
b = s.index("<!-- /seeds -->")
f.write_text(s[:a] + "\n".join(rows) + "\n" + s[b:])
