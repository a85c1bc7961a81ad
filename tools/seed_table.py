"""Rewrite the table at the end of DESIGN.md from seeded/*/meta.json (a note, read by no check)."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
notes = json.load(open(root / "tools/seed_notes.json"))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {notes.get(d.name, '?')} |")
p = root / "DESIGN.md"
s = p.read_text()
head = "## Planted bugs"
i = s.index(head)
j = s.find("| change | property |", i)
s = (s[:j] if j > 0 else s.rstrip() + "\n\n") + "\n".join(rows) + "\n"
p.write_text(s)
