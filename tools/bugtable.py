"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property = check | needs |", "|---|---|---|"]
for meta in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {m['property']} | {m['needs']} |")
path = root / "DESIGN.md"
text = path.read_text()
text = re.sub(r"\| planted bug \|.*?\n\n", "\n".join(rows) + "\n\n", text,
              flags=re.S)
path.write_text(text)
