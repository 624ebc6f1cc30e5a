#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| change | caught by | needs |", "|---|---|---|"]
for m in sorted(root.glob("seeded/*/meta.json"), key=lambda p: (json.loads(p.read_text())["property"], p.parent.name)):
    j = json.loads(m.read_text())
    needs = " ".join(j["needs"].split()).replace("|", "/")
    rows.append(f"| {m.parent.name} | {j['property']} | {needs} |")
d = root / "DESIGN.md"
t = d.read_text()
t = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], t, flags=re.S)
d.write_text(t)
