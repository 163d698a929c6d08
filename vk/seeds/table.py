#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json (run by hand)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parents[2]
rows = ["| planted bug | caught by | what it needs to show |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| `{d.name}` | {m['property']} | {m['needs']} |")
design = root / "DESIGN.md"
t = design.read_text()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("SEEDTABLE", new) if "SEEDTABLE" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: new, t, flags=re.S)
design.write_text(t)
