"""Fill the table of planted changes in DESIGN.md."""
import json
from pathlib import Path
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(Path("/verif/seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | "
                f"{m['needs']} |")
p = Path("/verif/DESIGN.md")
text = p.read_text()
start = text.index("property:\n\n") + len("property:\n\n")
end = text.index("\nMissed at first")
p.write_text(text[:start] + "\n".join(rows) + "\n" + text[end:])
