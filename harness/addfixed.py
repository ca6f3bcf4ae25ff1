# -*- coding: utf-8 -*-
"""addfixed.py PROPERTY KEY COMMIT TEXT: list a repaired defect."""
import json
import sys

prop, key, commit, text = sys.argv[1:]
with open("known_findings.json", encoding="utf-8") as f:
    found = json.load(f)["findings"]
found.append({
    "property": prop, "key": key, "status": "fixed",
    "what": f"fixed: property={prop} {commit} {text}",
})
with open("known_findings.json", "w", encoding="utf-8") as f:
    f.write('{"findings": [\n ' + ",\n ".join(
        json.dumps(x, ensure_ascii=False) for x in found
    ) + "\n]}\n")
