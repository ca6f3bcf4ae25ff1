# -*- coding: utf-8 -*-
"""Regenerate MANIFEST.json and properties.jsonl from what is implemented."""
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from properties_src import P  # noqa: E402
from techniques import TECHNIQUES, NOT_APPLICABLE  # noqa: E402

ROOT = HERE.parent
done = [p["id"] for p in P if (
    HERE / "props" / (p["id"].lower() + ".py")
).exists()]
with (ROOT / "properties.jsonl").open("w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "checks": [{
        "property": i,
        "quick_cmd": "bash bin/check {} --tier quick".format(i),
        "thorough_cmd": "bash bin/check {} --tier thorough".format(i),
        "technique": TECHNIQUES[i][0],
        "level": "exploration",
        "level_note": TECHNIQUES[i][1],
    } for i in done],
    "not_applicable": [
        {"property": p["id"], "reason": NOT_APPLICABLE.get(
            p["id"], "check not built yet"
        )} for p in P if p["id"] not in done
    ],
}
with (ROOT / "MANIFEST.json").open("w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
