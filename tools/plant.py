# -*- coding: utf-8 -*-
"""
plant.py FILE.py: (re)make /verif/seeded/<id>/ from a list BUGS of
dict(id, property, file, edits=[(old, new)], needs, breaks, demo).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from pathlib import Path

SEEDED = Path("/verif/seeded")
DEMO_SH = """#!/bin/bash
# run in the repository: exits 0 if the property holds
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def main(path):
    for bug in runpy.run_path(path)["BUGS"]:
        out = SEEDED / bug["id"]
        out.mkdir(parents=True, exist_ok=True)
        work = Path("/tmp/plant")
        shutil.rmtree(work, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", os.environ.get("REPO", "/repo"), str(work)], check=True)
        files = bug.get("files") or {bug["file"]: bug["edits"]}
        for name, edits in files.items():
            target = work / "src/disc_solver" / name
            text = target.read_text(encoding="utf-8")
            for old, new in edits:
                if text.count(old) != 1:
                    sys.exit(f"{bug['id']}: {text.count(old)} times: {old}")
                text = text.replace(old, new)
            target.write_text(text, encoding="utf-8")
        diff = subprocess.run(
            ["git", "-C", str(work), "diff"], check=True, capture_output=True
        ).stdout
        (out / "patch.diff").write_bytes(diff)
        (out / "demo.py").write_text(bug["demo"].lstrip(), encoding="utf-8")
        (out / "demo.sh").write_text(DEMO_SH)
        (out / "meta.json").write_text(json.dumps({
            "property": bug["property"], "needs": bug["needs"],
            "what_it_breaks": bug["breaks"],
        }, ensure_ascii=False, indent=1) + "\n", encoding="utf-8")
        shutil.rmtree(work)


main(sys.argv[1])
