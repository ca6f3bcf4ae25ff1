# -*- coding: utf-8 -*-
"""
Entry point: run.py PROPERTY [--tier quick|thorough] [--replay FILE]
             [--only RELATION] [--scale X]
"""
import argparse
import importlib
import json
import os
import pickle
import sys
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))

# what is imported first may use its byte code; the code under test is always
# compiled from its current source
import engine  # noqa: E402
sys.path.insert(0, str(engine.REPO_SRC))
import h5py  # noqa: E402,F401
import hypothesis  # noqa: E402,F401
import matplotlib.pyplot  # noqa: E402,F401
import numpy  # noqa: E402,F401
import scipy.integrate  # noqa: E402,F401
import scipy.optimize  # noqa: E402,F401
sys.pycache_prefix = "/nonexistent"


EVIDENCE = Path(os.environ.get("VERIF_EVIDENCE", engine.ROOT / "evidence"))


def replay(prop, path, relations):
    with open(path) as f:
        data = json.load(f)
    rel = {r.name: r for r in relations}[data["relation"]]
    case = pickle.loads(bytes.fromhex(data["case_pickle"]))
    engine.quiet()
    engine._KNOWN_KEYS = {e["key"] for e in engine.load_known(prop)}
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif-replay-") as scratch:
        os.chdir(scratch)
        tempfile.tempdir = scratch
        try:
            engine.Runner(prop, rel, 0, "quick").one(case)
        except engine.Violation as v:
            print("case:", repr(case)[:4000])
            print("failure:", v.message)
            print("VIOLATION property={} replay={}".format(prop, path))
            return 1
        finally:
            os.chdir(cwd)
    print("case passes:", repr(case)[:2000])
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get(
        "VERIF_TIER", "quick"
    ))
    parser.add_argument("--replay")
    parser.add_argument("--only")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--jobs", type=int, default=min(
        8, os.cpu_count() or 1
    ))
    args = parser.parse_args()
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.monotonic()

    module = importlib.import_module("props." + prop.lower())
    relations = [
        r for r in engine.RELATIONS if r.func.__module__ == module.__name__
    ]
    if args.replay:
        return replay(prop, args.replay, relations)
    if args.only:
        relations = [r for r in relations if r.name in args.only.split(",")]

    known = engine.load_known(prop)
    results = engine.run_relations(
        prop, relations, seed, args.tier, args.scale,
        {e["key"] for e in known}, args.jobs,
    )

    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]
    vacuous = [
        r for r in results
        if not r["error"] and not r["failure"] and r["nontrivial"] == 0
    ]

    replay_dir = EVIDENCE / "replay"
    lines = []
    for res in failures:
        case_pickle, message, key, case_repr = res["failure"]
        replay_dir.mkdir(parents=True, exist_ok=True)
        path = replay_dir / "{}-{}.json".format(prop, res["relation"])
        with path.open("w") as f:
            json.dump({
                "property": prop, "relation": res["relation"],
                "case": case_repr, "case_pickle": case_pickle,
                "message": message, "key": key, "seed": seed,
            }, f, indent=1, ensure_ascii=False)
        print("{}: {}".format(res["relation"], message))
        print("  minimal case: {}".format(case_repr[:1500]))
        lines.append("VIOLATION property={} replay={}".format(
            prop, os.path.relpath(path, engine.ROOT)
        ))

    samples = []
    for res in results:
        samples.extend(res["samples"])
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["nontrivial"] for r in results),
            "rule": " | ".join(
                "{}: {}".format(r["relation"], " ".join(r["rule"].split()))
                for r in results
            ),
            "samples": samples,
            "relations": [
                {k: r[k] for k in (
                    "relation", "evaluations", "nontrivial", "labels",
                    "wall_s",
                )} for r in results
            ],
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "violations": [
            {"relation": r["relation"], "message": r["failure"][1][:2000]}
            for r in failures
        ],
        "known_findings": [e["key"] for e in known],
        "known_findings_hit": sorted(
            set(k for r in results for k in r["known_hits"])
        ),
        "wall_s": round(time.monotonic() - start, 2),
    }
    if not args.only:
        out = EVIDENCE / "{}.json".format(prop)
        out.parent.mkdir(parents=True, exist_ok=True)
        with out.open("w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)

    for res in results:
        print("{:<42} {:>6} cases {:>6} non-trivial {:>7}s  {}".format(
            res["relation"], res["evaluations"], res["nontrivial"],
            res["wall_s"], json.dumps(res["labels"], ensure_ascii=False),
        ))
    for entry in known:
        print("KNOWN-FINDING: property={} {}".format(prop, entry["what"]))
    for res in errors:
        print("ERROR in {}:\n{}".format(res["relation"], res["error"]),
              file=sys.stderr)
    for line in lines:
        print(line)
    if failures:
        return 1
    if errors:
        return 2
    if vacuous:
        print("VACUOUS: {}".format([r["relation"] for r in vacuous]),
              file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
