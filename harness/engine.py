# -*- coding: utf-8 -*-
"""
Small property-based-testing engine shared by every check.

A property module registers *relations*.  A relation is a function of one
generated case; it raises `Violation` when the oracle disagrees with the code
under test and otherwise returns labels describing the case (a non-empty label
set makes the case count as non-trivial).  Hypothesis generates and shrinks the
cases; every random choice comes from it and is a function of VERIF_SEED.
"""
import hashlib
import io
import json
import multiprocessing
import multiprocessing.connection
import os
import pickle
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
# VERIF_REPO: for trying planted changes in a copy, never set by a check
REPO_SRC = Path(os.environ.get("VERIF_REPO", "/repo")) / "src"
PKG_DIR = str(REPO_SRC / "disc_solver") + os.sep
HARNESS_DIR = str(ROOT / "harness") + os.sep
KNOWN_FILE = ROOT / "known_findings.json"


class Violation(Exception):
    """The oracle and the code under test disagree."""

    def __init__(self, message, *, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Relation:
    def __init__(self, name, func, strategy, quick, thorough, rule, cost):
        self.name = name
        self.func = func
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.cost = cost


RELATIONS = []


def relation(strategy, *, quick, thorough=None, rule="", name=None, cost=1):
    """Register a relation over cases drawn from `strategy`."""
    def decorator(func):
        RELATIONS.append(Relation(
            name or func.__name__, func, strategy, quick,
            thorough if thorough is not None else quick * 25,
            rule or (func.__doc__ or "").strip(), cost,
        ))
        return func
    return decorator


# --------------------------------------------------------------------------
# known findings

def load_known(prop):
    if not KNOWN_FILE.exists():
        return []
    with KNOWN_FILE.open() as f:
        data = json.load(f)
    return [
        entry for entry in data["findings"]
        if entry["property"] == prop and entry["status"] == "known"
    ]


_KNOWN_KEYS = set()
_KNOWN_HITS = set()


def fail(message, *, key=None):
    """
    Report a disagreement.  One identified by the key of a listed known finding
    is counted and otherwise ignored, so that the search goes on behind it.
    """
    if key is not None and key in _KNOWN_KEYS:
        _KNOWN_HITS.add(key)
        return
    raise Violation(message, key=key)


def is_known(key):
    return key in _KNOWN_KEYS


# --------------------------------------------------------------------------
# running

def seed_for(prop, name, seed):
    digest = hashlib.sha256(f"{seed}:{prop}:{name}".encode()).digest()
    return int.from_bytes(digest[:8], "big")


def origin(exc):
    """
    'code' if the exception was raised by (or below) code under test that the
    harness called, 'harness' if no frame of the code under test is involved
    below the last harness frame.
    """
    frames = traceback.extract_tb(exc.__traceback__)
    last_harness = max(
        (i for i, fr in enumerate(frames)
         if fr.filename.startswith(HARNESS_DIR)),
        default=-1,
    )
    for fr in frames[last_harness + 1:]:
        if fr.filename.startswith(PKG_DIR):
            return "code"
    # callbacks: code under test may call back into the harness
    return "harness"


def uninterpretable(exc):
    """
    Whether an exception in the harness says that something the code under
    test returned or wrote has lost a part (there is None where a value should
    be, or an array is too short or has the wrong shape), as opposed to a name
    or an argument not being there.
    """
    text = str(exc)
    if isinstance(exc, AttributeError):
        return "'NoneType' object" in text
    if isinstance(exc, TypeError):
        return "argument" not in text
    return isinstance(exc, (ValueError, LookupError, ArithmeticError)) and (
        not isinstance(exc, UnicodeError)
    )


def jsonable(obj):
    """A printable rendering of a case for evidence samples."""
    text = repr(obj)
    return text if len(text) <= 600 else text[:600] + "..."


class Runner:
    def __init__(self, prop, rel, seed, tier, scale=1.0):
        self.prop = prop
        self.rel = rel
        self.seed = seed
        self.tier = tier
        self.scale = scale
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.failure = None
        self.in_shrink = False

    def one(self, case):
        """Run the relation on one case, classifying what happens."""
        try:
            labels = self.rel.func(case)
        except Violation:
            raise
        except Exception as e:  # pylint: disable=broad-except
            mod = type(e).__module__
            if mod.startswith("hypothesis"):
                raise
            if isinstance(e, HarnessError):
                raise
            if origin(e) == "code":
                raise Violation(
                    "unexpected {} from the code under test: {}\n{}".format(
                        type(e).__name__, e,
                        "".join(traceback.format_tb(e.__traceback__)[-4:]),
                    ), key=None,
                ) from e
            if uninterpretable(e):
                raise Violation(
                    "the result cannot be interpreted: {}: {}\n{}".format(
                        type(e).__name__, e,
                        "".join(traceback.format_tb(e.__traceback__)[-4:]),
                    ), key=None,
                ) from e
            raise
        if labels is None or labels is False:
            return ()
        if labels is True:
            return ("nontrivial",)
        if isinstance(labels, str):
            return (labels,)
        return tuple(labels)

    def test(self, case):
        digest = hashlib.sha1(repr(case).encode("utf-8", "replace")).digest()
        if self.failure is None:
            self.evaluations += 1
        try:
            labels = self.one(case)
        except Violation as v:
            self.failure = (pickle_case(case), v.message, v.key, repr(case))
            raise
        if self.failure is None:
            for label in labels:
                self.labels[label] = self.labels.get(label, 0) + 1
            if labels and digest not in self.nontrivial:
                self.nontrivial.add(digest)
                if len(self.samples) < 3 and self.evaluations > 3 * len(
                    self.samples
                ):
                    self.samples.append({
                        "relation": self.rel.name,
                        "case": jsonable(case), "labels": list(labels),
                    })

    def run(self):
        import hypothesis
        from hypothesis import settings, given, Phase, HealthCheck
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 45

        count = self.rel.quick if self.tier == "quick" else self.rel.thorough
        count = max(1, int(count * self.scale))

        @hypothesis.seed(seed_for(self.prop, self.rel.name, self.seed))
        @settings(
            max_examples=count, deadline=None, database=None,
            derandomize=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), print_blob=False,
            suppress_health_check=[
                HealthCheck.too_slow, HealthCheck.data_too_large,
                HealthCheck.large_base_example,
            ],
        )
        @given(self.rel.strategy)
        def wrapped(case):
            self.test(case)

        error = None
        try:
            wrapped()
        except BaseException as e:  # pylint: disable=broad-except
            if self.failure is None:
                error = "".join(traceback.format_exception(e))
        return {
            "relation": self.rel.name,
            "rule": self.rel.rule,
            "evaluations": self.evaluations,
            "nontrivial": len(self.nontrivial),
            "labels": self.labels,
            "samples": self.samples,
            "failure": self.failure,
            "error": error,
            "known_hits": sorted(_KNOWN_HITS),
        }


def pickle_case(case):
    return pickle.dumps(case).hex()


class KeptInput(io.TextIOWrapper):
    """A standard input which stays usable in worker processes."""
    def close(self):
        pass


try:
    os.fstat(0)
except OSError:
    os.open(os.devnull, os.O_RDONLY)
STDIN = sys.stdin = KeptInput(
    io.BufferedReader(io.FileIO(0, "r", closefd=False)), encoding="utf-8")


def _child(prop, rel, seed, tier, scale, known, conn, scratch):
    global _KNOWN_HITS, _KNOWN_KEYS
    _KNOWN_KEYS = known
    _KNOWN_HITS = set()
    start = time.monotonic()
    try:
        os.chdir(scratch)
        tempfile.tempdir = scratch
        sys.stdin = STDIN
        quiet()
        res = Runner(prop, rel, seed, tier, scale).run()
    except BaseException as e:  # pylint: disable=broad-except
        res = {
            "relation": rel.name, "rule": rel.rule, "evaluations": 0,
            "nontrivial": 0, "labels": {}, "samples": [], "failure": None,
            "error": "".join(traceback.format_exception(e)),
            "known_hits": [],
        }
    res["wall_s"] = round(time.monotonic() - start, 2)
    conn.send(res)
    conn.close()
    # skip interpreter teardown of forked HDF5/matplotlib state
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def quiet():
    """Silence the logging and warnings of the code under test."""
    import logbook
    import numpy
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    logbook.NullHandler().push_application()


def run_relations(prop, relations, seed, tier, scale, known, jobs):
    import shutil
    ctx = multiprocessing.get_context("fork")
    pending = sorted(relations, key=lambda r: -r.cost)
    running = {}
    results = []
    base = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        while pending or running:
            while pending and len(running) < jobs:
                rel = pending.pop(0)
                scratch = tempfile.mkdtemp(prefix=rel.name[:20], dir=base)
                parent, child = ctx.Pipe(duplex=False)
                proc = ctx.Process(target=_child, args=(
                    prop, rel, seed, tier, scale, known, child, scratch,
                ))
                proc.start()
                child.close()
                running[rel.name] = (proc, parent, rel, scratch)
            ready = multiprocessing.connection.wait(
                [conn for _, conn, _, _ in running.values()]
            )
            for name in list(running):
                proc, conn, rel, scratch = running[name]
                if conn not in ready:
                    continue
                try:
                    res = conn.recv()
                except EOFError:
                    proc.join()
                    res = {
                        "relation": rel.name, "rule": rel.rule,
                        "evaluations": 0, "nontrivial": 0, "labels": {},
                        "samples": [], "failure": None,
                        "error": "worker died with {}".format(proc.exitcode),
                        "known_hits": [], "wall_s": 0,
                    }
                proc.join()
                del running[name]
                shutil.rmtree(scratch, ignore_errors=True)
                results.append(res)
    finally:
        for proc, _, _, _ in running.values():
            proc.kill()
        shutil.rmtree(base, ignore_errors=True)
    order = {rel.name: i for i, rel in enumerate(relations)}
    results.sort(key=lambda r: order[r["relation"]])
    return results
