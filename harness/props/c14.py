# -*- coding: utf-8 -*-
"""C14: internal data of pieces join and flip without loss."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import storage

ARRAYS = (
    "derivs", "params", "angles", "v_r_normal", "v_φ_normal", "ρ_normal",
    "v_r_taylor", "v_φ_taylor", "ρ_taylor",
)
JACOBIAN = ("jacobians", "derivs", "params", "angles")
SHAPES = {"jacobians": (11, 11), "derivs": (11,), "params": (11,)}

part = storage.internal_specs.filter(lambda s: s is not None)


def contents(data):
    """Plain copies of everything in it."""
    out = {
        n: np.array(getattr(data, n), dtype=float).reshape(
            (-1,) + SHAPES.get(n, ())) for n in ARRAYS
    }
    for n in JACOBIAN:
        out["jacobian " + n] = np.array(
            getattr(data.jacobian_data, n), dtype=float
        ).reshape((-1,) + SHAPES.get(n, ()))
    out["problems"] = {k: list(v) for k, v in data.problems.items()}
    return out


def joined(pieces):
    out = {
        n: np.concatenate([p[n] for p in pieces])
        for n in pieces[0] if n != "problems"
    }
    problems = {}
    for p in pieces:
        for k, v in p["problems"].items():
            problems.setdefault(k, []).extend(v)
    out["problems"] = problems
    return out


def flipped(c):
    return {k: v if k == "problems" else v[::-1] for k, v in c.items()}


def expect(want, got, where):
    for n, value in want.items():
        if n == "problems":
            same = {k: v for k, v in value.items() if v} == {
                k: v for k, v in got[n].items() if v}
        else:
            same = value.shape == got[n].shape and np.array_equal(
                value, got[n], equal_nan=True)
        if not same:
            fail("{}: {} is {}, not {}".format(where, n, got[n], value))


def expect_final(data, where):
    """Finalised: arrays, of the shapes the file format has."""
    for obj, names in ((data, ARRAYS), (data.jacobian_data, JACOBIAN)):
        for n in names:
            a = getattr(obj, n)
            if not isinstance(a, np.ndarray):
                fail("{}: {} is a {}".format(where, n, type(a).__name__))
            if a.shape[1:] != SHAPES.get(n, ()):
                fail("{}: {} has shape {}".format(where, n, a.shape))


@relation(
    st.lists(part, min_size=2, max_size=4).map(tuple), quick=200,
    rule="at least two pieces that are not empty",
)
def joining(specs):
    """Pieces join to their concatenation, however they are grouped."""
    want = joined([contents(storage.build_internal(s)) for s in specs])

    def pieces():
        return [storage.build_internal(s) for s in specs]

    left = pieces()
    total = left[0]
    for p in left[1:]:
        total = total + p
    expect(want, contents(total), "joined from the left")
    expect_final(total, "joined")
    right = pieces()
    other = right[-1]
    for p in reversed(right[:-1]):
        other = p + other
    expect(want, contents(other), "joined from the right")
    for s, p in zip(specs, left):
        expect(contents(storage.build_internal(s)), contents(p), "operand")
    # what is done to the whole is not done to the pieces
    total.problems["new"] = "only here"
    total.problems.update({k: ["also"] for k in list(total.problems)})
    if len(total.angles):
        total.angles[0] += 1
        total.params[0] += 1
    for s, p in zip(specs, left):
        expect(contents(storage.build_internal(s)), contents(p),
               "operand after changing the whole")
    return ["joined"] if sum(s != "empty" for s in specs) > 1 else None


@relation(part, quick=200, rule="not empty")
def finalising(spec):
    """Finalising changes no value, and nothing more when done again."""
    data = storage.build_internal(spec)
    want = contents(storage.build_internal(spec))
    for _ in range(2):
        data._finalise()  # pylint: disable=protected-access
        expect_final(data, "finalised")
        expect(want, contents(data), "finalised")
    return ["lists" if dict(spec)["as_lists"] else "arrays"] if (
        spec != "empty") else None


Flip = namedtuple("Flip", ["spec", "other", "times", "finalise"])


@relation(
    st.builds(Flip, part, part, st.integers(1, 3), st.booleans()), quick=200,
    rule="not empty",
)
def flipping(case):
    """Flipping reverses every component, twice it changes nothing."""
    data = storage.build_internal(case.spec)
    want = contents(storage.build_internal(case.spec))
    if case.finalise:
        data._finalise()  # pylint: disable=protected-access
    for _ in range(case.times):
        out = data.flip()
        want = flipped(want)
        if out is not data:
            expect(want, contents(out), "returned")
            data = out
        expect(want, contents(data), "flipped")
    # the reverse of a whole is the reverses of its parts, in reverse
    a, b = (storage.build_internal(s) for s in (case.spec, case.other))
    whole = contents((a + b).flip())
    a, b = (storage.build_internal(s) for s in (case.spec, case.other))
    parts = contents(b.flip() + a.flip())
    parts["problems"] = whole["problems"] = {}
    expect(whole, parts, "flipped whole and parts")
    return ["flipped {}".format(case.times)] if case.spec != "empty" else None
