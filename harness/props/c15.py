# -*- coding: utf-8 -*-
"""C15: wave speeds and critical points are those of ideal MHD."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import gens
import phys
import profiles

from disc_solver.critical_points import (
    get_all_sonic_points, get_critical_point_indices, get_mach_numbers,
)
from disc_solver.file_format import Solution, InitialConditions

NAMES = ("slow", "sonic", "alfven", "fast")


def waves(p, a_0):
    """
    Slow, Alfvén and fast speeds: eigenvalues of the linearised ideal MHD
    equations for plane waves going across the disc, in the units of the
    solution, where the force on the gas is -∇ρ/ρ + (a_0/ρ) J×B.
    """
    b = np.sqrt(a_0 / p[phys.RHO])
    # variables (δρ/ρ, δv_n, δv_1, δv_2, b δB_1, b δB_2); the symmetric form
    n, t1, t2 = (b * p[i] for i in (phys.BT, phys.BR, phys.BP))
    A = np.zeros((6, 6))
    A[0, 1] = 1           # compression, pressure
    A[1, 4], A[1, 5] = t1, t2  # magnetic pressure
    A[2, 4] = A[3, 5] = -n     # tension
    A = A + A.T
    speeds = np.sort(np.abs(np.linalg.eigvalsh(A)))
    return speeds[0::2]


def machs(p, a_0):
    """(machs, how well they are known)"""
    v = p[:, phys.VT]
    speeds = np.array([
        waves(row, a_0) if np.isfinite(row[phys.RHO]) else (np.nan,) * 3
        for row in p
    ])
    with np.errstate(divide="ignore", invalid="ignore"):
        m = {
            "slow": v / speeds[:, 0], "sonic": v,
            "alfven": v / speeds[:, 1], "fast": v / speeds[:, 2],
        }
        # eigenvalues are as good as the largest one
        err = {
            n: 1e-14 * (1 + speeds[:, 2] / speeds[:, i])
            for n, i in (("slow", 0), ("alfven", 1), ("fast", 2))
        }
    err["sonic"] = np.zeros_like(v)
    return m, err


def model_solution(p, a_0, angles):
    inp = gens.soln_input(gens.Mid(
        0.1, 1.0, np.sqrt(a_0), 0.05, 0.1, 0.1, 0.1, True,
    ))
    return Solution(
        solution_input=inp, angles=angles, solution=p, flag=0,
        coordinate_system="spherical midplane 0", internal_data=None,
        initial_conditions=InitialConditions(
            norm_kepler_sq=400.0, a_0=a_0, γ=0.1, init_con=p[0],
            angles=angles,
        ), t_roots=None, y_roots=None, sonic_point=None,
        sonic_point_values=None, derivatives=None,
    )


Speeds = namedtuple("Speeds", ["a_0", "states", "tuned"])


@relation(
    st.builds(
        Speeds, a_0=gens.mag(-3, 2),
        states=st.lists(gens.states(), min_size=1, max_size=6).map(
            lambda l: tuple(s.p for s in l)),
        # a vertical field whose Alfvén speed is, nearly, the sound speed
        tuned=st.one_of(
            st.none(), st.none(), gens.flt(-3e-15, 3e-15),
            gens.flt(-1e-9, 1e-9),
        ),
    ), quick=400, thorough=20000,
    rule="all three components of the field present, in all states",
)
def wave_speeds(case):
    p = np.array(case.states)
    if case.tuned is not None:
        p[0, [phys.BR, phys.BP]] = 0
        p[0, phys.RHO] = case.a_0 * p[0, phys.BT] ** 2 * (1 + case.tuned)
    p[0, phys.VT] = max(p[0, phys.VT], 0.1)
    soln = model_solution(p, case.a_0, np.linspace(0, 0.5, len(p)))
    with np.errstate(divide="ignore"):
        got = dict(zip(NAMES, get_mach_numbers(soln)))
    want, err = machs(p, case.a_0)
    v = p[:, phys.VT]
    for n in NAMES:
        if np.shape(got[n]) != v.shape:
            fail(f"{n}: {np.shape(got[n])} values for {v.shape} rows", key=n)
        # near-degenerate speeds are worse known, by the root of the rounding
        tol = err[n] * 100 + 1e-10 + 3e-8 * (case.tuned is not None)
        bad = ~(np.abs(got[n] / want[n] - 1) <= tol)
        if np.any(bad & (tol < 0.1)):
            i = int(np.argmax(bad & (tol < 0.1)))
            fail(
                f"{n} Mach number {got[n][i]!r}, {want[n][i]!r} from the "
                f"linearised equations, state {p[i]!r}, a_0={case.a_0}",
                key=n,
            )
    slow, sonic, alfven, fast = (v / got[n] for n in NAMES)
    ε = 1 + 1e-12
    for small, large, what in (
        (slow, alfven, "slow ≤ Alfvén"), (alfven, fast, "Alfvén ≤ fast"),
        (slow, sonic, "slow ≤ sound"), (sonic, fast, "sound ≤ fast"),
    ):
        if not np.all(small <= large * ε):
            fail(f"{what} does not hold: {small!r} {large!r}", key="order")
    return bool(np.all(p[:, [phys.BR, phys.BP, phys.BT]] != 0)) or None


def crossing(xs, ys):
    """
    (where the first passage of 1 is between, first index at or past it), None
    if there is none
    """
    known = np.flatnonzero(~np.isnan(ys))
    if len(known) == 0:
        return None
    if known[0] > 0:
        found = crossing(xs[known[0]:], ys[known[0]:])
        return None if found is None else (found[0], found[1] + known[0])
    if ys[0] == 1:
        return (xs[0], xs[0]), 0
    side = ys[0] > 1
    for i in range(1, len(ys)):
        if ys[i] == 1:
            return (xs[i], xs[i]), i
        if (ys[i] > 1) != side:
            return (xs[i - 1], xs[i]), i
    return None


@relation(
    st.tuples(
        profiles.profiles(), st.booleans(),
        # rows at the ends of which the velocity is not known
        st.one_of(
            st.just((0, 0)), st.tuples(st.integers(0, 3), st.integers(0, 3))),
    ), quick=500,
    thorough=30000, rule="passes a speed strictly inside the grid",
)
def critical_points(case):
    c, descending, (before, after) = case
    built = profiles.build(c)
    p, angles = built.solution, built.angles
    a_0 = c.m.v_a_on_c_s ** 2
    if descending:
        # what is stored is reported on, in the order it is stored
        p, angles = p[::-1].copy(), angles[::-1].copy()
    want, err = machs(p, a_0)
    known = slice(before, len(p) - after)
    unknown = np.ones(len(p), dtype=bool)
    unknown[known] = False
    p[unknown, phys.VT] = np.nan
    soln = model_solution(p, a_0, angles)
    original = p.copy()
    with np.errstate(divide="ignore"):
        points = dict(zip(NAMES, get_all_sonic_points(soln)))
        indices = dict(zip(NAMES, get_critical_point_indices(soln)))
    if not np.array_equal(original, soln.solution, equal_nan=True):
        fail("looking for critical points changed the solution", key="changed")
    labels = set()
    angles = angles[known]
    for n in NAMES:
        ys = want[n][known]
        err[n] = err[n][known]
        if np.any(np.abs(ys - 1) <= err[n] * 100) and n != "sonic":
            continue  # which side of 1 is a matter of rounding
        cross = crossing(angles, ys)
        point, index = points[n], indices[n]
        what = f"{n} point of Mach numbers {ys!r} at {angles!r}" + (
            f", after {before} unknown" if before else "")
        if cross is None:
            if point is not None:
                fail(f"{what}: {point!r}, there is none", key=n + " none")
            if index is not None:
                fail(f"{what}: index {index!r}, there is none",
                     key=n + " index")
            labels.add(n + " none")
            continue
        (lo, hi), i = cross
        if index != i + before:
            fail(f"{what}: index {index!r}, not {i + before}",
                 key=n + " index")
        if not np.any(ys > 1):
            # touches the speed without passing it
            if point is not None and point != hi:
                fail(f"{what}: {point!r}", key=n + " touch")
            continue
        if point is None:
            fail(f"{what}: absent, but in [{lo}, {hi}]", key=n + " absent")
        if not min(lo, hi) <= point <= max(lo, hi):
            fail(f"{what}: {point!r}, not in [{lo}, {hi}]", key=n + " where")
        if lo != hi:
            # where a straight line between the two rows passes
            t = (1 - ys[i - 1]) / (ys[i] - ys[i - 1])
            line = lo + t * (hi - lo)
            tol = 1e-9 + 100 * max(err[n][i], err[n][i - 1]) / abs(
                ys[i] - ys[i - 1])
            if abs(point - line) > tol * abs(hi - lo) + 1e-12:
                fail(f"{what}: {point!r}, not {line!r}", key=n + " where")
            labels.add(n)
        elif point != hi:
            fail(f"{what}: {point!r}, it is {hi!r}", key=n + " where")
        else:
            labels.add(n + " on a row")
    return labels or None
