# -*- coding: utf-8 -*-
"""C06: solutions are the initial value problem's solution on the grid."""
import copy

import numpy as np
from hypothesis import strategies as st

import phys
import solving
from engine import relation, fail
from solving import SolverError

ASSUMPTIONS = [
    "the derivatives themselves are C01-C04's business: here they are taken "
    "from the code, with arguments computed from the input",
]
MODES = ("full", "full", "hydrostatic", "mod_hydro")
REFUSALS = ("Taylor solver", "Insufficient angles")


def attempt(mode, inp, **kw):
    """The solution, or None where there is none to be had."""
    try:
        return solving.solve(mode, inp, **kw)
    except SolverError as e:
        if any(r in str(e) for r in REFUSALS):
            return None
        raise


def grid(inp, mode):
    """(angles the stepping starts from, requested angles)"""
    n = inp.num_angles
    req = np.array([
        np.radians(inp.start) + (
            np.radians(inp.stop) - np.radians(inp.start)
        ) * (i / (n - 1)) for i in range(n)
    ])
    if mode != "full":
        return req
    taylor = np.radians(inp.taylor_stop_angle)
    near = np.abs(req - taylor) < 1e-12
    tail = req[(req > taylor) & ~near]
    if inp.use_taylor_jump:
        head = [0.0, taylor, taylor]
    else:
        head = list(req[(req < taylor) & ~near]) + [taylor]
    return np.array(head + list(tail)), int(np.sum(near))


def same(a, b):
    return len(a) == len(b) and np.allclose(a, b, rtol=1e-12, atol=1e-14)


@relation(
    solving.cases(MODES, num=st.integers(2, 60)), quick=70, thorough=2500,
    rule="integration reached the last angle", cost=6,
)
def requested_grid(c):
    """Angles are the requested ones, up to where the flag says it stopped."""
    inp = solving.make_input(c)
    before = copy.deepcopy(inp)
    soln = attempt(c.mode, inp, store_internal=False)
    if inp != before:
        fail("input changed")
    if soln is None:
        return None
    if soln.solution_input != before:
        fail("stored input differs from the one solved")
    if soln.solution.shape != (len(soln.angles), 11):
        fail("solution {} for {} angles".format(
            soln.solution.shape, len(soln.angles)
        ))
    a = np.asarray(soln.angles)
    want = grid(inp, c.mode)
    if c.mode == "full":
        want, near = want
        if near:
            return None
        if not c.use_taylor_jump:
            # the stepped part may stop at the taylor angle or just before
            t = np.radians(inp.taylor_stop_angle)
            first = a[a < t * (1 - 1e-12)]
            if not same(first, want[want < t * (1 - 1e-12)]):
                fail("angles below the taylor angle: {}".format(first))
            a = np.concatenate((first, np.unique(a[len(first):])))
    if int(soln.flag) == 0:
        if not same(a, want):
            fail("successful solve on {}, requested {}".format(a, want))
        if np.any(np.isnan(soln.solution)):
            fail("NaN in a successful solution")
        return [c.mode, "complete"]
    if int(soln.flag) > 0:
        fail("stopped with {!s} though nothing asked for it".format(
            soln.flag
        ))
    if len(a) > len(want) or not same(a, want[:len(a)]):
        fail("failed solve on {}, requested {}".format(a, want))
    return None


def shoot(c, inp, soln):
    """
    (largest defect, its description, intervals compared): how far the state
    an independent integrator reaches from each stored state is from the next
    """
    rhs = solving.rhs_of(c.mode, inp)
    a, s = np.asarray(soln.angles), soln.solution
    scale = np.max(np.abs(s), axis=0) + 1e-6
    start = 0
    if c.mode == "full":
        start = int(np.argmin(np.abs(a - np.radians(inp.taylor_stop_angle))))
    worst, what, done = 0.0, None, 0
    for i in range(start, len(a) - 1):
        if a[i + 1] <= a[i]:
            if np.any(np.abs(s[i] - s[i + 1]) > 1e-4 * scale):
                fail("two states at {}".format(a[i]))
            continue
        if c.mode == "full" and not 1e-6 < s[i, phys.VT] < 0.9:
            continue
        try:
            end = solving.reference(rhs, a[i], s[i], a[i + 1], calls=1500)
        except solving.Budget:
            continue
        bad = np.abs(end - s[i + 1]) / scale
        done += 1
        if np.max(bad) > worst:
            j = int(np.argmax(bad))
            worst, what = bad[j], "{} at {} is {!r}, not {!r}".format(
                phys.NAMES[j], a[i + 1], s[i + 1, j], end[j]
            )
    return worst, what, done


@relation(
    solving.cases(MODES, num=st.integers(4, 12)), quick=50, thorough=2000,
    rule="at least three intervals compared", cost=15,
)
def follows_derivatives(c):
    """Each stored state leads to the next, by an independent integrator."""
    if c.mode == "mod_hydro" and c.use_E_r:
        c = c._replace(use_E_r=False)  # v_r, v_φ are recomputed afterwards
    inp = solving.make_input(c)
    soln = attempt(c.mode, inp, store_internal=False)
    if soln is None or len(soln.angles) < 4:
        return None
    ic = solving.initial(c.mode, inp)
    if soln.angles[0] != 0 or not np.array_equal(soln.solution[0], ic.init_con):
        fail("starts from {} at {}".format(soln.solution[0], soln.angles[0]))
    worst, what, done = shoot(c, inp, soln)
    if worst > 1e-3:
        # what the requested tolerance leaves goes away with a smaller one
        tight_inp = solving.make_input(
            c, relative_tolerance=1e-9, absolute_tolerance=1e-12,
            max_steps=50000,
        )
        tight = attempt(c.mode, tight_inp, store_internal=False)
        if tight is None or len(tight.angles) != len(soln.angles):
            return None
        rest, what, done = shoot(c, tight_inp, tight)
        if rest > 1e-3 and rest > worst / 10:
            fail("{}, by the derivatives".format(what))
    return [c.mode, "E_r" if inp.use_E_r else "B_φ'"] if done >= 3 else None


@relation(
    solving.cases(MODES, num=st.integers(4, 12)), quick=45, thorough=1500,
    rule="internal data of a successful solve", cost=10,
)
def internal_record(c):
    """Stored internals are the evaluations of the derivatives; storing them
    or solving again changes nothing."""
    inp = solving.make_input(c)
    with_internal = attempt(c.mode, inp, store_internal=True)
    without = attempt(c.mode, inp, store_internal=False)
    if (with_internal is None) != (without is None):
        fail("storing internal data decides whether it can be solved")
    if with_internal is None:
        return None
    if without.internal_data is not None:
        fail("internal data stored though not asked for")
    for name in ("angles", "solution"):
        if not np.array_equal(
            getattr(with_internal, name), getattr(without, name),
            equal_nan=True,
        ):
            fail("{} depend on whether internal data is stored".format(name))
    if with_internal.flag != without.flag:
        fail("flag depends on whether internal data is stored")
    data = with_internal.internal_data
    angles, params, derivs = (
        np.asarray(x) for x in (data.angles, data.params, data.derivs)
    )
    if not len(angles) == len(params) == len(derivs):
        fail("internal data of different lengths")
    if len(angles) < len(with_internal.angles) - 3:
        fail("{} evaluations for {} angles".format(
            len(angles), len(with_internal.angles)
        ))
    rhs = solving.rhs_of(c.mode, inp)
    taylor = solving.rhs_of(c.mode, inp, with_taylor=True) if (
        c.mode == "full"
    ) else None
    step = max(1, len(angles) // 25)
    if not len(angles):
        return None
    if c.mode == "mod_hydro" and inp.use_E_r:
        step = len(angles)  # v_r is the root nearest to the previous one
    stepped = c.mode == "full" and not inp.use_taylor_jump
    t = np.radians(inp.taylor_stop_angle)
    switch = False
    for i in range(len(angles)):
        if stepped and not switch and angles[i] == t and i + 1 < len(
            angles
        ) and angles[i + 1] >= t:
            switch = True
        if i % step:
            continue
        options = [rhs(angles[i], params[i])[1]]
        if stepped:
            # around the taylor angle either part may have evaluated it
            other = taylor(angles[i], params[i])[1]
            if angles[i] < t * 0.999:
                options = [other]
            elif angles[i] < t * 1.5:
                options.append(other)
        if not any(
            np.allclose(derivs[i], o, rtol=1e-12, atol=1e-300, equal_nan=True)
            for o in options
        ):
            fail("derivatives stored at {} are {}, the state gives {}".format(
                angles[i], derivs[i], options
            ))
    first = 2 if c.mode == "full" and inp.use_taylor_jump else 0
    if c.mode != "mod_hydro" and len(with_internal.angles) > first and not (
        np.array_equal(params[0], with_internal.solution[first])
        and angles[0] == with_internal.angles[first]
    ):
        fail("first evaluated at {}, not at the start".format(angles[0]))
    return [c.mode, "E_r" if inp.use_E_r else "B_φ'"] if (
        int(with_internal.flag) == 0
    ) else None


@relation(
    solving.cases(MODES, num=st.integers(4, 10)), quick=25, thorough=800,
    rule="both integrations completed", cost=12,
)
def tolerances_and_steps(c):
    """The requested tolerances and step limit reach the integrator."""
    loose = attempt(c.mode, solving.make_input(
        c, relative_tolerance=1e-3, absolute_tolerance=1e-6,
    ), store_internal=False)
    tight = attempt(c.mode, solving.make_input(
        c, relative_tolerance=1e-9, absolute_tolerance=1e-12,
        max_steps=20000,
    ), store_internal=False)
    if loose is None or tight is None or (
        len(loose.angles) != len(tight.angles)
    ) or int(loose.flag) != 0 or int(tight.flag) != 0:
        return None
    out = []
    loose_atol = attempt(c.mode, solving.make_input(
        c, relative_tolerance=1e-9, absolute_tolerance=1e-1,
        max_steps=20000,
    ), store_internal=False)
    if np.array_equal(loose.solution, tight.solution):
        fail("tolerances make no difference")
    if loose_atol is not None and np.array_equal(
        loose_atol.solution, tight.solution
    ):
        fail("absolute tolerance makes no difference")
    limited = attempt(c.mode, solving.make_input(
        c, max_steps=1, num_angles=4, relative_tolerance=1e-9,
        absolute_tolerance=1e-12,
    ), store_internal=False)
    if limited is not None and int(limited.flag) == 0:
        fail("integrated across {} steps with max_steps 1".format(
            len(limited.angles)
        ))
    out.append(c.mode)
    return out


@relation(
    st.one_of(
        solving.cases(MODES, num=st.integers(8, 40)),
        solving.near_sonic(num=st.integers(10, 60)),
    ), quick=60, thorough=2000, cost=8,
    rule="diffusivities are non-zero and the solution covers over half the "
    "requested angles",
)
def invariants(c):
    """What the equations keep is kept, over the whole of a solution."""
    inp = solving.make_input(c)
    soln = attempt(c.mode, inp, store_internal=True)
    if soln is None or len(soln.angles) < 3:
        return None
    rows = np.asarray(soln.solution)
    # the sonic point is a singularity, past which errors are anything (and
    # which may have been met in between the requested angles)
    tried = np.asarray(soln.internal_data.params)
    if len(tried):
        near = ~(tried[:, phys.VT] < 0.9)
        if np.any(near):
            end = np.min(np.asarray(soln.internal_data.angles)[near])
            rows = rows[np.asarray(soln.angles) < end]
    if len(rows) < 3 or not np.all(np.isfinite(rows)):
        return None
    bad = solving.diffusivity_defect(rows, inp.η_derivs)
    if not inp.η_derivs and bad:
        fail("diffusivities vary by {:.2e}, to be constant".format(bad))
    if bad > 1e-3:
        tight = attempt(c.mode, solving.make_input(
            c, relative_tolerance=1e-10, absolute_tolerance=1e-13,
            max_steps=5000,
        ), store_internal=False)
        if tight is None:
            return None
        n = min(len(rows), len(tight.angles))
        rest = solving.diffusivity_defect(tight.solution[:n], True)
        if rest > 1e-3 and rest > bad / 10:
            fail("diffusivities are off B²/ρ by {:.2e}".format(rest))
    return [c.mode, "varying" if inp.η_derivs else "constant"] if (
        len(rows) > c.num_angles / 2
    ) else None
