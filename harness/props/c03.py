# -*- coding: utf-8 -*-
"""C03: the step off the midplane follows the equations."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

import gens
import phys
import series
import solving
from engine import relation, fail

from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import (
    ode_system, taylor_jump, taylor_solution,
)
from disc_solver.utils import DiscSolverError, ODEIndex

ASSUMPTIONS = [
    "reference: Newton on the power-series residuals of the equations",
    "cases whose series system has a condition number over 1e8 are trivial",
]
KEY = "midplane-third-order-sources"
ORDERS = ("first", "second", "third")
TOL = 1e-6


def names_at(order, use_E_r):
    return {
        "first": ("B_r", "B_φ", "v_θ"),
        "second": ("B_θ", "ρ", "v_r", "v_φ", "η_O", "η_A", "η_H",
                   "E_r" if use_E_r else "B_φ_prime"),
        "third": ("B_r", "B_φ", "v_θ"),
    }[order]


def reference(m, ic):
    """Derivatives at the midplane, or None where they are ill-determined."""
    c = ic.init_con
    # the elimination of v_φ'' is singular where these two terms cancel
    η_P = m.η_O + m.η_A
    first = c[phys.VR] * (1 - 8 * m.γ)
    second = 2 * ic.a_0 * η_P / (η_P ** 2 + m.η_H ** 2)
    if abs(first + second) < 1e-5 * (abs(first) + abs(second)):
        return None
    ref = series.solve(
        c[phys.VR], c[phys.VP], ic.norm_kepler_sq, ic.a_0, m.γ, m.η_O, m.η_A,
        m.η_H, m.η_derivs,
    )
    if ref is None or ref[1] > 1e8:
        return None
    return ref


def jump_polynomial(m, ic, use_E_r):
    """Coefficients (as derivatives) of the polynomial the jump follows."""
    xs = np.array([-2.0, -1.0, 1.0, 2.0])
    ys = []
    for x in xs:
        ys.append(taylor_jump(
            angles=np.linspace(0, 3, 5), init_con=ic.init_con, γ=ic.γ,
            a_0=ic.a_0, taylor_stop_angle=x, η_derivs=m.η_derivs,
            use_E_r=use_E_r,
        ).new_initial_conditions)
    V = np.vander(xs, 4, increasing=True)
    coeffs = np.linalg.solve(V, np.array(ys))
    size = np.abs(np.array(ys)).max(axis=0)
    return coeffs * np.array([1, 1, 2, 6])[:, None], size


def close(a, b, scale):
    return abs(a - b) <= TOL * abs(b) + scale


@relation(
    st.tuples(gens.midplanes(), st.booleans()), quick=250, thorough=6000,
    rule="Hall, ambipolar and γ non-zero and the series well conditioned",
)
def coefficients(case):
    m, use_E_r = case
    ic = define_conditions(gens.soln_input(m, use_E_r=use_E_r))
    ref = reference(m, ic)
    if ref is None:
        return None
    true = ref[0]
    got, size = jump_polynomial(m, ic, use_E_r)
    if not np.allclose(got[0], ic.init_con, rtol=1e-9, atol=1e-9 * size):
        fail("the expansion starts from {} instead of {}".format(
            got[0], ic.init_con
        ))
    model = series.listed_deviation(
        ic.init_con[phys.VR], ic.init_con[phys.VP], ic.a_0, m.γ, m.η_O, m.η_A,
        m.η_H, true,
    )
    for n, order in enumerate(ORDERS, start=1):
        zero = 1e-14 * max(abs(v) for v in true[order].values())
        for i in range(11):
            name = phys.NAMES[i] if i != phys.X7 else (
                "E_r" if use_E_r else "B_φ_prime"
            )
            value = got[n][i]
            # what solving for the coefficients of the polynomial loses
            noise = zero + 1e-12 * size[i] + 1e-9 * abs(
                true[order].get(name, 0)
            )
            if name not in names_at(order, use_E_r):
                if not abs(value) <= noise:
                    fail("{} has a {}-order term {!r}".format(
                        name, order, value
                    ))
                continue
            if close(value, true[order][name], noise):
                continue
            message = (
                "{} order term of {} is {!r}, the equations give {!r}".format(
                    order, name, value, true[order][name]
                )
            )
            if name in model.get(order, {}) and close(
                value, model[order][name],
                noise + 1e-12 * abs(true[order][name])
            ):
                fail(message, key=KEY)
            else:
                fail(message)
    return [
        "E_r" if use_E_r else "B_φ'",
        "η varying" if m.η_derivs else "η constant",
    ] if gens.generic_mid(m) else None


@relation(
    st.tuples(
        gens.midplanes(), st.booleans(), st.integers(2, 60),
        gens.flt(0.1, 6), gens.flt(0.0001, 0.9),
    ), quick=250, thorough=5000,
    rule="the grid has points on both sides of the angle jumped to",
)
def jump_restart(case):
    """The integration goes on from the angle the values belong to."""
    m, use_E_r, num, stop, frac = case
    ic = define_conditions(gens.soln_input(
        m, use_E_r=use_E_r, stop=stop, num_angles=num
    ))
    angles = ic.angles.copy()
    stop_angle = np.radians(stop) * frac
    res = taylor_jump(
        angles=ic.angles, init_con=ic.init_con, γ=ic.γ, a_0=ic.a_0,
        taylor_stop_angle=stop_angle, η_derivs=m.η_derivs, use_E_r=use_E_r,
    )
    if not np.array_equal(angles, ic.angles):
        fail("the requested angles were changed")
    if res.internal_data is not None:
        fail("a jump has no internal data")
    new = np.asarray(res.new_angles)
    if len(new) == 0 or new[0] != stop_angle:
        fail("values belong to {!r} but integration restarts at {!r}".format(
            stop_angle, new[:2].tolist()
        ))
    if res.angle_stopped != stop_angle:
        fail("stopped at {!r}, not {!r}".format(
            res.angle_stopped, stop_angle
        ))
    if not np.array_equal(new[1:], angles[angles > stop_angle]):
        fail("grid beyond {} became {}".format(stop_angle, new[1:]))
    if not np.array_equal(np.asarray(res.angles), [0, stop_angle]):
        fail("angles of the jump are {}".format(res.angles))
    params = np.asarray(res.params)
    # where the elimination of v_φ'' is singular they are not numbers
    if params.shape != (2, 11) or not np.array_equal(
        params[0], ic.init_con
    ) or not np.array_equal(
        params[1], res.new_initial_conditions, equal_nan=True
    ):
        fail("values of the jump are {}".format(params))
    return "both sides" if (
        np.any((angles > 0) & (angles < stop_angle))
        and np.any(angles > stop_angle)
    ) else None


@relation(
    st.tuples(gens.midplanes(), st.booleans(), gens.mag(-8, -1)),
    quick=250, thorough=5000,
    rule="Hall, ambipolar and γ non-zero and the series well conditioned",
)
def taylor_derivatives(case):
    """Where 1/v_θ is singular the derivatives are those of the expansion."""
    m, use_E_r, θ = case
    ic = define_conditions(gens.soln_input(m, use_E_r=use_E_r))
    ref = reference(m, ic)
    if ref is None:
        return None
    true = ref[0]
    rhs, _ = ode_system(
        γ=ic.γ, a_0=ic.a_0, norm_kepler_sq=ic.norm_kepler_sq,
        init_con=ic.init_con, with_taylor=True, η_derivs=m.η_derivs,
        store_internal=False, use_E_r=use_E_r,
    )
    d = np.full(11, np.nan)
    flag = rhs(θ, ic.init_con.copy(), d)
    if flag != 0:
        fail("midplane rejected with flag {}".format(flag))
    model = series.listed_deviation(
        ic.init_con[phys.VR], ic.init_con[phys.VP], ic.a_0, m.γ, m.η_O, m.η_A,
        m.η_H, true,
    )["second"]
    for name in ("v_r", "v_φ", "ρ"):
        value = d[ODEIndex[name]]
        expected = θ * true["second"][name]
        if close(value, expected, 0):
            continue
        message = "{}' is {!r} at {}, the expansion gives {!r}".format(
            name, value, θ, expected
        )
        if name in model and close(
            value, θ * model[name], 1e-12 * abs(expected)
        ):
            fail(message, key=KEY)
        else:
            fail(message)
    return "generic" if gens.generic_mid(m) else None


@relation(
    st.tuples(
        solving.cases(("full",), jump=st.just(False), num=st.integers(30, 80)),
        gens.flt(1.5, 12),
    ), quick=60, thorough=1500, cost=8,
    rule="at least three stored states below the angle the expansion ends at",
)
def integrated_start(case):
    """Without the jump the expansion's derivatives are integrated instead."""
    c, div = case
    inp = solving.make_input(c)
    inp.taylor_stop_angle = inp.stop / div
    inp.relative_tolerance = 1e-8
    inp.absolute_tolerance = 1e-12
    try:
        soln = solving.solve("full", inp, store_internal=False)
    except solving.SolverError:
        return None
    t = np.radians(inp.taylor_stop_angle)
    a = np.asarray(soln.angles)
    rows = np.asarray(soln.solution)[a <= t * (1 + 1e-12)]
    a = a[a <= t * (1 + 1e-12)]
    ic = define_conditions(inp)
    if len(a) < 2 or not np.array_equal(rows[0], ic.init_con) or a[0] != 0:
        fail("the start is {} at {}".format(rows[:1], a[:1]))
    bad = solving.diffusivity_defect(rows, inp.η_derivs)
    if bad > (1e-5 if inp.η_derivs else 0):
        fail("diffusivities {} from the state by {:.2e}".format(
            "differ", bad
        ))
    rhs = solving.rhs_of("full", inp, with_taylor=True)
    size = np.abs(rows).max(axis=0) + 1e-6
    for i in range(min(4, len(a))):
        # v_θ < 0 by rounding alone is refused, so it starts as zero
        try:
            end = solving.reference(rhs, 0, rows[0], a[-1 - i])
        except (solving.Budget, ValueError):
            continue
        off = np.abs(end - rows[-1 - i]) / size
        if np.max(off) > 1e-4:
            j = int(np.argmax(off))
            fail("{} at {} is {!r}, the expansion's derivatives give {!r}"
                 .format(phys.NAMES[j], a[-1 - i], rows[-1 - i, j], end[j]))
    return [
        "E_r" if inp.use_E_r else "B_φ'",
        "η varying" if inp.η_derivs else "η constant",
    ] if len(a) >= 4 else None


Space = namedtuple("Space", ["m", "spread", "samples", "seed"])


@relation(
    st.builds(
        Space, gens.midplanes().map(lambda m: m._replace(η_derivs=False)),
        st.lists(gens.flt(0, 0.1), min_size=4, max_size=4),
        st.integers(0, 4), st.integers(0, 2 ** 30),
    ), quick=60, thorough=2000,
    rule="some inputs sampled, with ambipolar and Hall diffusion differing",
)
def sampled_space(case):
    """Series sampled over a range of inputs are those of the inputs."""
    from disc_solver.solve.taylor_space import compute_taylor_space
    m = case.m
    ranges = {
        name: (getattr(m, name), getattr(m, name) * (1 + spread))
        for name, spread in zip(
            ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k"), case.spread
        )
    }
    for name, (low, high) in list(ranges.items()):
        ranges[name] = (min(low, high), max(low, high))
    np.random.seed(case.seed)
    try:
        got = compute_taylor_space(
            **ranges, η_O=m.η_O, η_A=m.η_A, η_H=m.η_H,
            num_samples=case.samples,
        )
    except DiscSolverError:
        # not every input in the range has a midplane
        return None
    if got.taylor_orders.shape != (case.samples, 4, 11):
        fail(f"orders have the shape {got.taylor_orders.shape}")
    for i in range(case.samples):
        at = {
            name: float(getattr(got, name + "_arr")[i]) for name in ranges
        }
        for name, (low, high) in ranges.items():
            if not low <= at[name] <= high:
                fail(f"{name} sampled is {at[name]!r}, not in {low, high}")
        mid = m._replace(**at)
        ic = define_conditions(gens.soln_input(mid))
        if not np.allclose(
            got.taylor_orders[i, 0], ic.init_con, rtol=1e-12, atol=0
        ):
            fail("series does not start from the input's midplane")
        poly, size = jump_polynomial(mid, ic, False)
        for n in (1, 2, 3):
            off = np.abs(got.taylor_orders[i, n] - poly[n])
            if not np.all(off <= 1e-6 * np.abs(poly[n]) + 1e-11 * size):
                fail(f"order {n} is {got.taylor_orders[i, n]!r}, not "
                     f"{poly[n]!r}")
    return case.samples > 0 and m.η_A != m.η_H or None
