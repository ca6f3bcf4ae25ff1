# -*- coding: utf-8 -*-
"""C01: the right-hand side handed to the integrator is the disc's MHD."""
import numpy as np
from hypothesis import strategies as st

import gens
import phys
from engine import relation, fail

from disc_solver.solve.solution import ode_system

ASSUMPTIONS = [
    "states are generic points of the phase space, not only solution points",
    "equations stated independently from the vector form in phys.py",
]
TOL = 1e-9


def system(s, **kw):
    args = dict(
        γ=s.γ, a_0=s.a_0, norm_kepler_sq=s.K2, init_con=init_con(s),
        with_taylor=False, η_derivs=s.η_derivs, store_internal=False,
    )
    args.update(kw)
    return ode_system(**args)


def init_con(s):
    """Midplane values: only the midplane diffusivities matter off it."""
    p = np.array(s.p)
    ic = np.zeros(11)
    ic[phys.BT] = 1
    ic[phys.VR] = -abs(p[phys.VR]) - 0.1
    ic[phys.VP] = p[phys.VP]
    ic[phys.RHO] = 1
    # midplane diffusivities differ from the local ones
    ic[phys.EO] = 0.75 * p[phys.EO]
    ic[phys.EA] = 1.5 * p[phys.EA]
    ic[phys.EH] = 2.25 * p[phys.EH]
    return ic


def derivs(s, **kw):
    rhs, _ = system(s, **kw)
    d = np.full(11, np.nan)
    flag = rhs(s.θ, np.array(s.p), d)
    if flag != 0:
        fail("valid state rejected with flag {}".format(flag))
    return d


@relation(
    gens.states(), quick=700, thorough=30000,
    rule="generic state: every field, velocity and diffusivity non-zero and "
    "off the midplane, so that no term of any equation vanishes",
)
def momentum_mass_and_field(s):
    d = derivs(s)
    p = np.array(s.p)
    if not np.all(np.isfinite(d)):
        fail("non-finite derivative {}".format(d))
    dB_φ = p[phys.X7]
    if d[phys.BP] != dB_φ:
        fail("B_φ' is {} but the state holds {}".format(d[phys.BP], dB_φ))
    for name, terms in phys.residuals(
        s.θ, p, d, s.γ, s.a_0, s.K2, dB_φ
    ).items():
        total, scale = phys.balance(terms)
        if not total <= TOL * scale:
            fail("{} violated: residual {:.3e}, terms of size {:.3e}".format(
                name, total, scale
            ))
    return gens.labels(s) if gens.generic(s) else None


@relation(
    gens.states(), quick=500, thorough=20000,
    rule="generic state; E_r' along the flow is compared with the induction "
    "equation, which fixes B_φ''",
)
def induction(s):
    d = derivs(s)
    p = np.array(s.p)
    dE, scale = phys.E_r_deriv_along(s.θ, p, d, s.γ)
    E_θ = phys.e_field(s.θ, p, d[phys.BR], p[phys.X7], s.γ)[1]
    expected = (s.γ - 3 / 4) * E_θ
    # magnitude of what cancels inside E_θ
    J = phys.currents(s.θ, p, d[phys.BR], p[phys.X7], s.γ)
    scale += sum(abs(j) for j in J) * (
        p[phys.EO] + p[phys.EA] + abs(p[phys.EH])
    ) + abs(p[phys.VR] * p[phys.BP]) + abs(p[phys.VP] * p[phys.BR])
    if abs(dE - expected) <= 1e-8 * scale:
        return gens.labels(s) if gens.generic(s) else None
    # Listed finding: the terms of B_φ'' which come from the B_φ tan θ part of
    # J_r and from J_θ have the wrong sign.  Anything else is a new violation.
    dS, dS_scale = phys.directional(
        phys.E_r_from_B_φ_current, s.θ, p, d, s.γ
    )
    message = (
        "induction violated: E_r' = {!r}, (γ-3/4) E_θ = {!r}".format(
            dE, expected
        )
    )
    if abs(dE - expected - 2 * dS) <= 1e-8 * (scale + dS_scale):
        fail(message, key="induction-curvature-sign")
    else:
        fail(message)
    return gens.labels(s) if gens.generic(s) else None


@relation(
    gens.states(), quick=400, thorough=10000,
    rule="generic state; with diffusivity derivatives each η' is its midplane "
    "value times (B²/ρ)' / ρ-form, without them exactly zero",
)
def diffusivities(s):
    d = derivs(s)
    p = np.array(s.p)
    ic = init_con(s)
    if not s.η_derivs:
        if any(d[i] != 0 for i in (phys.EO, phys.EA, phys.EH)):
            fail("η' not zero although diffusivities are constant: {}".format(
                d[8:]
            ))
        return "constant" if gens.generic(s) else None
    expected = phys.η_scale_deriv(p, d, p[phys.X7])
    B2 = p[phys.BR] ** 2 + p[phys.BP] ** 2 + p[phys.BT] ** 2
    scale = (
        2 * (
            abs(p[phys.BR] * d[phys.BR]) + abs(p[phys.BP] * d[phys.BP])
            + abs(p[phys.BT] * d[phys.BT])
        ) + B2 * abs(d[phys.RHO] / p[phys.RHO])
    ) / p[phys.RHO]
    for i in (phys.EO, phys.EA, phys.EH):
        if not abs(d[i] - expected * ic[i]) <= TOL * scale * abs(ic[i]):
            fail("{}' is {!r}, expected {!r}".format(
                phys.NAMES[i], d[i], expected * ic[i]
            ))
    return "varying" if gens.generic(s) else None


@relation(
    st.lists(gens.states(), min_size=2, max_size=5), quick=150, thorough=3000,
    rule="at least two distinct rows",
)
def whole_solution_evaluation(rows):
    """Derivatives of a stored solution are those the integrator saw."""
    first = rows[0]
    rows = [first._replace(p=r.p, θ=r.θ) for r in rows]
    angles = np.array([r.θ for r in rows])
    params = np.array([r.p for r in rows])
    kw = dict(init_con=init_con(first))
    rhs, _ = system(first, derivs_post_solution=True, **kw)
    out = np.full(params.shape, np.nan)
    before = params.copy()
    rhs(angles, params, out)
    if not np.array_equal(before, params):
        fail("evaluating derivatives changed the solution")
    for i, r in enumerate(rows):
        single = derivs(r, **kw)
        if not np.allclose(out[i], single, rtol=1e-9, atol=1e-300):
            fail("row {}: {} instead of {}".format(i, out[i], single))
    return "rows" if len({r.p for r in rows}) > 1 else None


@relation(
    st.tuples(
        gens.states(), st.sampled_from(["ρ", "v_θ", "both"]), st.booleans()
    ),
    quick=120, thorough=2000, rule="unphysical density or velocity",
)
def unphysical_states_rejected(case):
    """Negative density or vertical velocity is never integrated through."""
    s, which, store = case
    p = np.array(s.p)
    if which in ("ρ", "both"):
        p[phys.RHO] *= -1
    if which in ("v_θ", "both"):
        p[phys.VT] *= -1
    rhs, internal = system(s, store_internal=store)
    d = np.zeros(11)
    flag = rhs(s.θ, p, d)
    # a negative return value means it is not recoverable (a smaller step
    # will not help), a positive one that it is
    if which == "v_θ" and not flag < 0:
        fail("state with negative v_θ: flag {!r}".format(flag))
    if which != "v_θ" and not flag > 0:
        fail("state with negative density: flag {!r}".format(flag))
    if not store:
        if internal is not None:
            fail("internal data though not asked for")
        return [which, "not stored"]
    text = "negative density" if which != "v_θ" else "negative velocity"
    problems = {k: list(v) for k, v in internal.problems.items()}
    if problems.get(str(s.θ)) != [text]:
        fail("problems recorded: {!r}".format(problems))
    if len(internal.params) or len(internal.derivs) or len(internal.angles):
        fail("rejected state recorded as part of the internal data")
    return which


@relation(
    st.tuples(st.lists(gens.states(), min_size=1, max_size=4), st.booleans()),
    quick=100, thorough=2000, rule="internal data requested",
)
def internal_record(case):
    """The internal data is the exact history of evaluations."""
    rows, store = case
    first = rows[0]
    rhs, internal = system(first, store_internal=store)
    if not store:
        if internal is not None:
            fail("internal data returned though not requested")
    history = []
    params = np.zeros(11)
    d = np.zeros(11)
    for r in rows:
        # the integrator reuses its buffers
        params[:] = r.p
        rhs(r.θ, params, d)
        history.append((r.θ, params.copy(), d.copy()))
    params[:] = -1
    d[:] = -1
    if not store:
        return None
    if len(internal.angles) != len(history):
        fail("{} evaluations recorded as {}".format(
            len(history), len(internal.angles)
        ))
    for i, (θ, p, dd) in enumerate(history):
        if internal.angles[i] != θ:
            fail("angle recorded {} for {}".format(internal.angles[i], θ))
        if not np.array_equal(internal.params[i], p):
            fail("values recorded {} for {}".format(internal.params[i], p))
        if not np.array_equal(internal.derivs[i], dd):
            fail("derivatives recorded {} for {}".format(
                internal.derivs[i], dd
            ))
        for name, idx in (
            ("v_r_normal", phys.VR), ("v_φ_normal", phys.VP),
            ("ρ_normal", phys.RHO),
        ):
            if getattr(internal, name)[i] != dd[idx]:
                fail("{} recorded {} for {}".format(
                    name, getattr(internal, name)[i], dd[idx]
                ))
    return "stored"
