# -*- coding: utf-8 -*-
"""C02: evolving E_r is the same disc as evolving B_φ'."""
import numpy as np
from hypothesis import strategies as st

import gens
import phys
from engine import relation, fail
from props.c01 import init_con

from disc_solver.solve.solution import ode_system
from disc_solver.solve.config import define_conditions

ASSUMPTIONS = [
    "the two forms are compared at the same physical state; how B_φ'' itself "
    "is computed is C01",
]
SHARED = [i for i in range(11) if i != phys.X7]


def both(s):
    p = np.array(s.p)
    E_r = phys.E_r_of_state(s.θ, p, s.γ)
    q = p.copy()
    q[phys.X7] = E_r
    out = []
    for use_E_r, params in ((False, p), (True, q)):
        rhs, _ = ode_system(
            γ=s.γ, a_0=s.a_0, norm_kepler_sq=s.K2, init_con=init_con(s),
            with_taylor=False, η_derivs=s.η_derivs, store_internal=False,
            use_E_r=use_E_r,
        )
        d = np.full(11, np.nan)
        flag = rhs(s.θ, params.copy(), d)
        if flag != 0:
            fail("valid state rejected with flag {} (use_E_r={})".format(
                flag, use_E_r
            ))
        out.append(d)
    return p, q, out


def cancellation(s, p):
    """Size of the terms of E_r relative to what fixes B_φ'."""
    dB_r = phys.dB_r_from_E_φ(s.θ, p, p[phys.X7], s.γ)
    J = phys.currents(s.θ, p, dB_r, p[phys.X7], s.γ)
    η = p[phys.EO] + p[phys.EA] + abs(p[phys.EH])
    size = (
        η * (sum(abs(j) for j in J) + abs(p[phys.X7]))
        + abs(p[phys.VP] * p[phys.BT])
        + abs(p[phys.VT] * p[phys.BP])
        + abs(p[phys.VR] * p[phys.BT]) + abs(p[phys.VT] * p[phys.BR])
    )
    return size / (p[phys.EO] + p[phys.EA] * 0)


@relation(
    gens.states(), quick=600, thorough=25000,
    rule="generic state: Hall, ambipolar, γ and all fields non-zero",
)
def same_derivatives(s):
    p, q, (d1, d2) = both(s)
    # error of B_φ' recovered from E_r, in absolute terms
    err = 1e-13 * cancellation(s, p)
    if err > 1e-5 * abs(p[phys.X7]):
        return None     # B_φ' is not recoverable from a double E_r
    if not abs(d2[phys.BP] - p[phys.X7]) <= err + 1e-12 * abs(p[phys.X7]):
        fail("B_φ' is {!r} but E_r implies {!r}".format(
            p[phys.X7], d2[phys.BP]
        ))
    # propagate that error through the other derivatives by finite change
    moved = p.copy()
    moved[phys.X7] = p[phys.X7] + 1e3 * err + 1e-9 * abs(p[phys.X7])
    rhs, _ = ode_system(
        γ=s.γ, a_0=s.a_0, norm_kepler_sq=s.K2, init_con=init_con(s),
        with_taylor=False, η_derivs=s.η_derivs, store_internal=False,
    )
    d3 = np.full(11, np.nan)
    rhs(s.θ, moved, d3)
    for i in SHARED:
        slack = abs(d3[i] - d1[i]) + 1e-8 * abs(d1[i])
        if not abs(d1[i] - d2[i]) <= slack:
            fail("{}' differs: {!r} with B_φ', {!r} with E_r".format(
                phys.NAMES[i], d1[i], d2[i]
            ))
    return gens.labels(s) if gens.generic(s) else None


@relation(
    gens.states(), quick=500, thorough=20000,
    rule="generic state: Hall, ambipolar, γ and all fields non-zero",
)
def induction(s):
    """E_r' is (γ - 3/4) E_θ of the same state."""
    p, q, (_, d2) = both(s)
    dB_φ, dB_r = d2[phys.BP], d2[phys.BR]
    E = phys.e_field(s.θ, p, dB_r, dB_φ, s.γ)
    J = phys.currents(s.θ, p, dB_r, dB_φ, s.γ)
    η = p[phys.EO] + p[phys.EA] + abs(p[phys.EH])
    scale = η * sum(abs(j) for j in J) + abs(
        p[phys.VR] * p[phys.BP]
    ) + abs(p[phys.VP] * p[phys.BR])
    if not abs(d2[phys.X7] - (s.γ - 3 / 4) * E[1]) <= 1e-10 * scale:
        fail("E_r' is {!r}, (γ - 3/4) E_θ is {!r}".format(
            d2[phys.X7], (s.γ - 3 / 4) * E[1]
        ))
    # and B_φ' and B_r' it uses satisfy Ohm's law for the E_r held
    E_scale = scale + abs(p[phys.VP] * p[phys.BT]) + abs(
        p[phys.VT] * p[phys.BP]
    ) + abs(q[phys.X7])
    if not abs(E[0] - q[phys.X7]) <= 1e-10 * E_scale:
        fail("Ohm's law gives E_r = {!r}, the state holds {!r}".format(
            E[0], q[phys.X7]
        ))
    E_φ_scale = scale + abs(p[phys.VR] * p[phys.BT]) + abs(
        p[phys.VT] * p[phys.BR]
    )
    if not abs(E[2]) <= 1e-10 * E_φ_scale:
        fail("E_φ is {!r} not 0".format(E[2]))
    return gens.labels(s) if gens.generic(s) else None


@relation(
    gens.midplanes(), quick=300, thorough=8000,
    rule="midplane with Hall and ambipolar diffusion and γ non-zero",
)
def same_start(m):
    """Both forms start from the same midplane."""
    ic = {}
    for use_E_r in (False, True):
        ic[use_E_r] = define_conditions(gens.soln_input(
            m, use_E_r=use_E_r
        )).init_con
    for i in SHARED:
        if ic[False][i] != ic[True][i]:
            fail("{} differs at the midplane: {!r} and {!r}".format(
                phys.NAMES[i], ic[False][i], ic[True][i]
            ))
    p = np.array(ic[False])
    expected = phys.E_r_of_state(0.0, p, m.γ)
    scale = abs(p[phys.VP]) + abs(expected) + (
        m.η_O + m.η_A + abs(m.η_H)
    ) * abs(p[phys.X7]) + abs(p[phys.VR] * m.η_H / (m.η_O + m.η_A))
    if not abs(ic[True][phys.X7] - expected) <= 1e-10 * scale:
        fail("E_r starts at {!r}, Ohm's law gives {!r}".format(
            ic[True][phys.X7], expected
        ))
    return "generic" if gens.generic_mid(m) else None
