# -*- coding: utf-8 -*-
"""Inputs that integrate, and what an independent integration makes of them."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

import gens
import phys
from gens import mag, signed, flt, sig

from disc_solver.solve import hydrostatic, mod_hydro, solution as full
from disc_solver.solve.config import define_conditions
from disc_solver.solve.utils import SolverError

Case = namedtuple("Case", [
    "mode", "m", "use_E_r", "k", "num_angles", "rtol", "taylor_div",
    "use_taylor_jump",
])


@st.composite
def mids(draw):
    """Inputs for which most integrations succeed."""
    m = gens.Mid(
        γ=draw(mag(-3, -0.5)), v_rin_on_c_s=draw(mag(-1, 0.3)),
        v_a_on_c_s=draw(mag(-0.5, 0.3)), c_s_on_v_k=draw(mag(-2, -1)),
        η_O=draw(mag(-3, -0.5)), η_A=draw(mag(-3, -0.5)),
        η_H=draw(signed(-3.5, -0.5)), η_derivs=draw(st.booleans()),
    )
    if not gens.has_midplane(m):
        m = m._replace(v_a_on_c_s=0.5, η_O=max(m.η_O, 0.05))
    if not gens.has_midplane(m):
        m = m._replace(v_rin_on_c_s=0.1, c_s_on_v_k=0.05)
    return m


def cases(modes=("full",), jump=st.booleans(), num=st.integers(4, 20)):
    return st.builds(
        Case, mode=st.sampled_from(modes), m=mids(), use_E_r=st.booleans(),
        k=flt(0.3, 2.5).map(lambda x: sig(x, 4)), num_angles=num,
        rtol=st.sampled_from([1e-6, 1e-7]),
        taylor_div=st.sampled_from([10, 30, 60, 200]),
        use_taylor_jump=jump,
    )


# (use_E_r, degrees at which v_θ is near or past the sonic point, input)
NEAR_SONIC = [
    (False, 0.551, gens.Mid(0.00265, 0.325, 0.921, 0.0214, 0.000299, 0.0, 0.000449, True)),
    (False, 0.276, gens.Mid(0.000242, 0.486, 0.703, 0.0201, 0.000163, 0.00434, -0.0098, True)),
    (True, 1.454, gens.Mid(0.143, 1.51, 0.502, 0.0254, 0.0189, 0.0015, 0.00014, False)),
    (True, 6.316, gens.Mid(0.143, 0.391, 0.674, 0.0322, 0.000669, 0.0217, 0.000842, True)),
    (False, 0.326, gens.Mid(0.013, 1.85, 1.1, 0.0251, 0.00154, 0.0, 0.00117, False)),
    (False, 0.802, gens.Mid(0.000538, 0.674, 1.4, 0.0312, 0.00134, 0.0, 0.00126, True)),
    (True, 6.566, gens.Mid(0.316, 0.41, 0.595, 0.0362, 0.00644, 0.0126, 0.00144, False)),
    (True, 7.544, gens.Mid(0.0289, 0.465, 0.693, 0.0345, 0.0249, 0.0, 0.00706, True)),
    (False, 1.729, gens.Mid(0.00588, 1.8, 0.907, 0.0445, 0.00578, 0.000343, -0.000324, True)),
    (True, 2.957, gens.Mid(0.0642, 0.475, 1.44, 0.0355, 0.00556, 0.000255, 0.00163, True)),
    (True, 0.777, gens.Mid(0.316, 1.38, 0.585, 0.0353, 0.00118, 0.000817, -0.00158, True)),
    (False, 7.895, gens.Mid(1e-05, 0.333, 1.33, 0.0204, 0.000244, 0.00781, -0.000161, False)),
    (True, 2.306, gens.Mid(0.143, 0.397, 0.828, 0.0295, 0.00103, 0.000623, 0.000484, True)),
    (True, 0.627, gens.Mid(0.00588, 0.692, 1.29, 0.0256, 0.00115, 0.0, -0.000376, True)),
    (True, 6.566, gens.Mid(0.00588, 0.383, 0.941, 0.0235, 0.00689, 0.000116, 0.000578, True)),
    (True, 0.551, gens.Mid(0.00119, 0.325, 1.12, 0.0211, 0.000379, 0.0, -0.00346, True)),
    (True, 1.203, gens.Mid(0.00588, 0.383, 1.13, 0.0387, 0.00112, 0.0, 0.000461, True)),
    (True, 3.534, gens.Mid(1e-05, 1.05, 1.48, 0.0273, 0.000436, 0.00684, 0.000858, False)),
    (False, 6.617, gens.Mid(0.0642, 1.66, 0.543, 0.033, 0.00277, 0.00968, 0.0023, True)),
    (True, 4.712, gens.Mid(0.316, 1.17, 0.692, 0.027, 0.000373, 0.014, 0.00028, True)),
    (True, 0.927, gens.Mid(0.00265, 0.568, 1.42, 0.0294, 0.00127, 0.000153, 0.000192, False)),
    (False, 6.842, gens.Mid(0.143, 0.668, 1.55, 0.042, 0.00373, 0.0308, -0.000206, True)),
    (True, 1.855, gens.Mid(0.316, 1.74, 1.54, 0.0265, 0.0233, 0.000115, 0.00628, True)),
    (True, 2.306, gens.Mid(0.000242, 0.992, 1.57, 0.0497, 0.000353, 0.00626, 0.00205, True)),
    (False, 0.401, gens.Mid(0.316, 0.734, 1.03, 0.0281, 0.000364, 0.000595, 0.00376, True)),
    (True, 5.313, gens.Mid(0.0642, 0.566, 0.845, 0.0241, 0.00161, 0.0133, 0.000107, True)),
    (False, 10.0, gens.Mid(0.00588, 0.439, 0.508, 0.0365, 0.0198, 0.0, 0.000598, True)),
    (True, 0.251, gens.Mid(0.000242, 1.21, 0.852, 0.0209, 0.000119, 0.000313, -0.000587, True)),
    (True, 3.133, gens.Mid(0.00119, 0.685, 0.875, 0.0581, 0.00333, 0.0, -0.000232, True)),
    (False, 8.747, gens.Mid(0.0642, 0.329, 1.04, 0.0348, 0.0067, 0.0, 0.0, False)),
    (False, 0.551, gens.Mid(2.22e-05, 1.72, 0.917, 0.0226, 0.00112, 0.000118, 0.0, False)),
    (True, 0.852, gens.Mid(0.013, 0.878, 0.735, 0.0278, 0.00122, 0.0, 0.0, True)),
    (True, 1.404, gens.Mid(0.013, 0.961, 0.701, 0.0298, 0.000177, 0.00169, 0.0, True)),
    (True, 0.777, gens.Mid(0.143, 0.936, 0.714, 0.0553, 0.00175, 0.0, 0.0, True)),
    (True, 0.451, gens.Mid(0.0289, 1.16, 0.935, 0.0323, 0.00129, 0.0, 0.0, True)),
]


@st.composite
def near_sonic(draw, num=st.integers(20, 200)):
    """Inputs whose solutions come close to the sonic point by themselves."""
    use_E_r, end, m = draw(st.sampled_from(NEAR_SONIC))
    m = m._replace(**{
        name: sig(getattr(m, name) * draw(flt(0.999, 1.001)), 6)
        for name in ("γ", "v_rin_on_c_s", "η_O")
    })
    return Case(
        mode="full", m=m, use_E_r=use_E_r,
        k=sig(end / np.degrees(m.c_s_on_v_k) * draw(flt(1.05, 2)), 6),
        num_angles=draw(num), rtol=draw(st.sampled_from([1e-6, 1e-7])),
        taylor_div=draw(st.sampled_from([300, 1000])), use_taylor_jump=True,
    )


def make_input(c, **kw):
    stop = float(np.degrees(c.m.c_s_on_v_k) * c.k)
    args = dict(
        use_E_r=c.use_E_r and c.mode != "hydrostatic",
        stop=stop, num_angles=c.num_angles, relative_tolerance=c.rtol,
        absolute_tolerance=1e-10, taylor_stop_angle=stop / c.taylor_div,
        max_steps=1000, use_taylor_jump=c.use_taylor_jump,
    )
    args.update(kw)
    return gens.soln_input(c.m, **args)


def initial(mode, inp):
    return {
        "full": define_conditions,
        "hydrostatic": hydrostatic.hydrostatic_define_conditions,
        "mod_hydro": mod_hydro.mod_hydro_define_conditions,
    }[mode](inp)


def solve(mode, inp, **kw):
    ic = initial(mode, inp)
    if mode == "full":
        return full.solution(inp, ic, **kw)
    if mode == "hydrostatic":
        return hydrostatic.solution(inp, ic, **kw)
    return mod_hydro.solution(inp, ic, use_E_r=inp.use_E_r, **kw)


def rhs_of(mode, inp, **kw):
    """The derivatives of an input, with arguments taken from the input."""
    ic = initial(mode, inp)
    args = dict(
        a_0=rounded_as(ic.a_0, inp.v_a_on_c_s ** 2),
        norm_kepler_sq=rounded_as(ic.norm_kepler_sq, inp.c_s_on_v_k ** -2),
        init_con=ic.init_con, η_derivs=inp.η_derivs, store_internal=False,
    )
    if mode == "full":
        system, _ = full.ode_system(
            γ=inp.γ, use_E_r=inp.use_E_r, **args, **kw
        )
    elif mode == "hydrostatic":
        system, _ = hydrostatic.ode_system(no_v_deriv=False, **args, **kw)
    else:
        system, _ = mod_hydro.ode_system(use_E_r=inp.use_E_r, **args, **kw)

    def rhs(θ, p):
        d = np.zeros(11)
        with np.errstate(all="ignore"):
            flag = system(θ, np.array(p, dtype=float), d)
        return flag, d
    return rhs


def rounded_as(theirs, ours):
    """Cancellation amplifies the last bit, so use theirs where they agree."""
    return theirs if np.isclose(theirs, ours, rtol=1e-13, atol=0) else ours


class Budget(Exception):
    """The reference would take too long, or left the domain."""


def reference(rhs, θ_0, p_0, θ_1, rtol=1e-8, atol=1e-11, calls=3000):
    """State at θ_1 of the solution through (θ_0, p_0)."""
    left = [calls]

    def f(θ, p):
        left[0] -= 1
        flag, d = rhs(θ, p)
        if left[0] < 0 or flag or not np.all(np.isfinite(d)):
            raise Budget
        return d

    out = solve_ivp(f, (θ_0, θ_1), p_0, method="Radau", rtol=rtol, atol=atol)
    if out.status != 0:
        raise Budget
    return out.y[:, -1]


def diffusivity_defect(rows, η_derivs):
    """
    How far diffusivities are from the midplane's times B²/ρ (or, if they are
    to be constant, from the midplane's), relative to their size
    """
    rows = np.asarray(rows, dtype=float)
    η = rows[:, [phys.EO, phys.EA, phys.EH]]
    if not len(rows):
        return 0.0
    if not η_derivs:
        return float(np.max(np.abs(η - η[0])))
    B2 = np.sum(rows[:, [phys.BR, phys.BP, phys.BT]] ** 2, axis=1)
    scale = B2 / rows[:, phys.RHO]
    want = η[0] * (scale / scale[0])[:, None]
    size = np.max(np.abs(η[0])) * max(1, np.max(np.abs(scale)))
    return float(np.max(np.abs(η - want)) / size) if size else 0.0
