# -*- coding: utf-8 -*-
"""C05: initial conditions are the midplane of the disc described."""
import copy

import numpy as np
from hypothesis import strategies as st

import gens
import phys
from engine import relation, fail

from disc_solver.solve.config import define_conditions
from disc_solver.solve.hydrostatic import hydrostatic_define_conditions
from disc_solver.solve.mod_hydro import mod_hydro_define_conditions
from disc_solver.solve.utils import SolverError

ASSUMPTIONS = [
    "midplane: B_r = B_φ = v_θ = 0, unit ρ and B_θ, sound speed 1",
]
MODES = {
    "full": define_conditions, "hydrostatic": hydrostatic_define_conditions,
    "mod_hydro": mod_hydro_define_conditions,
}
TOL = 1e-9

# hot discs have no rotation that balances them
inputs = st.one_of(
    gens.any_midplanes(), gens.any_midplanes(), st.builds(
        lambda m, c: m._replace(c_s_on_v_k=c), gens.any_midplanes(),
        gens.mag(-0.6, 0.3),
    ),
)
grids = st.tuples(
    st.one_of(st.just(0.0), gens.flt(0, 3)), gens.flt(0.01, 60),
    st.integers(1, 300),
)


def typed(inp):
    """With the float type a configuration would give."""
    for name in (
        "start", "stop", "γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k",
        "η_O", "η_A", "η_H",
    ):
        setattr(inp, name, np.float64(getattr(inp, name)))
    return inp


def force_terms(m, ic, mode, γ):
    """Radial terms, and the derivatives at the midplane."""
    p = ic.init_con.copy()
    d = np.zeros(11)
    m_ = m.v_a_on_c_s ** 2
    # azimuthal balance fixes B_φ'
    lo, hi = (sum(phys.residuals(0.0, p, d, γ, m_, 1.0, dB)[
        "azimuthal momentum"
    ]) for dB in (0.0, 1.0))
    dB_φ = -lo / (hi - lo)
    d[phys.BR] = phys.dB_r_from_E_φ(0.0, p, dB_φ, γ)
    d[phys.BP] = dB_φ
    K2 = m.c_s_on_v_k ** -2
    terms = list(phys.residuals(0.0, p, d, γ, m_, K2, dB_φ)[
        "radial momentum"
    ])
    if mode == "mod_hydro":
        # v_φ² about the Keplerian velocity
        terms[3:4] = [-2 * np.sqrt(K2) * p[phys.VP], K2]
    return terms, d


@relation(
    st.tuples(
        st.sampled_from(sorted(MODES)), inputs, st.booleans(), grids,
    ), quick=600, thorough=20000,
    rule="γ, Hall and ambipolar non-zero, real v_φ",
)
def midplane(case):
    mode, m, use_E_r, (start, stop, num) = case
    γ = m.γ if mode == "full" else 0.0
    disc, size = gens.discriminant(m._replace(γ=γ))
    if mode != "mod_hydro" and abs(disc) < 1e-9 * size:
        return None
    inp = typed(gens.soln_input(
        m, use_E_r=use_E_r, start=start, stop=stop, num_angles=num,
    ))
    before = copy.deepcopy(inp)
    try:
        ic = MODES[mode](inp)
    except SolverError:
        if mode != "mod_hydro" and disc < 0:
            return "refused"
        fail("input with a midplane was refused")
    if mode != "mod_hydro" and disc < 0:
        fail("accepted though v_φ is complex: {}".format(ic.init_con))
    if inp != before:
        fail("input changed")
    c = ic.init_con
    expected = {
        phys.BR: 0, phys.BP: 0, phys.BT: 1, phys.VR: -m.v_rin_on_c_s,
        phys.VT: 0, phys.RHO: 1, phys.EO: m.η_O, phys.EA: m.η_A,
        phys.EH: m.η_H,
    }
    for i, value in expected.items():
        if c[i] != value:
            fail("{} starts as {!r}, not {!r}".format(
                phys.NAMES[i], c[i], value
            ))
    for got, want, name in (
        (ic.γ, γ, "γ"), (ic.a_0, m.v_a_on_c_s ** 2, "a_0"),
        (ic.norm_kepler_sq, m.c_s_on_v_k ** -2, "v_k²"),
        (ic.η_O, m.η_O, "η_O"), (ic.η_A, m.η_A, "η_A"),
        (ic.η_H, m.η_H, "η_H"),
    ):
        if not np.isclose(got, want, rtol=1e-13, atol=0):
            fail("{} is {!r}, not {!r}".format(name, got, want))
    terms, d = force_terms(m, ic, mode, γ)
    scale = sum(abs(t) for t in terms) + abs(
        m.v_rin_on_c_s * m.η_H / (m.η_O + m.η_A) * c[phys.VP]
    )
    if not abs(sum(terms)) <= TOL * scale:
        fail("radial force {:.3e} of {:.3e} left at the midplane".format(
            sum(terms), scale
        ))
    if mode != "mod_hydro":
        # the faster of the two balanced rotations: the force on a faster
        # disc is outwards
        other = phys.VP
        faster = define_faster(m, ic, mode, γ, other)
        if not faster < 0:
            fail("v_φ = {} is the slower solution".format(c[phys.VP]))
    if use_E_r:
        E = phys.e_field(0.0, c, d[phys.BR], d[phys.BP], γ)[0]
        scale = abs(c[phys.VP]) + (
            abs(d[phys.BR]) + abs(d[phys.BP]) + 1
        ) * (m.η_O + m.η_A + abs(m.η_H))
        if not abs(c[phys.X7] - E) <= TOL * scale:
            fail("E_r starts as {!r}, Ohm's law gives {!r}".format(
                c[phys.X7], E
            ))
    elif not abs(c[phys.X7] - d[phys.BP]) <= TOL * abs(d[phys.BP]):
        fail("B_φ' starts as {!r}, not {!r}".format(c[phys.X7], d[phys.BP]))
    check_grid(ic.angles, start, stop, num)
    return [mode, "E_r" if use_E_r else "B_φ'"] if (
        gens.generic_mid(m)
    ) else None


def define_faster(m, ic, mode, γ, index):
    """Derivative of the radial residual with v_φ, by a central difference."""
    out = []
    for sign in (1, -1):
        other = copy.copy(ic)
        other.init_con = ic.init_con.copy()
        other.init_con[index] += sign
        out.append(sum(force_terms(m, other, mode, γ)[0]))
    return (out[0] - out[1]) / 2


def check_grid(angles, start, stop, num):
    if len(angles) != num:
        fail("{} angles instead of {}".format(len(angles), num))
    expected = [
        (start + (stop - start) * (i / (num - 1) if num > 1 else 0))
        * np.pi / 180 for i in range(num)
    ]
    if not np.allclose(angles, expected, rtol=1e-13, atol=1e-15):
        fail("grid is {}".format(angles))


@relation(
    st.tuples(
        st.sampled_from(sorted(MODES)), gens.any_midplanes(), st.booleans(),
        st.sampled_from([
            "η_P=0", "c_s=0", "nan γ", "nan η_O", "nan v_r", "nan v_a",
        ]),
    ), quick=150, thorough=3000, rule="input without a finite midplane",
)
def never_nan(case):
    """What cannot be started from is refused."""
    mode, m, use_E_r, broken = case
    inp = typed(gens.soln_input(m, use_E_r=use_E_r))
    if broken == "η_P=0":
        inp.η_O = inp.η_A = np.float64(0)
    elif broken == "c_s=0":
        inp.c_s_on_v_k = np.float64(0)
    elif broken == "nan γ":
        inp.γ = np.float64("nan")
    elif broken == "nan η_O":
        inp.η_O = np.float64("nan")
    elif broken == "nan v_r":
        inp.v_rin_on_c_s = np.float64("nan")
    else:
        inp.v_a_on_c_s = np.float64("nan")
    try:
        ic = MODES[mode](inp)
    except SolverError:
        return broken
    if np.any(np.isnan(ic.init_con)):
        fail("{}: started from {}".format(broken, ic.init_con))
    return None
