# -*- coding: utf-8 -*-
"""C23: currents, fields and residuals are those of the state."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

import figures
import phys
import profiles
import solving
from engine import relation, fail

from disc_solver.file_format import InternalData

ASSUMPTIONS = [
    "states and derivatives are generated at will, so that no residual "
    "vanishes by itself",
    "equations stated independently from the vector form in phys.py",
]
TOL = 1e-9

Case = namedtuple("Case", ["profile", "seed", "window", "zero", "entry"])


def cases(entry=st.just("plot")):
    return st.builds(
        Case, profiles.profiles(
            rows=st.integers(2, 12), use_E_r=st.just(False)),
        st.integers(0, 2 ** 20), figures.windows,
        st.sampled_from([None, None, phys.BR, phys.BP, phys.VR, phys.EH]),
        entry,
    )


def data(case):
    """(solution, angles, states, derivatives)"""
    soln = profiles.build(case.profile)
    rng = np.random.default_rng(case.seed)
    rows = rng.integers(2, 12)
    angles = np.sort(rng.uniform(0, 1.3, rows))
    p = rng.standard_normal((rows, 11))
    for i in (phys.BT, phys.RHO, phys.VT, phys.EO, phys.EA):
        p[:, i] = np.exp(p[:, i])
    p[:, phys.VP] += 1 / case.profile.m.c_s_on_v_k
    if case.zero is not None:
        p[:, case.zero] = 0
    d = rng.standard_normal((rows, 11)) * 3
    d[:, phys.BP] = p[:, phys.X7]
    soln.internal_data = InternalData(
        derivs=d.copy(), params=p.copy(), angles=angles.copy(),
    )
    return soln, angles, p, d


def expected(m, angles, p, d, dB_φ):
    """{name: (residual, size of what was summed)}"""
    with np.errstate(all="ignore"):
        out = {}
        for name, terms in phys.residuals(
            angles, p.T, d.T, m.γ, m.v_a_on_c_s ** 2, m.c_s_on_v_k ** -2,
            dB_φ
        ).items():
            _, scale = phys.balance(terms)
            total = sum(t for t in terms if not isinstance(t, phys.Scale))
            out[name] = (total, scale)
    return out


NAMES = {
    "continuity": "continuity", "solenoid": "solenoidal field",
    "radial momentum": "radial momentum",
    "azimuthal momentum": "azimuthal momentum",
    "polar momentum": "polar momentum",
    "polar induction": "toroidal electric field",
    "E_φ": "toroidal electric field",
}


def expect_curve(what, got, angles, want, scale, window, sign=False):
    x, y = got
    rows = figures.inside(angles, window)
    if x.shape != (rows.sum(),) or y.shape != x.shape:
        fail(f"{what}: {x.shape} points drawn of {rows.sum()}", key="rows")
    if np.any(np.abs(x - np.degrees(angles[rows])) > 1e-9):
        fail(f"{what}: angles are {x!r}", key="angles")
    want, scale = want[rows], scale[rows]
    off = np.abs(y - want)
    if sign:
        # which side of the equation is subtracted is a convention
        off = min((off, np.abs(y + want)), key=np.sum)
    bad = ~(off <= TOL * scale)
    if np.any(bad):
        i = int(np.argmax(bad))
        fail(f"{what} is {y[i]!r}, not {want[i]!r}, at angle {x[i]!r}",
             key=what)


@relation(
    cases(), quick=150, thorough=4000, cost=3,
    rule="some rows are within the range of angles drawn",
)
def residuals_of_states(case):
    """Each equation's residual, the fields and currents, row by row."""
    from disc_solver.analyse.validate_plot import generate_validate_plot
    soln, angles, p, d = data(case)
    if not figures.inside(angles, case.window).any():
        return None
    m = case.profile.m
    want = expected(m, angles, p, d, d[:, phys.BP])
    run = figures.make_run([soln])
    with figures.drawn(
        generate_validate_plot, run, "0", start=case.window[0],
        stop=case.window[1],
    ) as fig:
        got = [figures.lines(ax) for ax in fig.axes]
    for name, ours in NAMES.items():
        total, scale = want[ours]
        expect_curve(
            name, got[0][name], angles, total, scale, case.window,
            sign=name == "polar induction",
        )
    J = phys.currents(angles, p.T, d[:, phys.BR], d[:, phys.BP], m.γ)
    E = phys.e_field(angles, p.T, d[:, phys.BR], d[:, phys.BP], m.γ)
    v, B = phys.fields(p.T)
    vxB = phys.cross(v, B)
    η = p[:, phys.EO] + p[:, phys.EA] + np.abs(p[:, phys.EH])
    size = sum(
        np.abs(v[i] * B[j]) for i in range(3) for j in range(3)
    ) + η * sum(np.abs(j) for j in J)
    sizeJ = (np.abs(B[0]) + np.abs(B[1]) + np.abs(B[2])) * (
        1 + np.abs(np.tan(angles))
    ) + np.abs(d[:, phys.BR]) + np.abs(d[:, phys.BP])
    for i, name in enumerate("rθφ"):
        if i < 2:
            expect_curve(
                f"E_{name}", got[1][f"$E_{name}$"], angles, E[i], size,
                case.window)
        expect_curve(
            f"E_{name} of the fluid", got[2][f"$E_{name}'$"], angles,
            E[i] - vxB[i], size, case.window)
        expect_curve(
            f"J_{name}", got[3][f"$J_{name}$"], angles, J[i], sizeJ,
            case.window)
    return [f"zero {case.zero}", "window" if case.window != (0, 90) else ""]


@relation(
    cases(), quick=100, thorough=3000, cost=2,
    rule="some rows are within the range of angles drawn",
)
def hydrostatic_residuals(case):
    """Residuals of the equations of the hydrostatic approximation."""
    from disc_solver.analyse.hydro_check_plot import (
        generate_hydro_check_plot
    )
    soln, angles, p, d = data(case)
    if not figures.inside(angles, case.window).any() or case.zero == phys.VR:
        return None
    m = case.profile.m
    a_0 = m.v_a_on_c_s ** 2
    κ = 1 / 4 - m.γ
    Br, Bp, Bt, vr, vp, _, ρ = (p[:, i] for i in range(7))
    dBp = d[:, phys.BP]
    run = figures.make_run([soln])
    with figures.drawn(
        generate_hydro_check_plot, run, "0", start=case.window[0],
        stop=case.window[1],
    ) as fig:
        got = figures.lines(fig.axes[0])
    # angular momentum lost by the infalling disc is that taken by the field
    terms = (
        vr * vp / 2, -a_0 / ρ * Bt * dBp, a_0 / ρ * κ * Br * Bp,
        a_0 / ρ * np.tan(angles) * Bt * Bp,
    )
    expect_curve(
        "azimuthal momentum", got["azimuthal momentum"], angles, sum(terms),
        sum(np.abs(t) for t in terms), case.window)
    share = 2 * a_0 * Bt * dBp / (ρ * vr * vp)
    expect_curve(
        "approximate momenta", got["approximate momenta"], angles, 1 - share,
        1 + np.abs(share), case.window)
    return True


@relation(
    cases(), quick=150, thorough=4000, cost=3,
    rule="some rows are within the range of angles drawn",
)
def currents_and_fields(case):
    """J and E of a stored solution are Ampère's and Ohm's laws'."""
    from disc_solver.analyse.j_e_plot import generate_plot
    soln, angles, p, _ = data(case)
    soln.internal_data = None
    soln.angles, soln.solution = angles.copy(), p.copy()
    if not figures.inside(angles, case.window).any():
        return None
    γ = case.profile.m.γ
    run = figures.make_run([soln], 0)
    with figures.drawn(
        generate_plot, run, "final", start=case.window[0],
        stop=case.window[1],
    ) as fig:
        got = [figures.curves(ax)[0] for ax in fig.axes]
    dBr = phys.dB_r_from_E_φ(angles, p.T, p[:, phys.X7], γ)
    J = phys.currents(angles, p.T, dBr, p[:, phys.X7], γ)
    E = phys.e_field(angles, p.T, dBr, p[:, phys.X7], γ)
    v, B = phys.fields(p.T)
    η = p[:, phys.EO] + p[:, phys.EA] + np.abs(p[:, phys.EH])
    vB = sum(np.abs(v[i] * B[j]) for i in range(3) for j in range(3))
    sizeJ = (np.abs(B[0]) + np.abs(B[1]) + np.abs(B[2])) * (
        1 + np.abs(np.tan(angles))
    ) + np.abs(dBr) + np.abs(p[:, phys.X7]) + vB / η
    for i, name in enumerate("rθφ"):
        expect_curve(f"J_{name}", got[i], angles, J[i], sizeJ, case.window)
        expect_curve(
            f"E_{name}", got[3 + i], angles, E[i], vB + η * sizeJ,
            case.window)
    return True


@relation(
    solving.cases(jump=st.just(True)), quick=10, thorough=200, cost=30,
    rule="the solution has rows past the start",
)
def solved(case):
    """Residuals of a solution found vanish, where they are looked at."""
    from disc_solver.analyse.validate_plot import generate_validate_plot
    from disc_solver.utils import DiscSolverError
    case = case._replace(use_E_r=False)
    inp = solving.make_input(case)
    try:
        soln = solving.solve("full", inp, store_internal=True)
    except DiscSolverError:
        return None
    angles = np.asarray(soln.internal_data.angles)
    if soln.flag < 0 or len(angles) < 3:
        return None
    p = np.asarray(soln.internal_data.params)
    d = np.asarray(soln.internal_data.derivs)
    want = expected(case.m, angles, p, d, p[:, phys.X7])
    run = figures.make_run([soln])
    with figures.drawn(generate_validate_plot, run, "0") as fig:
        got = figures.lines(fig.axes[0])
    good = figures.inside(angles, (0, 90))
    for name, ours in NAMES.items():
        scale = want[ours][1][good]
        off = np.abs(got[name][1]) / scale
        if not np.all((off < 1e-6) | ~np.isfinite(scale)):
            fail(f"{name} of a solution is {np.nanmax(off)!r} of its terms",
                 key=name)
    return True


@relation(
    cases(st.sampled_from(["validate", "hydro", "j_e", "E_r"])), quick=10,
    thorough=50, rule="every case",
)
def refusals(case):
    """Residuals of what is not stored are refused."""
    from disc_solver.analyse import (
        hydro_check_plot, j_e_plot, validate_plot,
    )
    from disc_solver.analyse.utils import AnalysisError
    soln, _, _, _ = data(case)
    func = {
        "validate": validate_plot.generate_validate_plot,
        "hydro": hydro_check_plot.generate_hydro_check_plot,
        "j_e": j_e_plot.generate_plot,
        "E_r": validate_plot.generate_validate_plot,
    }[case.entry]
    use_E_r = case.entry in ("E_r", "j_e")
    if not use_E_r:
        soln.internal_data = None
    run = figures.make_run([soln], use_E_r=use_E_r)
    try:
        with figures.drawn(func, run, "0"):
            pass
    except AnalysisError:
        return [case.entry]
    fail(f"{case.entry}: drawn without what it needs", key="refused")
