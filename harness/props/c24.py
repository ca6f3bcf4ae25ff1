# -*- coding: utf-8 -*-
"""C24: the Jacobians are the derivatives of the right-hand side."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

import figures
import gens
import phys
import profiles
from engine import relation, fail

from disc_solver.solve.solution import ode_system

ASSUMPTIONS = [
    "states of order one, away from the sonic point, so that differences at "
    "the step used resolve the derivatives",
    "derivatives of the right-hand side itself, which C01 and C02 decide, by "
    "complex steps",
]

Case = namedtuple("Case", [
    "profile", "seed", "rows", "eps", "window", "critical", "local", "zeros",
])
cases = st.builds(
    Case, profiles.profiles(rows=st.just(2)), st.integers(0, 2 ** 20),
    st.integers(1, 6), st.sampled_from([1e-4, 1e-5, 1e-6]),
    figures.windows, st.sampled_from(["slow", "sonic", "alfven", "fast"]),
    st.booleans(), st.sampled_from([(), (), (phys.BP,), (phys.EH,)]),
)


def make(case):
    """A solution of rows of order one."""
    c = case.profile
    c = c._replace(
        m=c.m._replace(
            c_s_on_v_k=min(max(c.m.c_s_on_v_k, 0.05), 0.5),
            v_a_on_c_s=min(max(c.m.v_a_on_c_s, 0.2), 2.0),
        ), extras=False, use_E_r=case.profile.use_E_r,
    )
    soln = profiles.build(c)
    rng = np.random.default_rng(case.seed)
    rows = case.rows
    p = rng.uniform(0.3, 2, (rows, 11))
    for i in (phys.BR, phys.BP, phys.VR, phys.X7, phys.EH):
        p[:, i] *= rng.choice([-1, 1], rows)
    p[:, phys.VP] += 1 / c.m.c_s_on_v_k - 1
    near = np.abs(p[:, phys.VT] - 1) < 0.1
    p[near, phys.VT] += 0.25
    p[:, case.zeros] = 0
    soln.solution = p
    soln.angles = np.sort(rng.uniform(0.05, 1.2, rows))
    init = soln.initial_conditions.init_con
    init[[phys.EO, phys.EA, phys.EH]] = rng.uniform(0.3, 1, 3)
    return soln


def system(soln, **kw):
    cons, inp = soln.initial_conditions, soln.solution_input
    return ode_system(
        γ=cons.γ, a_0=cons.a_0, norm_kepler_sq=cons.norm_kepler_sq,
        init_con=cons.init_con, η_derivs=inp.η_derivs, use_E_r=inp.use_E_r,
        store_internal=False, **kw
    )[0]


def reference(soln):
    """Derivatives of the right-hand side, by complex steps."""
    rhs = system(soln, derivs_post_solution=True)
    θ, p = soln.angles, soln.solution
    J = np.zeros((len(θ), 11, 11))
    h = 1e-30
    for i in range(11):
        q = p.astype(complex)
        q[:, i] += 1j * h
        d = np.zeros(q.shape, dtype=complex)
        rhs(θ, q, d)
        J[:, :, i] = d.imag / h
    return J


def labels(case):
    return [
        "E_r" if case.profile.use_E_r else "B_φ'",
        "η varying" if case.profile.m.η_derivs else "η constant",
    ]


@relation(
    cases, quick=150, thorough=8000, cost=2,
    rule="no component of the state vanishes",
)
def jacobians(case):
    """All columns, of all rows."""
    from disc_solver.analyse.compute_jacobian import (
        compute_jacobian_from_solution,
    )
    soln = make(case)
    before = soln.solution.copy()
    got = np.asarray(
        compute_jacobian_from_solution(soln, eps=case.eps), dtype=float)
    if not np.array_equal(soln.solution, before):
        fail("the solution was changed", key="changed")
    want = reference(soln)
    if got.shape != want.shape:
        fail(f"shape {got.shape} for {case.rows} rows", key="shape")
    # what the differences resolve: each equation has terms of this size
    size = np.abs(want).max(axis=2, keepdims=True) + 1
    off = np.abs(got - want) / size
    if not np.all(off <= 1e-3):
        k, i, j = np.unravel_index(np.nanargmax(off), off.shape)
        fail(f"d({phys.NAMES[i]}')/d({phys.NAMES[j]}) is {got[k, i, j]!r}, "
             f"not {want[k, i, j]!r}, row {k}", key="value")
    # where the step is small enough, with more digits
    if case.eps <= 1e-5 and not np.all(off <= 1e-5):
        k, i, j = np.unravel_index(np.nanargmax(off), off.shape)
        fail(f"d({phys.NAMES[i]}')/d({phys.NAMES[j]}) is {got[k, i, j]!r}, "
             f"not {want[k, i, j]!r}, row {k}", key="value")
    return labels(case) if not case.zeros else None


@relation(
    cases, quick=100, thorough=5000, cost=1,
    rule="more than one row",
)
def all_rows_at_once(case):
    """Derivatives of many rows are those of each row integrated."""
    soln = make(case)
    θ, p = soln.angles, soln.solution
    got = np.zeros(p.shape)
    if system(soln, derivs_post_solution=True)(θ, p, got) != 0:
        fail("rows of a solution are rejected", key="rejected")
    one = system(soln)
    for k in range(case.rows):
        want = np.zeros(11)
        if one(θ[k], p[k].copy(), want) != 0:
            fail("row is rejected", key="rejected")
        scale = np.abs(want).max()
        if not np.all(np.abs(got[k] - want) <= 1e-11 * scale):
            fail(f"derivatives of row {k} are {got[k]!r}, not {want!r}",
                 key="rows")
    return case.rows > 1 or None


def spread(x_y, angles, sign):
    """{row: values drawn there}"""
    out = []
    x, y = x_y
    for at, value in zip(x, y):
        k = int(np.argmin(np.abs(angles - at)))
        if abs(angles[k] - at) > 1e-9:
            fail(f"drawn at {at!r}, there is no such angle", key="angle")
        out.append((k, sign * value))
    return out


@relation(
    cases, quick=40, thorough=1500, cost=8,
    rule="some rows within the range drawn",
)
def eigenvalues(case):
    """Eigenvalues drawn are those of the Jacobian at each angle."""
    from disc_solver.analyse.compute_jacobian import (
        compute_jacobian_from_solution, plot_jacobian_eigenvalues,
    )
    soln = make(case)
    J = np.asarray(
        compute_jacobian_from_solution(soln, eps=case.eps), dtype=float)
    angles = np.degrees(soln.angles)
    inside = figures.inside(soln.angles, case.window)
    run = figures.make_run([soln], use_E_r=case.profile.use_E_r)
    with figures.drawn(
        plot_jacobian_eigenvalues, run, "0", eps=case.eps,
        start=case.window[0], stop=case.window[1],
    ) as fig:
        drawn = [
            (line.get_marker(), xy) for line, xy in zip(
                fig.axes[0].get_lines(), figures.curves(fig.axes[0]))
        ]
    real, imag = [], []
    for marker, xy in drawn:
        if len(xy[0]) == 0:
            continue
        if marker in ("^", "v"):
            real += spread(xy, angles, 1 if marker == "^" else -1)
        elif marker in ("2", "1"):
            imag += spread(xy, angles, 1 if marker == "2" else -1)
    for k in range(case.rows):
        λ = np.linalg.eigvals(J[k]) if inside[k] else np.zeros(0)
        for values, want, what in (
            (real, λ.real, "real"), (imag, λ.imag, "imaginary"),
        ):
            got = np.sort([v for i, v in values if i == k])
            want = np.sort(want)
            # multiple eigenvalues are known to a root of the rounding
            tol = 1e-5 * (1 + np.abs(J[k]).max())
            if len(got) != len(want) or not np.all(
                np.abs(got - want) <= tol
            ):
                fail(f"{what} parts of eigenvalues at {angles[k]!r} are "
                     f"{got!r}, not {want!r}", key="eigenvalues")
    return labels(case) if inside.any() else None


@relation(
    cases, quick=60, thorough=2500, cost=3,
    rule="Jacobians with independent eigenvectors",
)
def eigenvectors(case):
    """Eigenvectors span what they are said to."""
    from disc_solver.analyse.compute_jacobian import (
        compute_eigenvalues, compute_eigenvalues_and_eigenvectors,
        compute_jacobian_from_solution, compute_norm,
    )
    soln = make(case)
    J = np.asarray(
        compute_jacobian_from_solution(soln, eps=case.eps), dtype=float)
    for one in J:
        λ, vecs = compute_eigenvalues_and_eigenvectors(one)
        size = np.abs(one).max()
        if not np.all(np.abs(one @ vecs - vecs * λ) <= 1e-10 * size):
            fail(f"not eigenvectors of {one!r}: {λ!r}, {vecs!r}",
                 key="vectors")
        if not np.allclose(compute_norm(vecs, axis=0), 1, rtol=1e-9):
            fail("eigenvectors are not of length one", key="norm")
        alone = compute_eigenvalues(one)
        if not np.allclose(np.sort_complex(alone), np.sort_complex(λ),
                           rtol=0, atol=1e-5 * (1 + size)):
            fail(f"eigenvalues {alone!r}, with vectors {λ!r}", key="values")
    bad = J[0].copy()
    bad[case.seed % 11, case.seed % 7] = np.nan
    λ, vecs = compute_eigenvalues_and_eigenvectors(bad)
    if not (np.isnan(λ).all() and np.isnan(vecs).all() and np.isnan(
        compute_eigenvalues(bad)
    ).all() and λ.shape == (11,) and vecs.shape == (11, 11)):
        fail("eigenvalues of what is not known", key="unknown")
    return labels(case)


@relation(
    cases, quick=60, thorough=1500, cost=6,
    rule="Jacobians with well separated eigenvectors, more than one row",
)
def coefficients(case):
    """The difference from the critical point, in eigenvectors."""
    from disc_solver.analyse.compute_jacobian import (
        compute_eigenvalues_and_eigenvectors, compute_jacobian_from_solution,
        plot_eigenvector_coef_around_sonic_point,
    )
    from disc_solver.critical_points import get_critical_point_indices
    soln = make(case)
    J = np.asarray(
        compute_jacobian_from_solution(soln, eps=case.eps), dtype=float)
    vecs = [compute_eigenvalues_and_eigenvectors(j)[1] for j in J]
    if max(np.linalg.cond(v) for v in vecs) > 1e6:
        return None
    which = ("slow", "sonic", "alfven", "fast").index(case.critical)
    index = get_critical_point_indices(soln)[which]
    if index is None:
        index = case.rows - 1
    run = figures.make_run([soln], use_E_r=case.profile.use_E_r)
    with figures.drawn(
        plot_eigenvector_coef_around_sonic_point, run, "0", eps=case.eps,
        start=case.window[0], stop=case.window[1],
        local_eigvecs=case.local, critical_point=case.critical,
    ) as fig:
        drawn = figures.lines(fig.axes[0])
    inside = figures.inside(soln.angles, case.window)
    away = soln.solution - soln.solution[index]
    want = np.array([
        np.linalg.solve(vecs[k if case.local else index], away[k]).real
        for k in range(case.rows)
    ])[inside]
    mark = drawn.pop(case.critical.capitalize() + " point")[0][0]
    if abs(mark - np.degrees(soln.angles[index])) > 1e-9:
        fail(f"the {case.critical} point is drawn at {mark!r}", key="point")
    if len(drawn) != 11:
        fail(f"{len(drawn)} coefficients", key="number")
    size = 1e-7 * (1 + np.abs(want).max(initial=0))
    for i in range(11):
        x, y = drawn[str(i)]
        if x.shape != (inside.sum(),) or np.any(
            np.abs(x - np.degrees(soln.angles[inside])) > 1e-9
        ):
            fail(f"coefficients are drawn at {x!r}", key="angle")
        if not np.all(np.abs(y - want[:, i]) <= size):
            fail(f"coefficient {i} is {y!r}, not {want[:, i]!r}",
                 key="coefficient")
    return case.rows > 1 and inside.any() and [
        "local" if case.local else "global"] or None
