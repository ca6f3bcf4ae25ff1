# -*- coding: utf-8 -*-
"""C04: the hydrostatic modes keep the equations they claim to keep."""
import numpy as np
from hypothesis import strategies as st
from root_solver import CubicTracker

import gens
import phys
from engine import relation, fail

from disc_solver.solve import hydrostatic, mod_hydro

ASSUMPTIONS = [
    "v_r', v_φ' and B_φ'' of the modes that integrate them are outside the "
    "property (the approximation the code makes for them is undocumented)",
]
TOL = 1e-10
KEY = "mod-hydro-E_r-signs"
MODES = ("hydrostatic", "mod_hydro")
KEPT = ("solenoidal field", "polar momentum", "toroidal electric field")


@st.composite
def still_states(draw, max_θ=1.3, min_ρ=0.0):
    """Without vertical velocity and self-similarity index 0."""
    s = draw(gens.states(max_θ=max_θ))
    p = list(s.p)
    p[phys.RHO] = max(p[phys.RHO], min_ρ)
    p[phys.VT] = 0.0
    return s._replace(γ=0.0, p=tuple(p))


def generic(s):
    p = s.p
    return s.θ > 0 and all(p[i] != 0 for i in (
        phys.BR, phys.BP, phys.VR, phys.X7, phys.EH, phys.EA,
    ))


def init_con(s):
    p = np.array(s.p)
    ic = p.copy()
    ic[phys.EO] *= 0.75
    ic[phys.EA] *= 1.5
    ic[phys.EH] *= 2.25
    return ic


def system(mode, s, **kw):
    args = dict(
        a_0=s.a_0, norm_kepler_sq=s.K2, init_con=init_con(s),
        store_internal=False, η_derivs=s.η_derivs,
    )
    args.update(kw)
    return {
        "hydrostatic": hydrostatic, "mod_hydro": mod_hydro,
    }[mode].ode_system(**args)


def v_φ_discriminant(s):
    """
    Of the quadratic for v_φ which the radial force balance becomes once B_φ'
    is eliminated by the azimuthal one, and B_r' by E_φ = 0.
    """
    values = []
    for v_φ in (-1.0, 0.0, 1.0):
        p = np.array(s.p)
        p[phys.VP] = v_φ
        d = np.zeros(11)
        lo, hi = (sum(
            phys.residuals(s.θ, p, d, 0, s.a_0, s.K2, dB)["azimuthal momentum"]
        ) for dB in (0.0, 1.0))
        dB_φ = -lo / (hi - lo)
        d[phys.BR] = phys.dB_r_from_E_φ(s.θ, p, dB_φ, 0)
        terms = phys.residuals(s.θ, p, d, 0, s.a_0, s.K2, dB_φ)[
            "radial momentum"
        ]
        values.append((sum(terms), sum(abs(t) for t in terms)))
    (lo, _), (mid, scale), (hi, _) = values
    a, b, c = (lo + hi) / 2 - mid, (hi - lo) / 2, mid
    return b ** 2 - 4 * a * c, b ** 2 + 4 * abs(a) * scale


def check_kept(s, p, d, names=KEPT):
    res = phys.residuals(s.θ, p, d, 0, s.a_0, s.K2, d[phys.BP])
    for name in names:
        total, scale = phys.balance(res[name])
        if not total <= TOL * scale:
            fail("{} violated: residual {:.3e}, terms of size {:.3e}".format(
                name, total, scale
            ))


def check_η(s, p, d):
    ic = init_con(s)
    if s.η_derivs:
        ds = phys.η_scale_deriv(p, d, d[phys.BP])
        B2 = sum(p[i] ** 2 for i in (phys.BR, phys.BP, phys.BT))
        scale = (2 * sum(
            abs(p[i] * d[i]) for i in (phys.BR, phys.BP, phys.BT)
        ) + B2 * abs(d[phys.RHO] / p[phys.RHO])) / p[phys.RHO]
    else:
        ds = scale = 0.0
    for i in (phys.EO, phys.EA, phys.EH):
        if not abs(d[i] - ds * ic[i]) <= TOL * scale * abs(ic[i]):
            fail("{}' is {!r}, expected {!r}".format(
                phys.NAMES[i], d[i], ds * ic[i]
            ))


@relation(
    st.tuples(st.sampled_from(MODES), still_states(), st.booleans()),
    quick=500, thorough=20000,
    rule="generic state with a real v_φ: all terms present",
)
def kept_equations(case):
    mode, s, no_v_deriv = case
    p = np.array(s.p)
    d = np.full(11, np.nan)
    kw = {}
    if mode == "hydrostatic":
        kw["no_v_deriv"] = no_v_deriv
        disc, scale = v_φ_discriminant(s)
        if abs(disc) < 1e-9 * scale:
            return None
    rhs, _ = system(mode, s, **kw)
    flag = rhs(s.θ, p, d)
    if mode == "hydrostatic":
        if (flag != 0) != (disc < 0):
            fail("flag {} with discriminant {}".format(flag, disc))
        if flag != 0:
            return "no real v_φ"
    elif flag != 0:
        fail("valid state rejected with flag {}".format(flag))
    if not np.array_equal(p, s.p):
        fail("state was changed to {}".format(p))
    if d[phys.BP] != p[phys.X7]:
        fail("B_φ' is {} but the state holds {}".format(
            d[phys.BP], p[phys.X7]
        ))
    check_kept(s, p, d)
    check_η(s, p, d)
    if d[phys.VT] != 0:
        fail("v_θ' is {}".format(d[phys.VT]))
    if mode == "hydrostatic" and no_v_deriv and not (
        d[phys.VR] == d[phys.VP] == 0
    ):
        fail("velocities change: {}".format(d[3:6]))
    return mode if generic(s) else None


def E_r_of_code(s, p, dB_φ):
    """
    The listed finding: the relation between E_r and B_φ' of mod_hydro, in
    which the Hall and ambipolar terms do not have the signs of Ohm's law.
    """
    B = np.array([p[phys.BR], p[phys.BP], p[phys.BT]])
    br, bp, bt = B / np.sqrt(sum(B ** 2))
    o, a, h = p[phys.EO], p[phys.EA], p[phys.EH]
    tan = np.tan(s.θ)
    C = (h * bt - a * br * bp) / (o + a * (1 - bp ** 2))
    Z5 = o + a * (1 - br ** 2) + C * (h * bt - a * br * bp)
    terms = (
        -Z5 * dB_φ, -B[2] * p[phys.VP], -B[2] * C * p[phys.VR],
        B[1] * tan * (o + a * (1 - br ** 2)), B[1] * h * bp / 4,
        B[1] * a * br * bt / 4, -B[1] * C * a * bp * br * tan,
        B[1] * C * a * bp * bt / 4, -B[1] * C * h * br / 4,
        -B[1] * C * h * bt * tan,
    )
    return sum(terms), sum(abs(t) for t in terms)


def radial_terms(s, p, d):
    """Radial force balance with v_φ² expanded about the Keplerian one."""
    v_k = np.sqrt(s.K2)
    terms = list(phys.residuals(
        s.θ, p, d, 0, s.a_0, s.K2, d[phys.BP]
    )["radial momentum"])
    # instead of -v_φ²
    terms[3:4] = [-2 * v_k * p[phys.VP], s.K2]
    return terms


def radial_polynomial(s, p, v_r):
    """
    (value, magnitude) of the cubic in v_r which the radial force balance
    becomes with v_φ from the azimuthal one, B_φ' from E_r and B_r' from
    E_φ = 0.
    """
    p = p.copy()
    p[phys.VR] = v_r
    d = np.zeros(11)

    def azimuthal(v_φ):
        p[phys.VP] = v_φ
        # E_r is affine in B_φ'
        at0 = E_r_of_code(s, p, 0.0)[0]
        slope = E_r_of_code(s, p, 1.0)[0] - at0
        dB_φ = (p[phys.X7] - at0) / slope
        return sum(phys.residuals(
            s.θ, p, d, 0, s.a_0, s.K2, dB_φ
        )["azimuthal momentum"]), dB_φ

    lo, hi = azimuthal(0.0)[0], azimuthal(1.0)[0]
    v_φ = -lo / (hi - lo)
    _, d[phys.BP] = azimuthal(v_φ)
    d[phys.BR] = phys.dB_r_from_E_φ(s.θ, p, d[phys.BP], 0)
    terms = radial_terms(s, p, d)
    p[phys.VP] = v_φ
    scale = sum(abs(t) for t in terms) + 1e-3 * sensitivity(s, p)
    return sum(terms) * (hi - lo), scale * abs(hi - lo)


def is_root(s, p):
    """
    Whether v_r solves the radial force balance: None where the root finder
    this depends on does not solve that cubic itself (it may hand back the real
    part of a complex root, and loses digits of small roots).
    """
    v_r = p[phys.VR]
    value, scale = radial_polynomial(s, p, v_r)
    if abs(value) <= 1e-5 * scale:
        return True
    # the points chosen matter for rounding only
    unit = abs(v_r) or 1.0
    xs = np.array([-1.5, -0.75, 0.5, 1.25])
    coeffs = np.linalg.solve(np.vander(xs, 4), [
        radial_polynomial(s, p, x * unit)[0] for x in xs
    ])
    if not np.all(np.isfinite(coeffs)):
        return None
    start = init_con(s)[phys.VR]
    root = CubicTracker(
        start_root=start, is_real=True, dtype=float,
    ).solve_root(list(coeffs / unit ** np.arange(3, -1, -1)))
    value, scale = radial_polynomial(s, p, root)
    return False if abs(value) <= 1e-7 * scale else None


@relation(
    still_states(max_θ=0.8, min_ρ=1e-3), quick=500, thorough=20000,
    rule="generic state; velocities and B_φ' follow from E_r",
)
def with_E_r(s):
    """Velocities are those of the two horizontal force balances."""
    p = np.array(s.p)
    d = np.full(11, np.nan)
    rhs, _ = system("mod_hydro", s, use_E_r=True)
    flag = rhs(s.θ, p, d)
    if flag != 0:
        fail("valid state rejected with flag {}".format(flag))
    others = [i for i in range(11) if i not in (phys.VR, phys.VP)]
    if not np.array_equal(p[others], np.array(s.p)[others]):
        fail("state was changed to {}".format(p))
    if not np.all(np.isfinite(d)) or not np.all(np.isfinite(p)):
        return None
    res = phys.residuals(s.θ, p, d, 0, s.a_0, s.K2, d[phys.BP])
    total, scale = phys.balance(res["azimuthal momentum"])
    if not total <= 1e-8 * (scale + sensitivity(s, p)):
        fail("azimuthal momentum violated by {:.3e} of {:.3e}".format(
            total, scale
        ))
    root = is_root(s, p)
    if root is None:
        return None
    if not root:
        total, scale = phys.balance(radial_terms(s, p, d))
        fail("radial momentum violated by {:.3e} of {:.3e}".format(
            total, scale
        ))
    check_kept(s, p, d)
    check_η(s, p, d)
    if not d[phys.VR] == d[phys.VP] == d[phys.VT] == 0:
        fail("velocities change: {}".format(d[3:6]))
    E = phys.e_field(s.θ, p, d[phys.BR], d[phys.BP], 0)
    J = phys.currents(s.θ, p, d[phys.BR], d[phys.BP], 0)
    scale = sum(abs(j) for j in J) * (
        p[phys.EO] + p[phys.EA] + abs(p[phys.EH])
    ) + abs(p[phys.VR] * p[phys.BP]) + abs(p[phys.VP] * p[phys.BR])
    scale += abs(p[phys.VP] * p[phys.BT]) + abs(p[phys.VR] * p[phys.BT])
    if not abs(d[phys.X7] + 3 / 4 * E[1]) <= TOL * scale:
        fail("E_r' is {!r}, -3/4 E_θ = {!r}".format(
            d[phys.X7], -3 / 4 * E[1]
        ))
    if not abs(E[0] - p[phys.X7]) <= 1e-8 * (scale + abs(p[phys.X7])):
        model, model_scale = E_r_of_code(s, p, d[phys.BP])
        message = "state holds E_r = {!r}, Ohm's law gives {!r}".format(
            p[phys.X7], E[0]
        )
        if abs(model - p[phys.X7]) <= 1e-8 * (
            scale + model_scale + abs(p[phys.X7])
        ):
            fail(message, key=KEY)
        else:
            fail(message)
    return "E_r" if generic(s) else None


def sensitivity(s, p):
    """Size of the terms both balances are eliminated from."""
    m = s.a_0 / p[phys.RHO]
    B2 = sum(p[i] ** 2 for i in (phys.BR, phys.BP, phys.BT))
    η = p[phys.EO] + p[phys.EA]
    return m * B2 * (1 + (
        abs(p[phys.X7]) + abs(p[phys.VR]) + abs(p[phys.VP])
        + np.sqrt(s.K2)
    ) * np.sqrt(B2) / η)


@relation(
    st.tuples(st.sampled_from(MODES), still_states()), quick=60,
    thorough=1000, rule="negative density",
)
def unphysical_states_rejected(case):
    mode, s = case
    p = np.array(s.p)
    p[phys.RHO] *= -1
    rhs, internal = system(mode, s, store_internal=True)
    if rhs(s.θ, p, np.zeros(11)) == 0:
        fail("state with negative density accepted")
    problems = {k: list(v) for k, v in internal.problems.items()}
    if problems != {str(s.θ): ["negative density"]}:
        fail("problems recorded: {!r}".format(problems))
    if len(internal.params) or len(internal.derivs) or len(internal.angles):
        fail("rejected state recorded as part of the internal data")
    return mode


@relation(
    st.tuples(
        st.sampled_from(MODES),
        st.lists(still_states(), min_size=1, max_size=4), st.booleans(),
    ), quick=100, thorough=2000, rule="internal data requested",
)
def internal_record(case):
    """The internal data is the exact history of accepted evaluations."""
    mode, rows, E_r = case
    first = rows[0]
    kw = {"use_E_r": E_r} if mode == "mod_hydro" else {}
    rhs, internal = system(mode, first, store_internal=True, **kw)
    bare, none = system(mode, first, store_internal=False, **kw)
    if none is not None:
        fail("internal data returned though not requested")
    params = np.zeros(11)
    d = np.zeros(11)
    history = []
    for r in rows:
        params[:] = r.p
        q, e = np.array(r.p), np.zeros(11)
        flag = rhs(r.θ, params, d)
        if flag != bare(r.θ, q, e):
            fail("storing internal data changes the flag {}".format(flag))
        if flag == 0:
            if not np.array_equal(d, e, equal_nan=True):
                fail("storing internal data changes {} to {}".format(e, d))
            history.append((r.θ, params.copy(), d.copy()))
    params[:] = d[:] = -1
    got = list(zip(internal.angles, internal.params, internal.derivs))
    if len(got) != len(history) or len(internal.angles) != len(history):
        fail("{} evaluations recorded as {}".format(len(history), len(got)))
    for new, old in zip(got, history):
        if not all(
            np.array_equal(a, b, equal_nan=True) for a, b in zip(new, old)
        ):
            fail("recorded {} for {}".format(new, old))
    return mode if history else None
