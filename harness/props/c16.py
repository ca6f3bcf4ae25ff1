# -*- coding: utf-8 -*-
"""C16: scalings and conversions of solutions agree with their geometry."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import gens
import phys
import profiles
from gens import flt, mag, sig

from disc_solver.utils import (
    CylindricalODEIndex as CYL, DiscSolverError,
    convert_solution_to_vertical, convert_spherical_to_cylindrical,
    get_heights, get_normalisation, get_vertical_scaling,
    scale_solution_to_radii, spherical_r_θ_to_cylindrical_R_z,
)

ASSUMPTIONS = [
    "solutions with E_r as a variable are refused by the conversions",
]
NAMES = {
    phys.BR: "B_r", phys.BP: "B_φ", phys.BT: "B_θ", phys.VR: "v_r",
    phys.VP: "v_φ", phys.VT: "v_θ", phys.RHO: "ρ", phys.X7: "B_φ'",
    phys.EO: "η_O", phys.EA: "η_A", phys.EH: "η_H",
}


def powers(γ):
    """How each variable of a self-similar solution goes with radius."""
    out = np.empty(11)
    out[[phys.VR, phys.VP, phys.VT]] = -1 / 2        # as the Kepler velocity
    out[phys.RHO] = 2 * γ - 3 / 2                    # mass flux as r^(2γ)
    out[[phys.BR, phys.BP, phys.BT, phys.X7]] = γ - 5 / 4  # B² as ρv²
    out[[phys.EO, phys.EA, phys.EH]] = 1 / 2         # as r v
    return out


def close(got, want, tol=1e-11, size=None):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    size = np.abs(want) if size is None else size
    return bool(np.all(np.abs(got - want) <= tol * size + 1e-300))


Scaling = namedtuple("Scaling", ["profile", "radii", "one_row"])


@relation(
    st.builds(
        Scaling, profile=profiles.profiles(st.integers(2, 12)),
        radii=st.lists(flt(-2, 3).map(lambda e: sig(10 ** e, 6)),
                       min_size=2, max_size=3).map(tuple),
        one_row=st.booleans(),
    ), quick=200, thorough=8000, rule="γ is not zero",
)
def scaling_with_radius(case):
    c = case.profile
    _, p = profiles.contents(c)
    before = p.copy()
    γ = c.m.γ
    α = powers(γ)
    rng = np.random.default_rng(c.seed)
    radii = [
        float(case.radii[0]),
        case.radii[1] * rng.uniform(0.5, 2, c.rows),  # one for each row
    ]
    for r in radii:
        if case.one_row:
            i = c.seed % c.rows
            r = np.ravel(r)[i % np.size(r)]
            vals = p[i]
            want = vals * r ** α
        else:
            r = np.asarray(r) if np.ndim(r) else r
            vals = p
            want = vals * np.reshape(r, (-1, 1)) ** α
        got = scale_solution_to_radii(vals, r, γ=γ, use_E_r=False)
        if np.shape(got) != np.shape(vals):
            fail(f"shape {np.shape(vals)} became {np.shape(got)}", key="shape")
        for k, name in NAMES.items():
            if not close(got[..., k], want[..., k]):
                fail(f"{name} at {r!r}: {got[..., k]!r}, not "
                     f"{want[..., k]!r} (γ={γ})", key=name)
        # there and back
        back = scale_solution_to_radii(got, 1 / r, γ=γ, use_E_r=False)
        if not close(back, vals, 1e-10):
            fail(f"scaled to {r!r} and back: {back!r}, not {vals!r}",
                 key="back")
    if not np.array_equal(p, before):
        fail("scaling changed the solution given", key="changed")
    try:
        scale_solution_to_radii(p, 2.0, γ=γ, use_E_r=True)
    except DiscSolverError:
        pass
    else:
        fail("E_r is scaled, as if it were B_φ'", key="E_r")
    return ["one row" if case.one_row else "rows"] if γ else None


@relation(
    st.tuples(
        profiles.profiles(st.integers(2, 12)),
        st.one_of(flt(0, 1.4), flt(-8, -0.1).map(lambda e: 10 ** e)),
        flt(-5, 5), flt(-5, 5),
    ), quick=300, thorough=10000,
    rule="not at the midplane, both components present",
)
def cylindrical_components(case):
    c, θ, r_var, θ_var = case
    h = c.m.c_s_on_v_k
    R, z = spherical_r_θ_to_cylindrical_R_z(r_var, θ_var, θ)
    size = np.hypot(r_var, θ_var)
    # lengths stay; the radial direction is (cos θ, sin θ); θ goes up from
    # the midplane
    for got, want, what in (
        (np.hypot(R, z), size, "length"),
        (R * np.cos(θ) + z * np.sin(θ), r_var, "component along r"),
        (z * np.cos(θ) - R * np.sin(θ), θ_var, "component along θ"),
    ):
        if not abs(got - want) <= 1e-12 * size + 1e-300:
            fail(f"{what} of ({r_var}, {θ_var}) at {θ}: {got!r}, {want!r}",
                 key=what)
    # a point at cylindrical radius 1 at this angle
    height = get_heights(θ, c_s_on_v_k=h)
    radius = get_vertical_scaling(θ, c_s_on_v_k=h)
    if not close(radius * np.cos(θ), 1.0):
        fail(f"radius {radius!r} at angle {θ}, 1/cos θ = {1 / np.cos(θ)!r}",
             key="radius")
    if not close(height * h, radius * np.sin(θ), 1e-10):
        fail(f"height {height!r} scale heights of {h} at angle {θ}, radius "
             f"{radius!r}", key="height")
    return (θ > 0 and r_var != 0 and θ_var != 0) or None


@relation(
    st.tuples(profiles.profiles(st.integers(2, 20)), st.booleans()),
    quick=200, thorough=8000, rule="γ is not zero",
)
def vertical_solutions(case):
    """The solution above one cylindrical radius."""
    c, one_row = case
    angles, p = profiles.contents(c)
    before = p.copy()
    γ, h = c.m.γ, c.m.c_s_on_v_k
    kw = dict(γ=γ, c_s_on_v_k=h)
    if one_row:
        i = c.seed % c.rows
        angles, p = angles[i], p[i]
    vert_heights, vert = convert_solution_to_vertical(
        angles, p, use_E_r=False, **kw)
    heights, cyl = convert_spherical_to_cylindrical(
        angles, p, use_E_r=False, **kw)
    sec = 1 / np.cos(angles)
    scaled = p * np.reshape(sec, np.shape(sec) + (1,)) ** powers(γ)
    for got in (heights, vert_heights):
        if not close(got, np.tan(angles) / h, 1e-10):
            fail(f"heights {got!r} at {angles!r} (scale height {h})",
                 key="heights")
    for k, name in NAMES.items():
        if not close(vert[..., k], scaled[..., k]):
            fail(f"{name} above radius 1: {vert[..., k]!r}, not "
                 f"{scaled[..., k]!r} at {angles!r}", key="vertical " + name)
    cos, sin = np.cos(angles), np.sin(angles)
    for r, z, sph_r, sph_θ, what in (
        (CYL.B_r, CYL.B_z, phys.BR, phys.BT, "B"),
        (CYL.v_r, CYL.v_z, phys.VR, phys.VT, "v"),
    ):
        a, b = scaled[..., sph_r], scaled[..., sph_θ]
        size = np.hypot(a, b)
        for got, want, n in (
            (cyl[..., r], a * cos - b * sin, what + "_R"),
            (cyl[..., z], a * sin + b * cos, what + "_z"),
        ):
            if not close(got, want, size=size):
                fail(f"{n}: {got!r}, not {want!r} at {angles!r}", key=n)
    for k, old in (
        (CYL.v_φ, phys.VP), (CYL.B_φ, phys.BP), (CYL.ρ, phys.RHO),
        (CYL.η_O, phys.EO), (CYL.η_A, phys.EA), (CYL.η_H, phys.EH),
        (CYL.B_φ_prime, phys.X7),
    ):
        if not close(cyl[..., k], scaled[..., old]):
            fail(f"{k.name}: {cyl[..., k]!r}, not {scaled[..., old]!r}",
                 key=k.name)
    if not one_row and not np.array_equal(p, before):
        fail("converting changed the solution given", key="changed")
    try:
        convert_spherical_to_cylindrical(angles, p, use_E_r=True, **kw)
    except DiscSolverError:
        pass
    else:
        fail("E_r is converted, as if it were B_φ'", key="E_r")
    return ["one row" if one_row else "rows"] if γ else None


Norm = namedtuple("Norm", ["m", "radius", "mass", "density", "factors"])


@relation(
    st.builds(
        Norm, m=gens.midplanes(), radius=mag(11, 16), mass=mag(31, 35),
        density=mag(-14, -6), factors=st.tuples(*[mag(-2, 2)] * 3),
    ), quick=200, thorough=4000, rule="radius, mass and density all changed",
)
def normalisation(case):
    """Physical units give back the ratios the input has."""
    m = case.m
    inp = gens.soln_input(m)
    scale = dict(
        radius=case.radius, mass=case.mass, density=case.density)
    n = get_normalisation(inp, **scale)
    if n["ρ_norm"] != case.density:
        fail(f"density {n['ρ_norm']!r}, not {case.density}", key="ρ")
    G = 6.674e-8
    v_k = np.sqrt(G * case.mass / case.radius)
    if not close(n["v_norm"] / v_k, m.c_s_on_v_k, 1e-3):
        fail(f"sound speed {n['v_norm']!r}, Kepler velocity {v_k!r}, their "
             f"ratio is {m.c_s_on_v_k}", key="v")
    v_a = n["B_norm"] / np.sqrt(4 * np.pi * case.density)
    if not close(v_a / n["v_norm"], m.v_a_on_c_s):
        fail(f"Alfvén velocity {v_a!r} of the field {n['B_norm']!r}, sound "
             f"speed {n['v_norm']!r}, their ratio is {m.v_a_on_c_s}", key="B")
    if not close(n["η_norm"], case.radius * n["v_norm"]):
        fail(f"diffusivity {n['η_norm']!r}, not {case.radius} times "
             f"{n['v_norm']!r}", key="η")
    a, b, c = case.factors
    other = get_normalisation(
        inp, radius=case.radius * a, mass=case.mass * b,
        density=case.density * c)
    v = np.sqrt(b / a)
    for name, factor in (
        ("v_norm", v), ("ρ_norm", c), ("B_norm", v * np.sqrt(c)),
        ("η_norm", a * v),
    ):
        if not close(other[name], n[name] * factor):
            fail(f"{name} goes from {n[name]!r} to {other[name]!r} where the "
                 f"radius, mass and density change by {case.factors}",
                 key=name + " units")
    return True
