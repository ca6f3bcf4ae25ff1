# -*- coding: utf-8 -*-
"""
Solutions with generated contents, for the analysis of solutions: the values
need not solve the equations, but have their signs and sizes.
"""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

import gens
import phys
from gens import flt, mag, sig, signed

from disc_solver.file_format import Solution, InitialConditions

Profile = namedtuple("Profile", [
    "m", "seed", "rows", "last", "smooth", "kind", "level", "special",
    "use_E_r", "extras",
])

KINDS = ("rising", "rising", "falling", "wandering", "below", "above")


def profiles(rows=st.integers(2, 30), kinds=KINDS, use_E_r=st.booleans()):
    return st.builds(
        Profile, m=gens.midplanes().map(rounded),
        seed=st.integers(0, 2 ** 20), rows=rows,
        last=flt(0.01, 1.3).map(lambda x: sig(x, 5)), smooth=st.booleans(),
        kind=st.sampled_from(kinds), level=mag(-1, 1.3),
        # rows where the velocity is exactly the sound speed
        special=st.one_of(st.none(), st.none(), st.integers(0, 40)),
        use_E_r=use_E_r, extras=st.booleans(),
    )


def rounded(m):
    return m._replace(**{
        k: v if isinstance(v, bool) else sig(v, 5)
        for k, v in m._asdict().items()
    })


def walk(rng, rows, smooth):
    """Values of order one, changing slowly or at will."""
    if not smooth:
        return rng.standard_normal(rows)
    x = np.linspace(0, 1, rows)
    return sum(
        rng.standard_normal() * np.cos(k * np.pi * x + rng.uniform(0, 7))
        for k in range(3)
    )


def velocity(rng, c):
    rows = c.rows
    if c.kind == "wandering":
        v = np.abs(walk(rng, rows, c.smooth)) * c.level
        v[0] *= rng.choice([0, 1])
    else:
        steps = rng.uniform(0.1, 1, rows)
        v = np.cumsum(steps) - steps[0]
        v *= 1 / v[-1] if v[-1] else 1
        if c.kind == "below":
            v = 0.99 * v * min(c.level, 1)
        elif c.kind == "above":
            v = 1.01 + v * c.level
        else:
            v = v * (c.level + 0.5)
        if c.kind == "falling":
            v = v[::-1].copy()
    if c.special is not None:
        v[c.special % rows] = 1.0
    return v


def contents(c):
    """(angles, values)"""
    rng = np.random.default_rng(c.seed)
    angles = np.cumsum(rng.uniform(0.1, 1, c.rows))
    angles -= angles[0] * rng.choice([0, 1])
    angles *= c.last / angles[-1]
    p = np.zeros((c.rows, 11))
    p[:, phys.RHO] = np.exp(
        -walk(rng, c.rows, c.smooth) - 3 * np.linspace(0, 1, c.rows))
    p[:, phys.VT] = velocity(rng, c)
    p[:, phys.BT] = np.exp(0.3 * walk(rng, c.rows, c.smooth))
    for i, size in (
        (phys.BR, 1), (phys.BP, 1), (phys.VR, 1), (phys.X7, 1),
    ):
        p[:, i] = size * walk(rng, c.rows, c.smooth)
    p[:, phys.VP] = 1 / c.m.c_s_on_v_k + walk(rng, c.rows, c.smooth)
    B2 = np.sum(p[:, [phys.BR, phys.BP, phys.BT]] ** 2, axis=1)
    for i, η in ((phys.EO, c.m.η_O), (phys.EA, c.m.η_A), (phys.EH, c.m.η_H)):
        p[:, i] = η * (B2 / p[:, phys.RHO] if c.m.η_derivs else 1)
    return angles, p


def build(c):
    angles, p = contents(c)
    inp = gens.soln_input(
        c.m, use_E_r=c.use_E_r, stop=float(np.degrees(angles[-1])),
        num_angles=c.rows,
    )
    rng = np.random.default_rng(c.seed + 1)
    roots = {}
    if c.extras:
        roots = dict(
            t_roots=angles[:1] + 0.001, y_roots=p[:1] * 1.01,
            sonic_point=angles[-1] * 0.9, sonic_point_values=p[-1] * 0.99,
            derivatives=rng.standard_normal(p.shape),
        )
    return Solution(
        solution_input=inp, angles=angles, solution=p, flag=0,
        coordinate_system="spherical midplane 0", internal_data=None,
        initial_conditions=InitialConditions(
            norm_kepler_sq=c.m.c_s_on_v_k ** -2, a_0=c.m.v_a_on_c_s ** 2,
            γ=c.m.γ, init_con=p[0].copy(), angles=angles.copy(),
        ), **dict(dict(
            t_roots=None, y_roots=None, sonic_point=None,
            sonic_point_values=None, derivatives=None,
        ), **roots),
    )
