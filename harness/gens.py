# -*- coding: utf-8 -*-
"""Generators shared by the physics properties."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

import phys

Sys = namedtuple("Sys", ["γ", "a_0", "K2", "η_derivs", "θ", "p"])


def flt(lo, hi, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, **kw)


def sig(x, n=12):
    """Round to n significant digits: cases print exactly as they ran."""
    return float(f"{x:.{n - 1}e}")


def mag(lo_exp, hi_exp):
    """Positive, log-uniform-ish."""
    return flt(lo_exp, hi_exp).map(lambda e: sig(10.0 ** e))


def signed(lo_exp, hi_exp, zero=True):
    parts = [mag(lo_exp, hi_exp), mag(lo_exp, hi_exp).map(lambda x: -x)]
    if zero:
        parts.append(st.just(0.0))
    return st.one_of(*parts)


ZEROABLE = ("B_r", "B_φ", "v_r", "X7", "η_A", "η_H", "γ", "θ")


@st.composite
def states(draw, *, supersonic=True, min_θ=0.0, max_θ=1.3):
    """A generic (not necessarily near-solution) state of the disc."""
    zeros = draw(st.one_of(
        st.just(frozenset()), st.just(frozenset()),
        st.frozensets(st.sampled_from(ZEROABLE), max_size=3),
    ))
    γ = sig(draw(flt(-0.3, 0.7)), 6)
    K2 = draw(mag(0.3, 4))
    p = [0.0] * 11
    p[phys.BR] = draw(signed(-3, 1, zero=False))
    p[phys.BP] = draw(signed(-3, 1, zero=False))
    p[phys.BT] = draw(mag(-2, 0.5))
    p[phys.VR] = draw(signed(-3, 1, zero=False))
    p[phys.VP] = sig(np.sqrt(K2) * draw(flt(0.5, 1.2)))
    hi = 0.7 if supersonic else -0.02
    p[phys.VT] = draw(mag(-4, hi))
    if abs(p[phys.VT] - 1) < 1e-3:
        p[phys.VT] = 0.75
    p[phys.RHO] = draw(mag(-6, 0.3))
    p[phys.X7] = draw(signed(-2, 2, zero=False))
    p[phys.EO] = draw(mag(-5, 0.5))
    p[phys.EA] = draw(mag(-5, 0.5))
    p[phys.EH] = draw(signed(-5, 0.5, zero=False))
    for name, i in (
        ("B_r", phys.BR), ("B_φ", phys.BP), ("v_r", phys.VR),
        ("X7", phys.X7), ("η_A", phys.EA), ("η_H", phys.EH),
    ):
        if name in zeros:
            p[i] = 0.0
    θ = round(min_θ + (max_θ - min_θ) * (1 - draw(flt(0, 1))), 8)
    if "θ" in zeros:
        θ = min_θ
    return Sys(
        γ=0.0 if "γ" in zeros else γ, a_0=draw(mag(-2, 1)), K2=K2,
        η_derivs=draw(st.booleans()), θ=θ, p=tuple(p),
    )


def labels(s):
    out = []
    p = s.p
    out.append("supersonic" if p[phys.VT] > 1 else "subsonic")
    if p[phys.EH]:
        out.append("hall")
    if p[phys.EA]:
        out.append("ambipolar")
    if s.γ:
        out.append("γ≠0")
    if s.η_derivs:
        out.append("η_derivs")
    if p[phys.BR] and p[phys.BP]:
        out.append("all B")
    return out


def generic(s):
    """Every term of the equations is present."""
    p = s.p
    return all(p[i] != 0 for i in (
        phys.BR, phys.BP, phys.VR, phys.X7, phys.EH, phys.EA,
    )) and s.θ > 0


Mid = namedtuple("Mid", [
    "γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_A", "η_H",
    "η_derivs",
])


def discriminant(m):
    """
    (discriminant, magnitude of its terms) of the quadratic for v_φ that the
    radial force balance gives at the midplane.
    """
    v_r = -m.v_rin_on_c_s
    η_P = m.η_O + m.η_A
    terms = (
        (v_r * m.η_H / (4 * η_P)) ** 2, m.c_s_on_v_k ** -2, -5 / 2, 2 * m.γ,
        -v_r ** 2 / 2, m.v_a_on_c_s ** 2 * v_r / η_P,
    )
    return sum(terms), sum(abs(t) for t in terms)


def has_midplane(m):
    value, scale = discriminant(m)
    return value > 1e-9 * scale


@st.composite
def midplanes(draw):
    """Midplane inputs of a disc for which a real v_φ exists."""
    m = draw(any_midplanes())
    if not has_midplane(m):
        # weaker field or slower infall always leaves one
        m = m._replace(v_a_on_c_s=0.1, η_O=max(m.η_O, 0.01))
    if not has_midplane(m):
        m = m._replace(v_rin_on_c_s=0.1, c_s_on_v_k=0.05)
    assert has_midplane(m), m
    return m


@st.composite
def any_midplanes(draw):
    """Midplane inputs of a disc."""
    zeros = draw(st.one_of(
        st.just(frozenset()), st.just(frozenset()),
        st.frozensets(st.sampled_from(("γ", "η_A", "η_H")), max_size=2),
    ))
    return Mid(
        γ=0.0 if "γ" in zeros else draw(st.one_of(
            mag(-4, -0.4), flt(0.01, 0.6).map(lambda x: sig(x, 6)),
        )),
        v_rin_on_c_s=draw(mag(-1.5, 0.6)),
        v_a_on_c_s=draw(mag(-1, 0.4)),
        c_s_on_v_k=draw(mag(-2.2, -0.8)),
        η_O=draw(mag(-4, 0)),
        η_A=0.0 if "η_A" in zeros else draw(mag(-4, 0)),
        η_H=0.0 if "η_H" in zeros else draw(signed(-4, 0, zero=False)),
        η_derivs=draw(st.booleans()),
    )


def generic_mid(m):
    return m.γ != 0 and m.η_A != 0 and m.η_H != 0


def soln_input(m, **kw):
    """The SolutionInput for midplane inputs."""
    from disc_solver.file_format import SolutionInput
    args = dict(
        start=0.0, stop=5.0, taylor_stop_angle=0.001, max_steps=10000,
        num_angles=100, relative_tolerance=1e-6, absolute_tolerance=1e-10,
        γ=m.γ, nwalkers=8, iterations=3, threads=1, target_velocity=0.9,
        split_method="v_θ_deriv", v_rin_on_c_s=m.v_rin_on_c_s,
        v_a_on_c_s=m.v_a_on_c_s, c_s_on_v_k=m.c_s_on_v_k, η_O=m.η_O,
        η_H=m.η_H, η_A=m.η_A, η_derivs=m.η_derivs,
    )
    args.update(kw)
    return SolutionInput(**args)
