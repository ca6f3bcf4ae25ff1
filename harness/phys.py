# -*- coding: utf-8 -*-
"""
Independent statement of the disc physics, written from the vector equations
(never calls the code under test).  Works on numpy scalars and arrays, real or
complex (for complex-step derivatives).

State layout: B_r B_φ B_θ v_r v_φ v_θ ρ (B_φ' or E_r) η_O η_A η_H.
"""
import numpy as np

BR, BP, BT, VR, VP, VT, RHO, X7, EO, EA, EH = range(11)
NAMES = ["B_r", "B_φ", "B_θ", "v_r", "v_φ", "v_θ", "ρ", "B_φ'/E_r",
         "η_O", "η_A", "η_H"]


def unit(B):
    mag = np.sqrt(B[0] * B[0] + B[1] * B[1] + B[2] * B[2])
    return tuple(c / mag for c in B)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    """Components ordered r, θ, φ."""
    return (
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    )


def electric_field(v, B, J, η_O, η_A, η_H):
    """All vectors ordered r, θ, φ."""
    b = unit(B)
    Jb = dot(J, b)
    bxJ = cross(b, J)
    vxB = cross(v, B)
    return tuple(
        η_O * J[i] + η_H * bxJ[i] + η_A * (J[i] - b[i] * Jb) + vxB[i]
        for i in range(3)
    )


def fields(p):
    return (p[VR], p[VT], p[VP]), (p[BR], p[BT], p[BP])


def currents(θ, p, dB_r, dB_φ, γ):
    κ = 1 / 4 - γ
    return (
        p[BP] * np.tan(θ) - dB_φ, -κ * p[BP], dB_r + κ * p[BT],
    )


def e_field(θ, p, dB_r, dB_φ, γ):
    v, B = fields(p)
    return electric_field(
        v, B, currents(θ, p, dB_r, dB_φ, γ), p[EO], p[EA], p[EH]
    )


def dB_r_from_E_φ(θ, p, dB_φ, γ):
    """B_r' for which E_φ vanishes (E_φ is affine in B_r')."""
    at0 = e_field(θ, p, 0.0, dB_φ, γ)[2]
    _, B = fields(p)
    slope = electric_field(
        (0, 0, 0), B, (0, 0, 1), p[EO], p[EA], p[EH]
    )[2]
    return -at0 / slope


def E_r_of_state(θ, p, γ):
    """E_r of a state which holds B_φ'."""
    dB_r = dB_r_from_E_φ(θ, p, p[X7], γ)
    return e_field(θ, p, dB_r, p[X7], γ)[0]


def residuals(θ, p, d, γ, a_0, K2, dB_φ):
    """
    {equation: (terms that must sum to zero)} for the steady self-similar MHD
    equations.
    """
    β = 5 / 4 - γ
    κ = 1 / 4 - γ
    tan = np.tan(θ)
    Br, Bp, Bt, vr, vp, vt, ρ = (p[i] for i in range(7))
    dBr, dBt, dvr, dvp, dvt, dρ = (
        d[BR], d[BT], d[VR], d[VP], d[VT], d[RHO]
    )
    m = a_0 / ρ
    E = e_field(θ, p, dBr, dB_φ, γ)
    v, B = fields(p)
    J = currents(θ, p, dBr, dB_φ, γ)
    return {
        "continuity": (
            (5 / 2 - 2 * β) * vr, dvt, vt / ρ * dρ, -vt * tan,
        ),
        "solenoidal field": (dBt, -(β - 2) * Br, -Bt * tan),
        "radial momentum": (
            vt * dvr, -vr ** 2 / 2, -vt ** 2, -vp ** 2, K2, -2 * β,
            -m * Bt * dBr, -m * (β - 1) * Bt ** 2, -m * (β - 1) * Bp ** 2,
        ),
        "azimuthal momentum": (
            vt * dvp, vr * vp / 2, -tan * vt * vp,
            -m * Bt * dB_φ, -m * (1 - β) * Br * Bp, m * tan * Bt * Bp,
        ),
        "polar momentum": (
            vr * vt / 2, vt * dvt, tan * vp ** 2, dρ / ρ,
            m * (β - 1) * Bt * Br, m * Br * dBr, m * Bp * dB_φ,
            -m * Bp ** 2 * tan,
        ),
        "toroidal electric field": (
            E[2], abs_terms(v, B, J, p)
        ),
    }


def abs_terms(v, B, J, p):
    """Zero with the magnitude of the terms which cancel in E_φ."""
    return Scale(
        np.abs(v[0] * B[1]) + np.abs(v[1] * B[0])
        + (np.abs(p[EO]) + np.abs(p[EA]) + np.abs(p[EH])) * (
            np.abs(J[0]) + np.abs(J[1]) + np.abs(J[2])
        )
    )


class Scale:
    """A term with no value, only a magnitude."""

    def __init__(self, value):
        self.value = value


def balance(terms):
    """(|sum|, scale) of a tuple of terms."""
    total = 0
    scale = 0
    for t in terms:
        if isinstance(t, Scale):
            scale = scale + t.value
        else:
            total = total + t
            scale = scale + np.abs(t)
    return np.abs(total), scale


def η_scale_deriv(p, d, dB_φ):
    """d/dθ of B²/ρ in units of 1/ρ... the SKW form used by the solver."""
    B2 = p[BR] ** 2 + p[BP] ** 2 + p[BT] ** 2
    return (
        2 * (p[BR] * d[BR] + p[BP] * dB_φ + p[BT] * d[BT])
        - B2 * d[RHO] / p[RHO]
    ) / p[RHO]


def E_r_from_B_φ_current(θ, p, γ):
    """Part of E_r due to the currents set by the value of B_φ alone."""
    _, B = fields(p)
    J = (p[BP] * np.tan(θ), -(1 / 4 - γ) * p[BP], 0 * p[BP])
    zero = (0, 0, 0)
    return electric_field(zero, B, J, p[EO], p[EA], p[EH])[0]


def directional(func, θ, p, d, γ):
    """
    (d/dθ of func along the flow with derivatives d, magnitude of what was
    summed), by complex step.
    """
    h = 1e-30
    p = np.asarray(p, dtype=complex)
    total = func(θ + 1j * h, p, γ).imag / h
    scale = abs(total)
    for i in range(11):
        if d[i] == 0:
            continue
        q = p.copy()
        q[i] += 1j * h
        part = func(complex(θ), q, γ).imag / h * d[i]
        total += part
        scale += abs(part)
    return total, scale


def E_r_deriv_along(θ, p, d, γ):
    """E_r' for a state which holds B_φ'."""
    return directional(E_r_of_state, θ, p, d, γ)
