# -*- coding: utf-8 -*-
"""
Power-series solution of the disc equations about the midplane, by Newton on
the series residuals of the equations themselves (independent of the closed
forms used by the code under test).
"""
import numpy as np

N = 5


class S:
    """Truncated power series with batched complex coefficients (N, batch)."""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    @staticmethod
    def make(coeffs, batch):
        a = np.zeros((N, batch), dtype=complex)
        for i, c in enumerate(coeffs):
            a[i] = c
        return S(a)

    def __add__(self, o):
        if isinstance(o, S):
            return S(self.a + o.a)
        a = self.a.copy()
        a[0] += o
        return S(a)
    __radd__ = __add__

    def __neg__(self):
        return S(-self.a)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, S):
            return S(self.a * o)
        r = np.zeros_like(self.a)
        for i in range(N):
            r[i:] += self.a[i] * o.a[:N - i]
        return S(r)
    __rmul__ = __mul__

    def inv(self):
        r = np.zeros_like(self.a)
        r[0] = 1 / self.a[0]
        for n in range(1, N):
            r[n] = -(self.a[1:n + 1] * r[n - 1::-1][:n]).sum(axis=0) * r[0]
        return S(r)

    def __truediv__(self, o):
        if isinstance(o, S):
            return self * o.inv()
        return S(self.a / o)

    def __rtruediv__(self, o):
        return self.inv() * o

    def __pow__(self, n):
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def sqrt(self):
        r = np.zeros_like(self.a)
        r[0] = np.sqrt(self.a[0])
        for n in range(1, N):
            s = 0
            for k in range(1, n):
                s = s + r[k] * r[n - k]
            r[n] = (self.a[n] - s) / (2 * r[0])
        return S(r)

    def d(self):
        r = np.zeros_like(self.a)
        for i in range(1, N):
            r[i - 1] = i * self.a[i]
        return S(r)


UNKNOWNS = ("v_r2", "v_φ2", "ρ2", "B_θ2", "v_θ1", "v_θ3", "B_r1", "B_r3",
            "B_φ1", "B_φ3", "η2")


def _residuals(x, v_r, v_φ, K2, a_0, γ, η_O, η_A, η_H, η_derivs):
    batch = x.shape[1]

    def mk(*c):
        return S.make(c, batch)
    vr2, vp2, r2, bt2, vt1, vt3, br1, br3, bp1, bp3, e2 = x
    tan = mk(0, 1, 0, 1 / 3)
    vr = mk(v_r, 0, vr2)
    vp = mk(v_φ, 0, vp2)
    ρ = mk(1, 0, r2)
    Bt = mk(1, 0, bt2)
    vt = mk(0, vt1, 0, vt3)
    Br = mk(0, br1, 0, br3)
    Bp = mk(0, bp1, 0, bp3)
    scale = mk(1, 0, e2)
    ηO, ηA, ηH = scale * η_O, scale * η_A, scale * η_H
    B2 = Br * Br + Bp * Bp + Bt * Bt
    B = B2.sqrt()
    br, bp, bt = Br / B, Bp / B, Bt / B
    β = 5 / 4 - γ
    κ = 1 / 4 - γ
    m = a_0 / ρ
    cont = 2 * γ * vr + vt.d() + vt / ρ * (ρ.d() - ρ * tan)
    sol = Bt.d() - (β - 2) * Br - Bt * tan
    rad = (
        vt * vr.d() - vr * vr / 2 - vt * vt - vp * vp + K2 - 2 * β
        - m * (Bt * Br.d() + (β - 1) * (Bt * Bt + Bp * Bp))
    )
    az = (
        vt * vp.d() + vr * vp / 2 - tan * vt * vp
        - m * (Bt * Bp.d() + (1 - β) * Br * Bp - tan * Bt * Bp)
    )
    pol = (
        vr * vt / 2 + vt * vt.d() + tan * vp * vp + ρ.d() / ρ
        + m * ((β - 1) * Bt * Br + Br * Br.d() + Bp * Bp.d() - Bp * Bp * tan)
    )
    Jr = Bp * tan - Bp.d()
    Jt = -κ * Bp
    Jp = Br.d() + κ * Bt
    Jb = Jr * br + Jt * bt + Jp * bp
    Er = ηO * Jr + ηH * (bt * Jp - bp * Jt) + ηA * (Jr - br * Jb) + (
        vt * Bp - vp * Bt)
    Et = ηO * Jt + ηH * (bp * Jr - br * Jp) + ηA * (Jt - bt * Jb) + (
        vp * Br - vr * Bp)
    Ep = ηO * Jp + ηH * (br * Jt - bt * Jr) + ηA * (Jp - bp * Jb) + (
        vr * Bt - vt * Br)
    ind = Er.d() - (γ - 3 / 4) * Et
    η = scale.d()
    if η_derivs:
        η = η - (2 * (Br * Br.d() + Bp * Bp.d() + Bt * Bt.d())
                 - B2 * ρ.d() / ρ) / ρ
    return np.array([
        cont.a[0], cont.a[2], sol.a[1], rad.a[2], az.a[0], az.a[2], pol.a[1],
        Ep.a[0], Ep.a[2], ind.a[1], η.a[1],
    ]), rad.a[0], Er.a


def solve(v_r, v_φ, K2, a_0, γ, η_O, η_A, η_H, η_derivs):
    """
    Returns (dict of derivatives at the midplane, condition number, residual
    of the radial balance at the midplane) or None if Newton did not converge.
    """
    args = (v_r, v_φ, K2, a_0, γ, η_O, η_A, η_H, η_derivs)
    n = len(UNKNOWNS)
    x = np.zeros(n)
    h = 1e-30
    for _ in range(25):
        X = np.repeat(x[:, None], n + 1, axis=1).astype(complex)
        X[np.arange(n), np.arange(n)] += 1j * h
        r, _, _ = _residuals(X, *args)
        J = r[:, :n].imag / h
        f = r[:, n].real
        dx = np.linalg.solve(J, -f)
        x = x + dx
        if np.all(np.abs(dx) <= 1e-13 * (1e-30 + np.abs(x)) + 1e-14):
            break
    else:
        return None
    # scale-free condition number
    size = np.abs(x) + 1e-300
    M = J * size
    rows = np.abs(M).max(axis=1)
    rows[rows == 0] = 1
    M = M / rows[:, None]
    cond = np.linalg.cond(M[:, np.abs(x) > 0][np.abs(M).max(axis=1) > 0])
    r, rad0, Er = _residuals(x[:, None].astype(complex), *args)
    v = dict(zip(UNKNOWNS, x))
    return {
        "first": {"B_r": v["B_r1"], "B_φ": v["B_φ1"], "v_θ": v["v_θ1"]},
        "second": {
            "B_θ": 2 * v["B_θ2"], "ρ": 2 * v["ρ2"], "v_r": 2 * v["v_r2"],
            "v_φ": 2 * v["v_φ2"], "η_O": 2 * v["η2"] * η_O,
            "η_A": 2 * v["η2"] * η_A, "η_H": 2 * v["η2"] * η_H,
            "B_φ_prime": 6 * v["B_φ3"], "E_r": 2 * Er[2, 0].real,
        },
        "third": {
            "B_r": 6 * v["B_r3"], "B_φ": 6 * v["B_φ3"], "v_θ": 6 * v["v_θ3"],
        },
        "E_r0": Er[0, 0].real,
    }, cond, abs(rad0[0])


def listed_deviation(v_r, v_φ, a_0, γ, η_O, η_A, η_H, true):
    """
    The listed known finding (midplane-third-order-sources): what the tree
    computes for the coefficients which depend on the third-order sources,
    given correct lower-order coefficients.
    """
    κ = 1 / 4 - γ
    br, bp = true["first"]["B_r"], true["first"]["B_φ"]
    dvt = true["first"]["v_θ"]
    s = true["second"]
    ηP = η_O + η_A
    ddηP = s["η_O"] + s["η_A"]
    ddηH = s["η_H"]
    ddBt = s["B_θ"]
    Y1 = -s["ρ"]
    bt2 = -(br ** 2 + bp ** 2)
    C = η_H / ηP
    A = (ddηH + η_H * bt2 - 2 * η_A * br * bp
         - C * (ddηP - 2 * η_A * bp ** 2)) / ηP
    Z5 = (ηP ** 2 + η_H ** 2) / ηP
    ddZ5 = ddηP - 2 * η_A * bp ** 2 + A * η_H + C * (
        ddηH + η_H * bt2 - 2 * η_A * br * bp)
    Y2 = (dvt * br - v_r * ddBt - bp * (ddηH + η_H * (br * κ + 1 + bt2))
          - (ddηP - 2 * η_A * br ** 2) * (br + κ)) / ηP - ddBt * κ
    Y3 = -(A * v_r - C * (dvt * br - v_r * ddBt) + s["E_r"] + v_φ * ddBt
           - bp * (dvt + ηP + κ * (η_H * bp + η_A * br)
                   + C * (η_A * bp * κ - η_H * (br * κ + 1)))
           + bp * ddZ5) / Z5
    Y4 = 2 * a_0 * (Y2 - bp * (br * (5 / 4 - γ) - Y1)) - 4 * γ * v_r * v_φ
    Y5 = v_r * (1 - 8 * γ) + 2 * a_0 / Z5
    k = 2 * a_0 * C / Z5 + v_φ
    Y6 = v_φ / Y5 * k - (4 * γ + 1) * v_r / 2 - a_0 / (2 * ηP) * (
        C * η_H / Z5 - 1 - η_H * k / (Z5 * Y5))
    ddvr = (
        a_0 / 2 * (Y3 - Y2 * η_H / ηP + η_H * Y4 / (ηP * Y5 * Z5))
        + v_φ * Y4 / Y5 + 4 * γ ** 2 * v_r ** 2 + a_0 / 2 * (
            ddBt * br + 2 * bp ** 2 * κ + 2 * ddBt * κ + Y1 * (br + κ))
    ) / Y6
    ddvp = Y4 / Y5 - ddvr / Y5 * k
    dddbp = Y2 - (C * ddvr + ddvp) / Z5
    dddbr = Y3 - (η_H * dddbp + ddvr) / ηP
    dddvt = 4 * γ * v_r * (s["ρ"] - 1 - ddvr / (2 * v_r))
    return {
        "second": {"v_r": ddvr, "v_φ": ddvp, "B_φ_prime": dddbp},
        "third": {"B_r": dddbr, "B_φ": dddbp, "v_θ": dddvt},
    }
