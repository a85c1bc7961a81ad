"""Independent evaluation of the documented dispersion formulas (wavelengths in nm).

Written from the docstrings / cited literature, in scalar double precision, one
wavelength at a time, so that nothing of the package's array code is shared.
"""
import cmath
import math

import numpy as np

HC = 1239.8419843320026  # eV nm  (CODATA, exact since 2019: h*c/e)
HBAR_EV = 6.582119569509066e-16  # eV s
EPS0 = 8.8541878188e-12  # F/m


def energy(lbda):
    return HC / lbda


def each(f):
    """Lift a scalar function of the wavelength (float) to arrays."""
    def g(lbda):
        a = np.asarray(lbda, dtype=float)
        flat = [complex(f(float(v))) for v in a.ravel()]
        return np.array(flat, dtype=complex).reshape(a.shape)
    return g


# ---- each function takes (single params dict, list of repeated-parameter dicts) and
# ---- returns a scalar function of lambda giving (kind, value)

def cauchy(s, _):
    return lambda w: (
        s["n0"] + 1e2 * s["n1"] / w**2 + 1e7 * s["n2"] / w**4
        + 1j * (s["k0"] + 1e2 * s["k1"] / w**2 + 1e7 * s["k2"] / w**4)
    )


def cauchy_custom(s, rep):
    return lambda w: s["n0"] + sum(r["f"] * w ** r["e"] for r in rep)


def cauchy_urbach(s, _):
    def f(w):
        e = HC / w
        return (s["n0"] + s["B"] * e**2 + s["C"] * e**4
                + 1j * s["D"] * math.exp((e - s["Eg"]) / s["Eu"]))
    return f


def constant_n(s, _):
    return lambda w: s["n"]


def eps_inf(s, _):
    return lambda w: s["eps"]


def sellmeier(_, rep):
    def f(w):
        u = w / 1000.0
        return 1 + sum(r["A"] * u * u / (u * u - r["B"]) for r in rep)
    return f


def sellmeier_custom(_, rep):
    def f(w):
        u = w / 1000.0
        return sum(r["A"] * u ** r["e_A"] / (u * u - r["B"] ** r["e_B"]) for r in rep)
    return f


def polynomial(s, rep):
    return lambda w: s["e0"] + sum(r["f"] * w ** r["e"] for r in rep)


def poles(s, _):
    def f(w):
        e = HC / w
        return s["A_ir"] / e**2 + s["A_uv"] / (s["E_uv"] ** 2 - e**2)
    return f


def lorentz_energy(_, rep):
    def f(w):
        e = HC / w
        return 1 + sum(r["A"] / (r["E"] ** 2 - e * e - 1j * r["gamma"] * e) for r in rep)
    return f


def lorentz_lambda(_, rep):
    def f(w):
        return 1 + sum(
            r["A"] * w * w / (w * w - r["lambda_r"] ** 2 - 1j * r["gamma"] * w) for r in rep)
    return f


def _dawson(x):
    import mpmath
    return float(mpmath.sqrt(mpmath.pi) / 2 * mpmath.exp(-mpmath.mpf(x) ** 2) * mpmath.erfi(x))


def gaussian(_, rep):
    """De Sousa Meneses: e2 = A [exp(-((E-E0)/s)^2) - exp(-((E+E0)/s)^2)], s = FWHM/2sqrt(ln2)
    and e1 its Kramers-Kronig transform through the Dawson function."""
    def f(w):
        e = HC / w
        out = 0
        for r in rep:
            s = r["sigma"] / (2 * math.sqrt(math.log(2)))
            xm, xp = (e - r["E"]) / s, (e + r["E"]) / s
            out += 2 * r["A"] / math.sqrt(math.pi) * (_dawson(xp) - _dawson(xm))
            out += 1j * r["A"] * (math.exp(-xm * xm) - math.exp(-xp * xp))
        return out
    return f


def drude_energy(s, _):
    def f(w):
        e = HC / w
        return s["A"] / (e * e - 1j * s["gamma"] * e)
    return f


def drude_resistivity(s, _):
    """hbar^2 / (eps0 rho (tau E^2 - i hbar E)) with rho in Ohm cm"""
    def f(w):
        e = HC / w
        rho = s["rho_opt"] * 1e-2  # Ohm m
        return HBAR_EV**2 / (EPS0 * rho * (s["tau"] * e * e - 1j * HBAR_EV * e))
    return f


def tl_eps2(e, eg, a, e0, c):
    if e <= eg:
        return 0.0
    return a * e0 * c * (e - eg) ** 2 / ((e * e - e0 * e0) ** 2 + c * c * e * e) / e


def cody_eps2(e, Eg, A, Et, gamma, Ep, E0, Eu):
    def g(x):
        return (x - Eg) ** 2 / ((x - Eg) ** 2 + Ep * Ep)

    def lor(x):
        return A * E0 * gamma * x / ((x * x - E0 * E0) ** 2 + gamma * gamma * x * x)
    if e <= Et:
        return Et * g(Et) * lor(Et) / e * math.exp((e - Et) / Eu)
    return g(e) * lor(e)


def tanguy(s, _):
    import mpmath as mp
    A, d, G, R, Eg, a, b = (s[k] for k in ("A", "d", "gamma", "R", "Eg", "a", "b"))

    def g(x):
        x = mp.mpc(x)
        if d == 3:
            return 2 * mp.log(x) - 2 * mp.psi(0, 1 - x) - 1 / x
        if d == 2:
            return 2 * mp.log(x) - 2 * mp.psi(0, mp.mpf(1) / 2 - x)
        D = mp.mpf(d) - 1
        return (2 * mp.pi * mp.gamma(D / 2 + x) / mp.gamma(D / 2) ** 2
                / mp.gamma(1 - D / 2 + x) / x ** (D - 1)
                * (mp.cot(mp.pi * (D / 2 - x)) - mp.cot(mp.pi * D)))

    def xi(z):
        return mp.sqrt(mp.mpf(R) / (Eg - mp.mpc(z)))

    def f(w):
        e = HC / w
        z = e + 1j * G
        with mp.workdps(30):
            return complex(
                1 + a / (b - e * e)
                + A * mp.mpf(R) ** (mp.mpf(d) / 2 - 1) / mp.mpc(z) ** 2
                * (g(xi(z)) + g(xi(-z)) - 2 * g(xi(0))))
    return f


def csqrt(z):
    return cmath.sqrt(z)
