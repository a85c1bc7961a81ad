"""Kramers-Kronig integrals by adaptive principal-value quadrature."""
import math
import warnings

import numpy as np
from scipy.integrate import quad


def re_from_im(eps2, e, lo, hi, knots=()):
    """(2/pi) P int_lo^inf x eps2(x)/(x^2 - e^2) dx; eps2 continuous on (lo, inf), smooth but at `knots`.

    The pole is removed by subtracting eps2(e) inside (lo, hi); beyond hi by substitution."""
    pts = sorted({lo, hi, *[k for k in knots if lo < k < hi]})
    inside = lo < e < hi
    fe = eps2(e) if inside else 0.0
    if inside:
        pts = sorted({*pts, e, *[p for p in (e * 0.9, e * 1.1) if lo < p < hi]})

    def g(x):
        if x == e:
            return 0.0
        return (x * eps2(x) - e * fe) / ((x - e) * (x + e))
    total = 0.0
    opt = dict(limit=400, epsabs=1e-11, epsrel=1e-10)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for a, b in zip(pts[:-1], pts[1:]):
            if b - a > 1e-13 * b:
                total += quad(g, a, b, **opt)[0]
        if inside:  # P int e fe / (x^2 - e^2)
            total += fe / 2 * (math.log((hi - e) / (hi + e)) - math.log((e - lo) / (e + lo)))
        # tail: x = 1/u
        total += quad(lambda u: eps2(1 / u) / (u * (1 - e * e * u * u)) if u else 0.0, 0, 1 / hi, **opt)[0]
    return 2 / np.pi * total
