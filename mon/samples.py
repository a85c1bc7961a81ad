"""Random simulated results used by the result-level monitors."""
import numpy as np

import elli
from . import gen
from .core import Skip
from .drive import evaluate
from .ref import optics


def sample(case, n=None, vector=None, aniso=None, hi_theta=80, solver=None, iso_exit=True):
    """(result, info dict) of a random well-conditioned sample."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=n, lo=350)
    theta = gen.angle(rng, hi_theta)
    if theta < 1 and rng.random() < 0.8:
        theta = float(rng.uniform(5, hi_theta))
    front = gen.mat_iso(rng, lossless=True, hi=2)
    if aniso is None:
        aniso = bool(rng.random() < 0.6)
    if aniso:
        lay = [gen.Lay(gen.mat_aniso(rng, kmax=0.3), float(rng.uniform(5, 300)))
               for _ in range(rng.integers(1, 3))]
    else:
        lay = [gen.Lay(gen.mat_iso(rng, hi=3, kmax=0.3), float(rng.uniform(5, 300)))
               for _ in range(rng.integers(0, 4))]
    back = gen.mat_iso(rng, lo=1.3) if iso_exit else gen.mat_aniso(rng)
    att = optics.attenuation(front.axes(lb)[0], gen.permittivity_stack(lay, lb), lb, theta)
    if att > 6:
        raise Skip()
    info = dict(front=front.info(), layers=[L.info() for L in lay], back=back.info(), lbda=lobj,
                theta=theta, vector=vector)
    if solver is None:
        solver = "2x2" if not aniso and rng.random() < 0.4 else "4x4"
    st = elli.Structure(front.obj(), [L.build() for L in lay], back.obj())
    r = evaluate(case, st, lobj, theta, solver, vector=vector)
    return r, dict(info=info, lb=lb, theta=theta, front=front, back=back, lay=lay, structure=st,
                   solver=solver, lobj=lobj)


def polarization(rng):
    """A random incident state: (description, Jones vector, Stokes vector or None)."""
    u = rng.integers(5)
    special = [[1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j], [0, 1j], [1j, 0]]
    if u == 0:
        v = np.array(special[rng.integers(len(special))], complex)
    elif u == 1:
        a = rng.uniform(0, 2 * np.pi)
        v = np.array([np.cos(a), np.sin(a)], complex)
    else:
        v = rng.normal(size=2) + 1j * rng.normal(size=2)
    return v


def stokes_of(v):
    """Stokes parameters of a Jones vector (S3 = 2 Im(Ex Ey*), right minus left circular)."""
    a, b = v
    return np.array([abs(a) ** 2 + abs(b) ** 2, abs(a) ** 2 - abs(b) ** 2,
                     2 * (a * np.conj(b)).real, 2 * (a * np.conj(b)).imag])
