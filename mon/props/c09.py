"""C09: Jones and Stokes descriptions of the incident light are equivalent."""
import math

import numpy as np

import elli
from ..core import Skip, Suite
from ..samples import polarization, sample, stokes_of

PROPERTY = "C09"
RULE = (
    "random, special and nearly special polarization states as Jones and as Stokes vectors (scaled, "
    "phased, partially polarized, list/tuple/array/integer containers) through constructor and "
    "setter; conversions against the documented Stokes convention, reduced quantities compared"
)
REACH = {"conversions": 600, "equivalent rho": 300, "near-degenerate": 100, "partially polarized": 100}


def state(rng):
    u = rng.random()
    if u < 0.35:
        return polarization(rng), False
    if u < 0.5:
        special = [[1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j]]
        return np.array(special[rng.integers(6)], complex), False
    if u < 0.75:   # rounding next to special states
        eps = 10.0 ** rng.uniform(-17, -6) * np.exp(2j * np.pi * rng.random())
        special = [[1, eps], [eps, 1], [1, 1 + eps], [1, 1j + eps]]
        return np.array(special[rng.integers(4)], complex), True
    a, e = rng.uniform(0, np.pi), rng.uniform(-np.pi / 4, np.pi / 4)
    return np.array([math.cos(a) * math.cos(e) - 1j * math.sin(a) * math.sin(e),
                     math.sin(a) * math.cos(e) + 1j * math.cos(a) * math.sin(e)]), False


def same_state(case, got, want, what, tol):
    """Two Jones vectors describe one polarization (up to scale and phase)."""
    g, w = np.asarray(got, complex), np.asarray(want, complex)
    case.check(np.isfinite(g).all(), f"{what}: {g}")
    g, w = g / np.linalg.norm(g), w / np.linalg.norm(w)
    case.close(abs(g[0] * w[1] - g[1] * w[0]), 0, what, rtol=0, atol=tol)


def container(rng, v):
    k = rng.integers(3)
    return [v, list(v), tuple(v)][k]


def mk(st, lb, th, vec, rng):
    if rng.random() < 0.5:
        return elli.Experiment(st, lb, th, vec)
    e = elli.Experiment(st, lb, th, [1, 0] if rng.random() < 0.5 else None)
    e.set_vector(vec)
    return e


STRUCT = elli.Structure(elli.AIR, [], elli.AIR)


def s_convert(case):
    rng = case.rng
    v, near = state(rng)
    scale = 10.0 ** rng.uniform(-3, 3) if rng.random() < 0.5 else 1.0
    if near:
        case.event("near-degenerate")
    case.describe(v=v, scale=scale)
    e = mk(STRUCT, 500, 60, container(rng, v * scale), rng)
    case.event("conversions", 2)
    same_state(case, e.jones_vector, v, "Jones vector of an experiment", 1e-14)
    s = stokes_of(v * scale)
    case.close(e.stokes_vector, s, "Stokes vector from Jones", rtol=1e-12, atol=1e-12 * s[0])
    sn = stokes_of(v)
    p = 1.0
    if rng.random() < 0.4:
        p = float(rng.uniform(0.05, 1) if rng.random() < 0.6 else 10.0 ** -rng.uniform(1, 6))
        case.event("partially polarized")
    sv = np.concatenate([[sn[0]], sn[1:] * p]) * scale
    e = mk(STRUCT, 500, 60, container(rng, sv), rng)
    case.check(np.allclose(np.asarray(e.stokes_vector), sv, rtol=1e-14, atol=0), "Stokes vector is not kept")
    same_state(case, e.jones_vector, v, "Jones vector from Stokes", 1e-7)
    back = stokes_of(np.asarray(e.jones_vector) / np.linalg.norm(e.jones_vector))
    case.close(back[1:], sn[1:] / sn[0], "Stokes -> Jones -> Stokes", rtol=0, atol=1e-7)


INT = {(1, 1, 0, 0): [1, 0], (1, -1, 0, 0): [0, 1], (1, 0, 1, 0): [1, 1], (1, 0, -1, 0): [1, -1],
       (1, 0, 0, 1): [1, -1j], (1, 0, 0, -1): [1, 1j], (2, 0, 0, 2): [1, -1j], (5, 3, 4, 0): [2, 1],
       (5, -4, 0, -3): [1, 3j]}


def s_integer(case):
    """Documented examples written with integers."""
    rng = case.rng
    s = list(INT)[rng.integers(len(INT))]
    dt = [list, tuple, lambda x: np.array(x), lambda x: np.array(x, float)][rng.integers(4)]
    case.describe(s=s)
    e = mk(STRUCT, 500, 60, dt(s), rng)
    want = np.array(INT[s], complex)
    case.event("conversions")
    same_state(case, e.jones_vector, want, "documented Stokes vector", 1e-7)
    if np.isrealobj(np.real_if_close(want)):
        e2 = mk(STRUCT, 500, 60, dt([int(x) for x in want.real]), rng)
        same_state(case, e2.jones_vector, want, "integer Jones vector", 1e-12)
        st = np.asarray(stokes_of(want))
        case.close(e2.stokes_vector, st, "Stokes of an integer Jones vector", rtol=1e-12, atol=1e-12)


def s_rho(case):
    rng = case.rng
    v, near = state(rng)
    if near:
        v = polarization(rng)
    try:
        r, s = sample(case, vector=v, aniso=True)
    except Skip:
        raise
    lobj, th, st = s["lobj"], s["theta"], s["structure"]
    case.describe(**s["info"])
    j = r.jones_matrix_r
    out = np.einsum("nij,j->ni", j, v)
    jt = np.einsum("nij,j->ni", r.jones_matrix_t, v)
    if np.min(np.abs(out[:, 1])) < 1e-4 * np.max(np.abs(out)) or np.min(np.abs(jt[:, 1])) < 1e-4 * np.max(np.abs(jt)):
        raise Skip()
    if np.min(np.abs(out[:, 0])) < 1e-4 * np.max(np.abs(out)):
        raise Skip()
    want = out[:, 0] / out[:, 1]
    case.close(r.rho, want, "rho of a Jones vector", rtol=1e-9, atol=1e-11)
    sn = stokes_of(v)
    p = float(rng.uniform(0.1, 1) if rng.random() < 0.6 else 10.0 ** -rng.uniform(1, 6)) if rng.random() < 0.6 else 1.0
    forms = {
        "global phase": v * np.exp(1j * rng.uniform(0, 6.3)),
        "scale": v * 10.0 ** rng.uniform(-2, 2),
        "Stokes": sn,
        "scaled Stokes": sn * 10.0 ** rng.uniform(-2, 2),
        "partially polarized": np.concatenate([[sn[0]], p * sn[1:]]),
    }
    for name, vec in forms.items():
        e = mk(st, lobj, th, container(rng, vec), rng)
        r2 = e.evaluate(elli.Solver4x4)
        case.event("equivalent rho")
        case.close(r2.rho, want, f"rho with {name}", rtol=1e-5, atol=1e-6)
        case.close(r2.psi, r.psi, f"psi with {name}", rtol=0, atol=1e-3)
        d = (np.asarray(r2.delta - r.delta) + 180) % 360 - 180
        case.close(d, 0 * d, f"delta with {name}", rtol=0, atol=1e-2)
        case.close(r2.rho_t, jt[:, 0] / jt[:, 1], f"rho_t with {name}", rtol=1e-5, atol=1e-6)
        case.close(r2.jones_matrix_r, j, "Jones matrix independent of the incident light", rtol=0, atol=1e-13)
        case.close(r2.mueller_matrix, r.mueller_matrix, "Mueller matrix independent of the light", rtol=0, atol=1e-9)


def s_default(case):
    """No vector means diagonal light."""
    r, s = sample(case, vector=None)
    case.describe(**s["info"])
    rng = case.rng
    d = mk(s["structure"], s["lobj"], s["theta"], container(rng, [[1, 1], [1, 0, 1, 0], [0.5, 0.5]][rng.integers(3)]), rng)
    r2 = d.evaluate(elli.Solver4x4)
    case.event("equivalent rho")
    if np.isfinite(r.rho).all() and np.max(np.abs(r.rho)) < 1e3:
        case.close(r.rho, r2.rho, "default polarization", rtol=1e-7, atol=1e-8)
    e = elli.Experiment(s["structure"], s["lobj"], s["theta"])
    same_state(case, e.jones_vector, [1, 1], "default Jones vector", 1e-8)
    case.close(np.asarray(e.stokes_vector, float) / e.stokes_vector[0], [1, 0, 1, 0], "default Stokes vector", atol=1e-12)


SUITES = [Suite("convert", s_convert, 7500, 75000), Suite("integer", s_integer, 900, 9000),
          Suite("rho", s_rho, 3000, 30000), Suite("default", s_default, 900, 9000)]
