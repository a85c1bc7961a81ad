"""C06: every representation of a result describes the same Jones matrices."""
import math

import numpy as np

import elli
from .. import gen
from ..core import Skip, Suite
from ..ref import optics
from ..samples import polarization, sample, stokes_of

PROPERTY = "C06"
RULE = (
    "simulated samples (both solvers, iso- and anisotropic) and results built from random Jones "
    "matrices, every documented quantity and every named element recomputed elementwise from the "
    "Jones matrices; non-trivial = a full set of quantities compared"
)
REACH = {"named elements": 3000, "mueller": 200, "states propagated": 500, "unknown names": 200}

PS = {"p": 0, "s": 1, "1": 0, "2": 1}
LR = {"L": 0, "R": 1}


def circ_in():
    """Columns: L and R basis states in (p, s)."""
    return np.array([[1, 1], [1j, -1j]]) / math.sqrt(2)


def circ_out_r():
    return np.array([[-1, -1], [-1j, 1j]]) / math.sqrt(2)


def rho_red(m, v):
    x = m[:, 0, 0] * v[0] + m[:, 0, 1] * v[1]
    y = m[:, 1, 0] * v[0] + m[:, 1, 1] * v[1]
    return x / y


def wrap(d):
    return (d + 180) % 360 - 180


def judge(case, r, jr, jt, vec, fac=None):
    """Every quantity of r from its Jones matrices jr, jt (own arrays), incident vec."""
    n = len(jr)
    case.close(r.jones_matrix_r, jr, "jones_matrix_r", rtol=1e-12, atol=0)
    case.close(r.jones_matrix_t, jt, "jones_matrix_t", rtol=1e-12, atol=0)
    for j, sfx in ((jr, ""), (jt, "_t")):
        rho = getattr(r, "rho" + sfx)
        want = rho_red(j, vec)
        if np.max(np.abs(want)) > 1e6 or not np.isfinite(want).all():
            case.event("ill-conditioned rho skipped")
        else:
            case.shape(rho, (n,), "rho" + sfx)
            case.close(rho, want, "rho" + sfx, rtol=1e-9, atol=1e-9)
            psi, delta = getattr(r, "psi" + sfx), getattr(r, "delta" + sfx)
            case.close(psi, np.degrees(np.arctan(np.abs(want))), "psi" + sfx, rtol=0, atol=1e-6)
            case.check((psi >= 0).all() and (psi <= 90).all(), "psi within 0..90")
            ok = np.abs(want) > 1e-6
            case.close(wrap(delta + np.degrees(np.angle(want)))[ok], np.zeros(ok.sum()),
                       "delta" + sfx, rtol=0, atol=1e-5)
            case.close((np.tan(np.radians(psi)) * np.exp(-1j * np.radians(delta)))[ok], rho[ok],
                       "rho = tan(psi) exp(-i delta)" + sfx, rtol=1e-6, atol=1e-6)
        if np.min(np.abs(j[:, 1, 1]) / np.max(np.abs(j), axis=(1, 2))) > 1e-6:
            m = j / j[:, 1, 1][:, None, None]
            sc = float(np.max(np.abs(m)))
            rm = getattr(r, "rho_matrix" + sfx)
            case.shape(rm, (n, 2, 2), "rho_matrix" + sfx)
            case.close(rm, m, "rho_matrix" + sfx, rtol=1e-9, atol=1e-12 * sc)
            case.close(getattr(r, "psi_matrix" + sfx), np.degrees(np.arctan(np.abs(m))),
                       "psi_matrix" + sfx, rtol=0, atol=1e-6)
            dm = getattr(r, "delta_matrix" + sfx)
            big = np.abs(m) > 1e-6
            case.close(wrap(dm + np.degrees(np.angle(m)))[big], np.zeros(big.sum()),
                       "delta_matrix" + sfx, rtol=0, atol=1e-5)
    # Mueller matrix: propagate Stokes vectors of random states
    if np.min(np.abs(jr[:, 1, 1]) / np.max(np.abs(jr), axis=(1, 2))) > 1e-6:
        mm = r.mueller_matrix
        case.shape(mm, (n, 4, 4), "mueller_matrix")
        case.check(np.isrealobj(mm), "Mueller matrix not real")
        case.event("mueller")
        norm = np.sum(np.abs(jr) ** 2, axis=(1, 2)) / 2
        case.close(mm[:, 0, 0], np.ones(n), "M11", rtol=0, atol=1e-12)
        for _ in range(4):
            e = polarization(case.rng)
            out = np.einsum("nij,j->ni", jr, e)
            want = np.array([stokes_of(o) for o in out]) / norm[:, None]
            got = np.einsum("nij,j->ni", mm, stokes_of(e))
            case.event("states propagated", n)
            case.close(got, want, "Mueller matrix applied to a Stokes vector", rtol=0,
                       atol=1e-9 * (1 + float(np.max(np.abs(want)))))
    # circular and power quantities
    rc = np.einsum("ij,njk,kl->nil", np.linalg.inv(circ_out_r()), jr, circ_in())
    tc = np.einsum("ij,njk,kl->nil", np.linalg.inv(circ_in()), jt, circ_in())
    case.close(r.jones_matrix_rc, rc, "jones_matrix_rc", rtol=0, atol=1e-12 * np.max(np.abs(jr), axis=(1, 2))[:, None, None])
    case.close(r.jones_matrix_tc, tc, "jones_matrix_tc", rtol=0, atol=1e-12 * np.max(np.abs(jt), axis=(1, 2))[:, None, None])
    case.close(r.R_matrix, np.abs(jr) ** 2, "R_matrix", rtol=1e-11, atol=0)
    case.close(r.Rc_matrix, np.abs(rc) ** 2, "Rc_matrix", rtol=1e-10, atol=1e-12 * np.max(np.abs(jr) ** 2, axis=(1, 2))[:, None, None])
    case.close(r.R, (np.abs(jr[:, 0, 0]) ** 2 + np.abs(jr[:, 1, 1]) ** 2) / 2, "R", rtol=1e-11, atol=0)
    if fac is not None:
        tiny = 1e-12 * np.abs(jt) ** 2
        case.close(r.T_matrix, np.abs(jt) ** 2 * fac[:, :, None], "T_matrix", rtol=1e-8, atol=tiny)
        case.close(r.T, (np.abs(jt[:, 0, 0]) ** 2 * fac[:, 0] + np.abs(jt[:, 1, 1]) ** 2 * fac[:, 1]) / 2,
                   "T", rtol=1e-8, atol=tiny[:, 0, 0] + tiny[:, 1, 1])
        jp = jt * np.sqrt(fac.astype(complex))[:, :, None]
        tcm = np.abs(np.einsum("ij,njk,kl->nil", np.linalg.inv(circ_in()), jp, circ_in())) ** 2
        case.close(r.Tc_matrix, tcm, "Tc_matrix", rtol=1e-8, atol=1e-11 * np.sum(np.abs(jt) ** 2 + np.abs(jp) ** 2, axis=(1, 2))[:, None, None])
    elements(case, r)


MATS = {
    "psi": "psi_matrix", "delta": "delta_matrix", "rho": "rho_matrix",
    "Ψ": "psi_matrix", "Δ": "delta_matrix", "ρ": "rho_matrix",
    "r": "jones_matrix_r", "t": "jones_matrix_t", "R": "R_matrix", "T": "T_matrix",
    "psi_matrix": "psi_matrix", "delta_matrix_t": "delta_matrix_t", "rho_matrix_t": "rho_matrix_t",
    "jones_matrix_r": "jones_matrix_r", "jones_matrix_t": "jones_matrix_t",
    "R_matrix": "R_matrix", "T_matrix": "T_matrix", "psi_matrix_t": "psi_matrix_t",
    "delta_matrix": "delta_matrix", "rho_matrix": "rho_matrix",
}
CIRC = {
    "r": "jones_matrix_rc", "t": "jones_matrix_tc", "R": "Rc_matrix", "T": "Tc_matrix",
    "rc": "jones_matrix_rc", "tc": "jones_matrix_tc", "Rc": "Rc_matrix", "Tc": "Tc_matrix",
    "jones_matrix_rc": "jones_matrix_rc", "Tc_matrix": "Tc_matrix", "Rc_matrix": "Rc_matrix",
    "jones_matrix_tc": "jones_matrix_tc",
}
WHOLE = {
    "psi": "psi", "Ψ": "psi", "Δ": "delta", "ρ": "rho", "r": "jones_matrix_r", "t": "jones_matrix_t",
    "rc": "jones_matrix_rc", "tc": "jones_matrix_tc", "Rc": "Rc_matrix", "Tc": "Tc_matrix",
}
BAD = ["foo", "psi_xy", "psi_pq", "r_", "r_p", "r_psp", "x_pp", "mueller", "mueller_matrix_55",
       "Psi_pp", "rho_33", "jones", "q_sp", "R_ab", "delta_tt", "sigma", "T_Rp_", "rc_LX"]


def get(case, r, name):
    return getattr(r, name) if case.rng.random() < 0.5 else r.get(name)


def elements(case, r):
    rng = case.rng
    n = len(r.jones_matrix_r)
    finite = np.min(np.abs(r.jones_matrix_r[:, 1, 1])) > 0 and np.min(np.abs(r.jones_matrix_t[:, 1, 1])) > 0
    for table, idx in ((MATS, PS), (CIRC, LR)):
        for base, prop in table.items():
            if not finite and ("psi" in prop or "delta" in prop or "rho" in prop):
                continue
            i, j = rng.choice(list(idx), 2)
            if table is MATS and i in "12":
                j = rng.choice(["1", "2"])
            got = get(case, r, f"{base}_{i}{j}")
            want = getattr(r, prop)[:, idx[i], idx[j]]
            case.event("named elements")
            case.shape(got, (n,), f"{base}_{i}{j}")
            case.check(np.array_equal(got, want, equal_nan=True), f"{base}_{i}{j} is not its matrix element")
    for name, prop in WHOLE.items():
        case.event("named elements")
        case.check(np.array_equal(get(case, r, name), getattr(r, prop), equal_nan=True),
                   f"{name} differs from {prop}")
    for _ in range(4):
        i, j = rng.integers(1, 5, 2)
        case.event("named elements")
        case.check(np.array_equal(get(case, r, f"mueller_matrix_{i}{j}"), r.mueller_matrix[:, i - 1, j - 1],
                                  equal_nan=True), f"mueller_matrix_{i}{j}")
    bad = BAD[rng.integers(len(BAD))]
    case.event("unknown names")
    case.raises((AttributeError, ValueError, IndexError, TypeError), lambda: get(case, r, bad),
                f"unknown name {bad}")


def s_simulated(case):
    vec = None if case.rng.random() < 0.3 else polarization(case.rng)
    r, s = sample(case, vector=vec)
    v = np.array([1, 1]) / math.sqrt(2) if vec is None else vec
    lb, th = s["lb"], s["theta"]
    ef, eb = s["front"].axes(lb)[0], s["back"].axes(lb)[0]
    nf = np.sqrt(ef).real
    q = optics.fwd(np.sqrt(eb - (nf * math.sin(math.radians(th))) ** 2))
    if np.min(np.abs(q)) < 1e-2:
        raise Skip()
    c = nf * math.cos(math.radians(th))
    fac = np.stack([(q / eb).real * np.abs(eb) / c, q.real / c], -1)
    case.describe(**s["info"])
    judge(case, r, r.jones_matrix_r.copy(), r.jones_matrix_t.copy(), v, fac)


def s_random(case):
    """Results made from arbitrary Jones matrices (singular, diagonal, huge dynamic range)."""
    rng = case.rng
    n = rng.size_of(range(1, 5), 300)
    jr, jt = (rng.normal(size=(2, n, 2, 2)) + 1j * rng.normal(size=(2, n, 2, 2)))
    u = rng.random()
    if u < 0.2:
        jr[:, 0, 1] = jr[:, 1, 0] = 0
    elif u < 0.3:
        jr = np.real(jr).astype(complex)
    elif u < 0.4:
        jr *= 10.0 ** rng.integers(-6, 3, (n, 1, 1))
    elif u < 0.5:      # hardly anything gets through
        jt *= 10.0 ** rng.integers(-60, 2, (n, 1, 1))
        jr *= 10.0 ** rng.integers(-20, 1, (n, 1, 1))
    fac = rng.uniform(0.1, 2, n)
    vec = polarization(rng)
    lb = rng.uniform(300, 900, n)
    st = elli.Structure(elli.AIR, [], elli.AIR)
    exp = elli.Experiment(st, lb, 60, vec)
    case.describe(jr=jr, jt=jt, vector=vec)
    from elli.result import Result
    if rng.random() < 0.3:
        r, f2 = Result(exp, jr.copy(), jt.copy()), np.ones((n, 2))
    else:
        r, f2 = Result(exp, jr.copy(), jt.copy(), fac), np.stack([fac, fac], -1)
    judge(case, r, jr, jt, vec, f2)


SUITES = [Suite("simulated", s_simulated, 4800, 48000), Suite("random", s_random, 3600, 36000)]
