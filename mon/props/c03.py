"""C03: power is conserved, passive structures never amplify."""
import math

import numpy as np

import elli
from .. import gen
from ..core import Skip, Suite
from ..drive import evaluate
from ..ref import optics

PROPERTY = "C03"
RULE = (
    "random lossless and passive stacks (isotropic, birefringent, twisted, mixtures, gyrotropic) "
    "evaluated by both solvers; the power balance of p, s, L, R (reflectance and transmittance "
    "matrices) and of random elliptical incident states (Jones matrices with independently computed "
    "power factors) is monitored; non-trivial = at least one balance checked"
)
ASSUMPTIONS = [
    "transmittance is judged for optically isotropic exit media only (the package documents no power "
    "normalisation for anisotropic exits); the incidence medium is lossless",
    "structures whose evanescent growth exceeds e^8 are judged with the 2x2 solver only",
]
REACH = {"lossless balance": 100, "passive balance": 100, "total reflection": 10,
         "absorbing exit": 30, "cross-polarising": 30}


class Gyro:
    """Lossless magneto-optic medium (hermitian tensor) as a user-defined material."""
    isotropic = False
    lossless = True

    class M(elli.Material):
        def __init__(self, t):
            self.t = t

        def get_tensor(self, lbda):
            return np.repeat(self.t[None], np.atleast_1d(lbda).size, axis=0)

    def __init__(self, rng):
        a = rng.normal(size=(3, 3)) * 0.3
        g = rng.normal(size=(3, 3)) * 0.3
        self.t = a + a.T + np.diag(rng.uniform(2, 5, 3)) + 1j * (g - g.T)

    def obj(self):
        return self.M(self.t)

    def tensor(self, lbda):
        return np.repeat(self.t[None], np.atleast_1d(lbda).size, axis=0)

    def info(self):
        return {"gyro": self.t}


def layers(rng, lossless, iso, n):
    out = []
    for _ in range(n):
        d = gen.thickness(rng, 250)
        ll = True if lossless else None
        u = rng.random()
        if iso or u < 0.25:
            if u < 0.12 and not lossless:
                out.append(gen.Lay(gen.mat_metal(rng), float(rng.uniform(1, 25))))
            elif u < 0.2:
                out.append(gen.Lay(gen.mix_iso(rng, ll, hi=3, kmax=0.5), d))
            else:
                out.append(gen.Lay(gen.mat_iso(rng, lossless=ll, hi=3, kmax=0.5), d))
        elif u < 0.35:
            out.append(gen.Twist(gen.mat_aniso(rng, ll, kmax=0.3), d, rng.size_of(range(1, 6), 100, tail=0.02),
                                 float(rng.uniform(-360, 360))))
        elif u < 0.45:
            out.append(gen.Lay(Gyro(rng), d))
        else:
            out.append(gen.Lay(gen.mat_aniso(rng, ll, kmax=0.3), d))
    if iso and rng.random() < 0.2:
        out = [gen.Rep(out or [gen.Lay(gen.mat_iso(rng, lossless=True), 50.0)],
                       rng.size_of(range(1, 5), 60, tail=0.02), 0, 0)]
    return out


def factors(front, back, lb, theta):
    """Power per |amplitude|^2 of transmitted p and s waves over that of incidence."""
    ef, eb = front.axes(lb)[0], back.axes(lb)[0]
    nf, nb = np.sqrt(ef).real, np.sqrt(np.asarray(eb, complex))
    s = nf * math.sin(math.radians(theta))
    c = nf * math.cos(math.radians(theta))
    q = optics.fwd(np.sqrt(eb - s * s))
    if np.min(np.abs(q)) < 1e-3:
        raise Skip()
    # s: Re(q)|E|^2 ; p: H_y = n E, E_x = q/eb H_y -> Re(q/eb)|n|^2 |E|^2
    return np.stack([(q / eb).real * np.abs(nb) ** 2 / c, q.real / c], -1), q


def states(rng, n=4):
    v = rng.normal(size=(n, 2)) + 1j * rng.normal(size=(n, 2))
    v = np.vstack([v, [[1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j]]])
    return v / np.linalg.norm(v, axis=1)[:, None]


def balance(case, front, lay, back, lobj, lb, theta, lossless, iso):
    case.describe(front=front.info(), layers=[L.info() for L in lay], back=back.info(),
                  lbda=lobj, theta=theta)
    fac, q = factors(front, back, lb, theta)
    att = optics.attenuation(front.axes(lb)[0], gen.permittivity_stack(lay, lb), lb, theta)
    tir = (np.abs(q.real) < 1e-12).all()
    plan = []
    if iso:
        plan.append(("2x2", None))
    if att < 8:
        plan += [("4x4", p) for p in ([None, "scipy"] if case.rng.random() < 0.3 else [None])]
    if not plan:
        raise Skip()
    struct = elli.Structure(front.obj(), [L.build() for L in lay], back.obj())
    tol0 = 1e-10
    for solver, prop in plan:
        tol = tol0 + (1e-13 * math.exp(2 * att) if solver == "4x4" else 0)
        r = evaluate(case, struct, lobj, theta, solver, prop)
        name = solver
        rm, tm, rc, tc = r.R_matrix, r.T_matrix, r.Rc_matrix, r.Tc_matrix
        n = len(lb)
        for a, nm in ((rm, "R_matrix"), (tm, "T_matrix"), (rc, "Rc_matrix"), (tc, "Tc_matrix")):
            case.shape(a, (n, 2, 2), nm)
            case.check(np.isrealobj(a) or np.max(np.abs(np.imag(a))) < 1e-12, f"{nm} is not real")
            case.check(np.isfinite(a).all(), f"{nm} not finite")
            case.check((np.real(a) >= -tol).all(), f"{name}: negative entry in {nm}")
        jr, jt = r.jones_matrix_r, r.jones_matrix_t
        pol = states(case.rng)
        rr = np.sum(np.abs(np.einsum("nij,kj->nki", jr, pol)) ** 2, -1)
        tt = np.einsum("nki,ni->nk", np.abs(np.einsum("nij,kj->nki", jt, pol)) ** 2, fac)
        cross = float(np.max(np.abs(rm[:, 0, 1]) + np.abs(rm[:, 1, 0])))
        if cross > 1e-4:
            case.event("cross-polarising")
        # the matrices must carry the same powers as the amplitudes with physical factors
        case.close(rm, np.abs(jr) ** 2, f"{name}: R_matrix", rtol=1e-9, atol=tol)
        case.close(tm, np.abs(jt) ** 2 * fac[:, :, None], f"{name}: T_matrix", rtol=1e-8, atol=tol)
        cols = rm.sum(1) + tm.sum(1)
        colc = rc.sum(1) + tc.sum(1)
        every = rr + tt
        if lossless:
            case.event("lossless balance", every.size)
            case.close(every, np.ones_like(every), f"{name}: R+T of a lossless structure", rtol=0, atol=tol)
            case.close(cols, np.ones_like(cols), f"{name}: R+T (p, s columns)", rtol=0, atol=tol)
            case.close(colc, np.ones_like(colc), f"{name}: R+T (L, R columns)", rtol=0, atol=tol)
        else:
            case.event("passive balance", every.size)
            for a, nm in ((every, "incident states"), (cols, "p/s columns"), (colc, "circular columns")):
                case.check((a <= 1 + tol).all() and (a >= -tol).all(),
                           f"{name}: R+T of a passive structure is {np.max(a)} ({nm})")
        if not back.lossless:
            case.event("absorbing exit")
        if not lay and back.isotropic:
            case.close(cols, np.ones_like(cols), f"{name}: R+T at a bare interface", rtol=0, atol=tol)
            case.close(colc, np.ones_like(colc), f"{name}: R+T at a bare interface (circular)",
                       rtol=0, atol=tol)
        if tir:
            case.event("total reflection")
            case.close(tm, np.zeros_like(tm), f"{name}: T under total reflection", rtol=0, atol=tol)
            case.close(tc, np.zeros_like(tc), f"{name}: Tc under total reflection", rtol=0, atol=tol)
        if cross < 1e-13 and float(np.max(np.abs(jt[:, 0, 1]) + np.abs(jt[:, 1, 0]))) < 1e-13:
            # one power balance in every representation
            case.close(r.R, rm.sum(1).mean(1), f"{name}: R against R_matrix", atol=tol)
            case.close(r.T, tm.sum(1).mean(1), f"{name}: T against T_matrix", atol=tol)
            case.close(rc.sum(1), np.stack([r.R, r.R], -1), f"{name}: Rc against R", atol=tol)
            case.close(tc.sum(1), np.stack([r.T, r.T], -1), f"{name}: Tc against T", atol=tol)


def setup(case, hi_front=2.5):
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, lo=300)
    return rng, lobj, lb, gen.angle(rng, 88.0), gen.mat_iso(rng, lossless=True, hi=hi_front)


def s_lossless_iso(case):
    rng, lobj, lb, th, front = setup(case)
    balance(case, front, layers(rng, True, True, rng.size_of(range(7), 40, 0, tail=0.02)),
            gen.disguise(rng, gen.mat_iso(rng, lossless=True)), lobj, lb, th, True, True)


def s_lossless_aniso(case):
    rng, lobj, lb, th, front = setup(case)
    balance(case, front, layers(rng, True, False, int(rng.integers(1, 5))),
            gen.disguise(rng, gen.mat_iso(rng, lossless=True)), lobj, lb, th, True, False)


def s_passive_iso(case):
    rng, lobj, lb, th, front = setup(case)
    lay = layers(rng, False, True, int(rng.integers(0, 6)))
    back = gen.mat_metal(rng) if rng.random() < 0.3 else gen.disguise(rng, gen.mat_iso(rng))
    balance(case, front, lay, back, lobj, lb, th, False, True)


def s_passive_aniso(case):
    rng, lobj, lb, th, front = setup(case)
    back = gen.mat_metal(rng) if rng.random() < 0.2 else gen.disguise(rng, gen.mat_iso(rng))
    balance(case, front, layers(rng, False, False, int(rng.integers(1, 5))), back,
            lobj, lb, th, False, False)


def s_interface(case):
    """Bare interfaces into anything isotropic."""
    rng, lobj, lb, th, front = setup(case, 3.5)
    back = gen.mat_metal(rng) if rng.random() < 0.3 else gen.disguise(rng, gen.mat_iso(rng))
    balance(case, front, [], back, lobj, lb, th, False, True)


def s_tir(case):
    """Dense incidence medium beyond the critical angle, also through layers."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, lo=300)
    nf = float(rng.uniform(1.5, 3.5))
    front = gen.Mat("iso", [gen.Disp("ConstantRefractiveIndex", {"n": nf}, lossless=True)])
    nb = float(rng.uniform(1.0, 0.8 * nf))
    back = gen.Mat("iso", [gen.Disp("ConstantRefractiveIndex", {"n": nb}, lossless=True)])
    crit = math.degrees(math.asin(nb / nf))
    th = float(rng.uniform(crit + 2, 88))
    iso = bool(rng.random() < 0.5)
    lay = layers(rng, True, iso, int(rng.integers(0, 3)))
    for L in lay:
        if hasattr(L, "d"):
            L.d = L.d / 4
    balance(case, front, lay, back, lobj, lb, th, True, iso)


def s_aniso_exit(case):
    """Only reflection can be judged: no passive sample reflects more than it receives."""
    rng, lobj, lb, th, front = setup(case)
    lay = layers(rng, False, False, int(rng.integers(0, 3)))
    back = gen.mat_aniso(rng)
    att = optics.attenuation(front.axes(lb)[0], gen.permittivity_stack(lay, lb), lb, th)
    if att > 8:
        raise Skip()
    case.describe(front=front.info(), layers=[L.info() for L in lay], back=back.info(),
                  lbda=lobj, theta=th)
    kx = np.sqrt(front.axes(lb)[0]) * math.sin(math.radians(th))
    q, v = np.linalg.eig(optics.q_np(kx, back.tensor(lb)))
    if np.max(np.linalg.cond(v)) > 1e5 or ((np.abs(q.imag) > 1e-12) & (np.abs(q.imag) < 1e-8)).any():
        raise Skip()
    r = evaluate(case, elli.Structure(front.obj(), [L.build() for L in lay], back.obj()), lobj, th)
    pol = states(rng)
    rr = np.sum(np.abs(np.einsum("nij,kj->nki", r.jones_matrix_r, pol)) ** 2, -1)
    tol = 1e-8 + 1e-13 * math.exp(2 * att)
    case.event("passive balance", rr.size)
    case.check((rr <= 1 + tol).all(), f"reflectance {np.max(rr)} of a passive sample")
    for m in (r.R_matrix, r.Rc_matrix):
        case.check((m >= 0).all() and (m.sum(1) <= 1 + tol).all(), "reflectance columns exceed 1")


SUITES = [
    Suite("lossless_iso", s_lossless_iso, 2400, 24000),
    Suite("lossless_aniso", s_lossless_aniso, 2400, 24000),
    Suite("passive_iso", s_passive_iso, 2400, 24000),
    Suite("passive_aniso", s_passive_aniso, 2400, 24000),
    Suite("interface", s_interface, 720, 7200),
    Suite("tir", s_tir, 600, 6000),
    Suite("aniso_exit", s_aniso_exit, 600, 6000),
]
