"""C02: anisotropic multilayers: the full Jones matrices are the Maxwell solution."""
import numpy as np

import elli
from .. import gen
from ..core import Skip, Suite
from ..drive import evaluate
from ..ref import optics

PROPERTY = "C02"
RULE = (
    "random stacks mixing isotropic, uniaxial and biaxial (arbitrarily rotated, lossless and "
    "absorbing), twisted and user-defined (gyrotropic, non-symmetric) media, isotropic or "
    "anisotropic exit, every propagator; each wavelength is compared with a multi-precision "
    "boundary-value solution; non-trivial = at least one such comparison"
)
ASSUMPTIONS = [
    "for an anisotropic exit half-space only the reflection Jones matrix is judged: the "
    "package documents no normalisation for its transmitted eigenmodes",
    "stacks whose evanescent growth exceeds e^10 per pass are outside double precision",
]
REACH = {"oracle decisions": 300, "cross-polarised": 100, "anisotropic exit": 40,
         "lossless anisotropic exit": 15}


class Custom(elli.Material):
    """A user-defined material with a fixed arbitrary tensor (dispersive: scaled by f(l))."""

    def __init__(self, t, slope):
        self.t, self.slope = np.asarray(t, complex), slope

    def get_tensor(self, lbda):
        lb = np.atleast_1d(np.asarray(lbda, float))
        return (1 + self.slope * (lb[:, None, None] - 600) / 1000) * self.t[None]


class CustomSpec:
    isotropic = False
    shared = False

    def __init__(self, rng):
        a = rng.normal(size=(3, 3)) * 0.4
        re = a + a.T + np.diag(rng.uniform(2, 5, 3))
        u = rng.random()
        self.kind = "gyro" if u < 0.4 else "general"
        if u < 0.4:      # lossless hermitian (magneto-optic)
            g = rng.normal(size=(3, 3)) * 0.3
            self.t = re + 1j * (g - g.T)
        else:
            self.t = re + 0.2 * rng.normal(size=(3, 3)) + 1j * 0.2 * np.abs(rng.normal(size=(3, 3)))
        self.slope = float(rng.uniform(-0.2, 0.2))

    lossless = False

    def build(self):
        return Custom(self.t, self.slope)

    obj = build

    def tensor(self, lbda):
        lb = np.atleast_1d(np.asarray(lbda, float))
        return np.array([(1 + self.slope * (w - 600) / 1000) * self.t for w in lb])

    def info(self):
        return {"custom": self.kind, "t": self.t}


def judge(case, front, layers, back, lobj, lb, theta, props):
    rng = case.rng
    case.describe(front=front.info(), layers=[L.info() for L in layers], back=back.info(),
                  lbda=lobj, theta=theta)
    st = gen.permittivity_stack(layers, lb)
    ef = front.axes(lb)[0]
    tb = back.tensor(lb)
    k0 = 2 * np.pi / lb
    ref, grow = [], []
    for i, w in enumerate(lb):
        kx = np.sqrt(ef[i]) * np.sin(np.deg2rad(theta))
        att, cond = 0.0, 1.0
        for d, t in st:
            q, v = optics.berreman_q(kx, t[i])
            att += float(np.max(np.abs(q.imag))) * k0[i] * float(d)
            cond = max(cond, np.linalg.cond(v))
        iso_exit = tb[i][0, 0] if back.isotropic else None
        if att > 10:
            raise Skip()
        ref.append(optics.aniso(ef[i], [(d, t[i]) for d, t in st], tb[i], w, theta, iso_exit))
        if back.isotropic and abs(iso_exit - kx * kx) < 1e-6:
            raise Skip()
        if not back.isotropic:
            q, v = optics.berreman_q(kx, tb[i])
            # distance between outgoing and incoming modes: near-critical exits are
            # ill-posed in floating point
            gap = ref[-1][2]
            if gap < 1e-9 or np.min(np.abs(q[:, None] - q[None] + 9 * np.eye(4))) < 1e-7 and (
                np.linalg.cond(v) > 1e6
            ):
                raise Skip()
            # nearly undamped modes: the direction test compares Im q with round-off
            if (np.abs(q.imag) < 1e-7).any() and (np.abs(q.imag) > 1e-12).any() and np.any(
                (np.abs(q.imag) > 1e-12) & (np.abs(q.imag) < 1e-8)
            ):
                raise Skip()
            cond = max(cond, np.linalg.cond(v))
        grow.append((att, cond))
    structure = elli.Structure(front.obj(), [L.build() for L in layers], back.obj())
    att = max(g[0] for g in grow)
    cond = max(g[1] for g in grow)
    for prop in props:
        if prop == "eig" and cond > 1e4:
            continue
        tol = 3e-11 + 1e-14 * np.exp(2 * att)
        if prop == "eig":
            tol += 1e-14 * cond**2 * (1 + len(st))
        r = evaluate(case, structure, lobj, theta, "4x4", prop)
        wr = np.array([x[0] for x in ref])
        if not back.isotropic:
            tol *= 1 + 1e-2 * cond
            case.event("anisotropic exit")
            if back.lossless:
                case.event("lossless anisotropic exit")
        sc = max(1.0, float(np.max(np.abs(wr))))
        case.shape(r.jones_matrix_r, (len(lb), 2, 2), "reflection Jones matrix")
        case.close(r.jones_matrix_r, wr, f"reflection ({prop})", rtol=tol, atol=tol * sc)
        if back.isotropic:
            wt = np.array([x[1] for x in ref])
            sc = max(1.0, float(np.max(np.abs(wt))))
            case.close(r.jones_matrix_t, wt, f"transmission ({prop})", rtol=tol, atol=tol * sc)
        if np.max(np.abs(wr[:, 0, 1])) > 1e-6:
            case.event("cross-polarised")
    del rng


PROPS = [None, "scipy", "torch", "eig"]


def some_layers(rng, nmax=4, absorbing=True, hi=250, custom=True):
    pal = [gen.mat_aniso(rng, lossless=None if absorbing else True, kmax=0.6) for _ in range(2)]
    pal.append(gen.mat_iso(rng, lossless=None if absorbing else True, kmax=0.6, hi=3))
    for m in pal:
        m.shared = bool(rng.random() < 0.4)
    out = []
    for _ in range(rng.integers(1, nmax + 1)):
        m = pal[rng.integers(3)]
        u = rng.random()
        if u < 0.12 and not m.isotropic:
            out.append(gen.Twist(m, float(rng.uniform(5, hi)), rng.size_of(range(1, 6), 40, tail=0.01),
                                 float(rng.uniform(-400, 400))))
        elif u < 0.25 and custom:
            out.append(gen.Lay(CustomSpec(rng), gen.thickness(rng, hi)))
        else:
            out.append(gen.Lay(m, gen.thickness(rng, hi)))
    return out


def s_iso_exit(case):
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=rng.size_of([1, 2, 3], 12, tail=0.01), lo=350)
    front = gen.mat_iso(rng, lossless=True, hi=1.6)
    judge(case, front, some_layers(rng), gen.disguise(rng, gen.mat_iso(rng)), lobj, lb, gen.angle(rng), PROPS)


def s_single(case):
    """One anisotropic plate, including optic-axis symmetric orientations."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=2, lo=350)
    m = gen.mat_aniso(rng, kmax=0.4)
    if rng.random() < 0.5:
        a = [float(x) for x in rng.choice([0, 45, 90, 180, 30], 3)]
        m.rot = ("rotation_euler", a, gen.rot_euler(*a))
    front = gen.mat_iso(rng, lossless=True, hi=2.5)
    judge(case, front, [gen.Lay(m, gen.thickness(rng, 600))],
          gen.disguise(rng, gen.mat_iso(rng)), lobj, lb, gen.angle(rng), PROPS)


def s_aniso_exit(case):
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=rng.size_of([1, 2, 3], 12, tail=0.01), lo=350)
    front = gen.mat_iso(rng, lossless=True, hi=2.2)
    back = gen.mat_aniso(rng, lossless=bool(rng.random() < 0.5))
    layers = some_layers(rng, 2) if rng.random() < 0.5 else []
    judge(case, front, layers, back, lobj, lb, gen.angle(rng), [None, "eig"])


def s_lossless_exit(case):
    """Transparent crystals as substrate: direction of undamped modes."""
    rng = case.rng
    front = gen.mat_iso(rng, lossless=True, hi=2.6)
    back = gen.mat_aniso(rng, lossless=True, lo=1.2, hi=2.8)
    if rng.random() < 0.4:
        a = [float(x) for x in rng.choice([0, 45, 90, 180], 3)]
        back.rot = ("rotation_euler", a, gen.rot_euler(*a))
    lobj, lb = gen.wavelengths(rng, n=3, lo=350)
    judge(case, front, [], back, lobj, lb, gen.angle(rng), [None])


class FieldSpec:
    """A user-defined substrate; the tensor of each wavelength is given by a function."""

    isotropic = False
    shared = False
    lossless = False

    def __init__(self, fun, **info):
        self.fun, self.about = fun, info

    def tensor(self, lbda):
        return np.array([self.fun(float(w)) for w in np.atleast_1d(np.asarray(lbda, float))], complex)

    def obj(self):
        spec = self

        class Substrate(elli.Material):
            def get_tensor(self, lbda):
                return spec.tensor(lbda)
        return Substrate()

    def info(self):
        return {"substrate": self.about}


def rotation(rng):
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    return q * np.linalg.det(q)


def s_weak_exit(case):
    """Substrates which are nearly, partly or only at some wavelengths isotropic."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=rng.size_of([1, 2, 3], 12, tail=0.01), lo=350)
    front = gen.mat_iso(rng, lossless=True, hi=2.2)
    n = rng.uniform(1.3, 4) + (1j * 10 ** rng.uniform(-3, 0) if rng.random() < 0.6 else 0)
    e, eye = n * n, np.identity(3)
    kind = case.index % 4
    if kind == 0:      # weakly anisotropic
        d = 10.0 ** -rng.uniform(1, 11)
        a = rng.normal(size=(3, 3))
        a = (a + a.T) * e / 2 if rng.random() < 0.8 else np.diag(rng.normal(size=3)) * e
        t = e * eye + d * a
        back = FieldSpec(lambda w: t, kind="weak", t=t)
    elif kind == 1:    # equal diagonal elements, all the anisotropy beside it
        x = np.array([1, 1, 1] if rng.random() < 0.5 else rng.choice([-1, 1], 3))
        t = e * eye + rng.uniform(-0.2, 0.2) * e * (np.outer(x, x) - eye)
        if rng.random() < 0.4:
            o = rng.uniform(-0.3, 0.3, 3) * np.abs(e) * (rng.random(3) < 0.5)
            t = e * eye + np.array([[0, o[0], o[1]], [o[0], 0, o[2]], [o[1], o[2], 0]])
        back = FieldSpec(lambda w: t, kind="equal diagonal", t=t)
    elif kind == 2:    # isotropic at one or some of the wavelengths
        lobj, lb = gen.wavelengths(rng, n=int(rng.integers(2, 7)), lo=350)
        r, m = rotation(rng), np.diag(rng.normal(size=3)) * e * 0.3
        some = [float(w) for w in lb if rng.random() < 0.5] or [float(lb[0])]
        a = r @ m @ r.T
        back = FieldSpec(lambda w: e * eye + (0 if w in some else 1) * a, kind="isotropic at", at=some, a=a, eps=e)
        case.event("partly isotropic")
    else:              # one axis much different, of either sign
        r = rotation(rng)
        loss = rng.choice([0, 1e-6, 1e-3, 0.1])
        ax = np.array([e.real, e.real * rng.uniform(0.8, 1.2), rng.choice([-1, 1]) * rng.uniform(0.3, 12)]) * (1 + 0j) + 1j * loss
        t = r @ np.diag(ax) @ r.T
        back = FieldSpec(lambda w: t, kind="one axis", t=t)
    case.event("substrate kind")
    layers = some_layers(rng, 2) if rng.random() < 0.4 else []
    judge(case, front, layers, back, lobj, lb, gen.angle(rng), [None])


def s_critical_exit(case):
    """Crystals next to the critical angle, with and without absorption."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=1, lo=350)
    ax = rng.uniform(1.2, 1.9, 3) ** 2
    if rng.random() < 0.4:
        ax[1] = ax[0]
    nf = float(rng.uniform(2.0, 4.0))
    front = gen.mat_iso(rng, lossless=True)
    nf = float(np.sqrt(front.axes(lb)[0][0].real))
    if nf < 1.95:
        ax *= (0.7 * nf) ** 2 / ax.max()
    k = rng.choice([1, 2])
    off = rng.choice([-1, 1]) * 10.0 ** -rng.uniform(1, 10)
    loss = rng.choice([0, 0, 10.0 ** -rng.uniform(1, 7)])
    theta = float(np.rad2deg(np.arcsin(np.sqrt(ax[k] * (1 + off)) / nf)))
    t = np.diag(ax * (1 + 1j * loss))
    if rng.random() < 0.4:      # a rotation in the plane of incidence or about z moves the other wave only
        b = rng.uniform(0, 2 * np.pi)
        r = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
        if k == 2:
            r = np.array([[np.cos(b), np.sin(b), 0], [-np.sin(b), np.cos(b), 0], [0, 0, 1]])
        t = r @ t @ r.T
    back = FieldSpec(lambda w: t, kind="critical", t=t)
    case.event("critical exit")
    judge(case, front, [], back, lobj, lb, theta, [None])


SUITES = [
    Suite("iso_exit", s_iso_exit, 600, 3300),
    Suite("single", s_single, 500, 2700),
    Suite("aniso_exit", s_aniso_exit, 400, 2400),
    Suite("lossless_exit", s_lossless_exit, 500, 3600),
    Suite("weak_exit", s_weak_exit, 500, 3600),
    Suite("critical_exit", s_critical_exit, 500, 4000),
]
