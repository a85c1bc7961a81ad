"""C12: material tensors place each dispersion on its axis."""
import numpy as np

import elli
from .. import gen
from ..core import Suite
from ..wide import MODELS, wide_disp

PROPERTY = "C12"
RULE = (
    "isotropic, uniaxial and biaxial materials over every dispersion model, unrotated and rotated (Euler, "
    "axis-angle, rotation vector, arbitrary orthogonal matrices), after sequences of set_dispersion and "
    "set_rotation calls; tensors compared with R diag(x, y, z) R^T of independently evaluated formulas "
    "and with the dispersions' own values"
)
REACH = {"tensors": 1500, "rotated tensors": 500, "setter replaced": 300, "index tensors": 300, "own values": 300, "AIR": 10}


def own_tensor(axes, rot):
    n = len(axes[0])
    t = np.zeros((n, 3, 3), complex)
    r = np.eye(3) if rot is None else rot
    for k in range(3):
        t += axes[k][:, None, None] * np.multiply.outer(r[:, k], r[:, k])
    return t


def judge(case, m, axes, rot, lobj, n, what, own=False):
    got = m.get_tensor(lobj)
    case.event("tensors")
    case.shape(got, (n, 3, 3), what)
    case.check(np.asarray(got).dtype == np.complex128, f"{what}: dtype {np.asarray(got).dtype}")
    want = own_tensor(axes, rot)
    scale = float(np.max(np.abs(want)))
    case.close(got, want, f"{what} tensor", rtol=1e-9, atol=1e-10 * scale)
    case.close(got, np.transpose(got, (0, 2, 1)), f"{what}: tensor is not symmetric", rtol=0, atol=1e-12 * scale)
    case.close(np.trace(got, axis1=1, axis2=2), sum(axes), f"{what}: trace", rtol=1e-9, atol=1e-10 * scale)
    case.close(np.linalg.det(got / scale), axes[0] * axes[1] * axes[2] / scale**3, f"{what}: product of principal values",
               rtol=1e-8, atol=1e-9)
    if rot is None:
        if own:      # the dispersions' own values, however small a part of them is
            d, a = np.diagonal(got, axis1=1, axis2=2), np.stack(axes, 1)
            case.close(d.real, a.real, f"{what}: real parts", rtol=1e-13, atol=0)
            case.close(d.imag, a.imag, f"{what}: imaginary parts", rtol=1e-13, atol=0)
            case.event("own values")
        off = got[:, ~np.eye(3, dtype=bool)]
        case.check(not off.any(), f"{what}: off-diagonal elements without a rotation")
        nn = m.get_refractive_index(lobj)
        case.event("index tensors")
        case.shape(nn, (n, 3, 3), f"{what} index")
        d = np.diagonal(nn, axis1=1, axis2=2)
        case.close(d**2, np.stack(axes, 1), f"{what}: index tensor squared", rtol=1e-9, atol=1e-10 * scale)
        case.check(bool((d.real >= -1e-12).all()), f"{what}: index with negative real part")
        case.check(not nn[:, ~np.eye(3, dtype=bool)].any(), f"{what}: off-diagonal index")
    else:
        case.event("rotated tensors")
        if np.abs(np.stack(axes).imag).max() == 0:
            for k in range(n):
                ev = np.sort(np.linalg.eigvalsh(got[k].real))
                case.close(ev, np.sort([a[k].real for a in axes]), f"{what}: principal values", rtol=1e-9, atol=1e-10 * scale)


def construct(kind, ds):
    if kind == "iso":
        return elli.IsotropicMaterial(*ds)
    return (elli.UniaxialMaterial if kind == "uni" else elli.BiaxialMaterial)(*ds)


ORDER = {"iso": [0, 0, 0], "uni": [0, 0, 1], "bi": [0, 1, 2]}


def any_rotation(rng):
    """(matrix handed over, own matrix)"""
    u = rng.integers(6)
    if u == 0:
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        return q, q
    if u == 1:
        p = np.eye(3)[rng.permutation(3)]
        return p, p
    r = gen.rotation(rng)
    return getattr(elli, r[0])(*r[1]), r[2]


def s_formula(case):
    """Dispersions with independently evaluated formulas."""
    rng = case.rng
    kind = ["iso", "uni", "bi"][case.index % 3]
    k = {"iso": 1, "uni": 2, "bi": 3}[kind]
    lobj, lb = gen.wavelengths(rng)
    specs = [gen.disp(rng) for _ in range(k)]
    m = construct(kind, [d.build() for d in specs])
    case.describe(kind=kind, disps=[d.info() for d in specs], lbda=lobj)
    rot = None
    hist = []
    for step in range(int(rng.integers(1, 6))):
        axes = [np.broadcast_to(specs[i].eps(lb), lb.shape) for i in ORDER[kind]]
        judge(case, m, axes, rot, lobj, len(lb), f"{kind} after {hist}")
        if rng.random() < 0.5:
            q, rot = any_rotation(rng)
            m.set_rotation(q)
            hist.append("set_rotation")
        else:
            specs = [gen.disp(rng) for _ in range(k)]
            m.set_dispersion(*[d.build() for d in specs])
            hist.append("set_dispersion")
        case.event("setter replaced")
    axes = [np.broadcast_to(specs[i].eps(lb), lb.shape) for i in ORDER[kind]]
    judge(case, m, axes, rot, lobj, len(lb), f"{kind} after {hist}")


def s_models(case):
    """Every model on every axis, by the dispersions' own values."""
    rng = case.rng
    names = list(MODELS)
    kind = ["iso", "uni", "bi"][case.index % 3]
    k = {"iso": 1, "uni": 2, "bi": 3}[kind]
    picked = [names[(case.index // 3 + 5 * j) % len(names)] for j in range(k)]
    ds = [wide_disp(rng, p) for p in picked]
    lb = rng.uniform(250, 1900, rng.size_of(range(1, 6), 200))
    if rng.random() < 0.2:      # very weakly absorbing
        ds[0] = elli.ConstantRefractiveIndex(complex(rng.uniform(1.2, 3), 10.0 ** -rng.uniform(4, 14)))
        picked[0] = "weakly absorbing"
    case.describe(kind=kind, models=picked, lbda=lb)
    m = ds[0].get_mat() if kind == "iso" and rng.random() < 0.5 else construct(kind, ds)
    if kind == "iso":
        case.check(isinstance(m, elli.IsotropicMaterial), "get_mat gives an isotropic material")
    axes = [np.broadcast_to(np.asarray(ds[i].get_dielectric(lb)), lb.shape) for i in ORDER[kind]]
    rot = None
    if rng.random() < 0.5:
        q, rot = any_rotation(rng)
        m.set_rotation(q)
    judge(case, m, axes, rot, lb, len(lb), f"{kind} of {picked}", own=True)
    # the dispersions given are found on their axes
    for a, i in zip("xyz", ORDER[kind]):
        case.check(getattr(m, "dispersion_" + a) is ds[i], f"dispersion_{a} of {kind}")
    # keyword construction
    if kind == "uni":
        m2 = elli.UniaxialMaterial(dispersion_e=ds[1], dispersion_o=ds[0])
        judge(case, m2, axes, None, lb, len(lb), "uniaxial by keyword", own=True)
    elif kind == "bi":
        m2 = elli.BiaxialMaterial(dispersion_z=ds[2], dispersion_x=ds[0], dispersion_y=ds[1])
        judge(case, m2, axes, None, lb, len(lb), "biaxial by keyword", own=True)


def s_shared(case):
    """Materials sharing dispersions stay independent in rotation."""
    rng = case.rng
    a, b = gen.disp(rng), gen.disp(rng)
    da, db = a.build(), b.build()
    lobj, lb = gen.wavelengths(rng)
    case.describe(a=a.info(), b=b.info(), lbda=lobj)
    m1, m2, m3 = elli.UniaxialMaterial(da, db), elli.UniaxialMaterial(da, db), elli.UniaxialMaterial(db, da)
    q, rot = any_rotation(rng)
    m1.set_rotation(q)
    ea, eb = (np.broadcast_to(d.eps(lb), lb.shape) for d in (a, b))
    judge(case, m2, [ea, ea, eb], None, lobj, len(lb), "second material")
    judge(case, m1, [ea, ea, eb], rot, lobj, len(lb), "rotated material")
    judge(case, m3, [eb, eb, ea], None, lobj, len(lb), "exchanged material")
    judge(case, elli.AIR, [np.ones(len(lb), complex)] * 3, None, lobj, len(lb), "AIR")
    case.event("AIR")


SUITES = [
    Suite("formula", s_formula, 6000, 60000),
    Suite("models", s_models, 3120, 31200),
    Suite("shared", s_shared, 1200, 12000),
]
