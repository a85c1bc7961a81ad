"""C05: rotations are proper; simulated results obey the spatial symmetries they imply."""
import math

import numpy as np

import elli
from elli import rotation_euler, rotation_v, rotation_v_theta
from .. import gen
from ..core import Skip, Suite
from ..drive import evaluate
from ..ref import optics

PROPERTY = "C05"
RULE = (
    "random and special angles/axes for the three rotation functions against own elementwise "
    "rotations; random rotated materials against R diag R^T; pairs of simulated samples related by "
    "azimuthal half turn, mirror, normal-incidence rotation, in-plane isotropy and full turns"
)
REACH = {"rotation matrices": 300, "reciprocity": 30, "mirror": 30, "normal incidence": 30,
         "azimuth-free": 15, "oracle decisions": 1500}

SPECIAL = [0, 30, 45, 60, 90, 120, 180, 270, 360, -45, -90, -180, 720]


def ang(rng):
    return float(SPECIAL[rng.integers(len(SPECIAL))]) if rng.random() < 0.35 else float(rng.uniform(-720, 720))


def s_matrices(case):
    rng = case.rng
    p, n, r = ang(rng), ang(rng), ang(rng)
    case.describe(p=p, n=n, r=r)
    e = rotation_euler(p, n, r)
    case.event("rotation matrices", 4)
    case.shape(e, (3, 3), "rotation_euler")
    case.close(e, gen.rot_euler(p, n, r), "rotation_euler(p,n,r) = Rz(p) Rx(n) Rz(r)", rtol=0, atol=1e-13)
    case.close(e @ e.T, np.eye(3), "rotation_euler orthogonal", rtol=0, atol=1e-13)
    case.close(np.linalg.det(e), 1, "rotation_euler determinant", rtol=0, atol=1e-13)
    case.close(rotation_euler(-r, -n, -p) @ e, np.eye(3), "inverse of euler is (-r,-n,-p)", rtol=0, atol=1e-12)
    # z, then x', then z' : each successive rotation about the rotated axis
    x1 = gen.rot_axis("z", p)[:, 0]
    z2 = gen.rodrigues(x1, n) @ [0, 0, 1]
    succ = gen.rodrigues(z2, r) @ gen.rodrigues(x1, n) @ gen.rot_axis("z", p)
    case.close(e, succ, "rotation_euler as successive rotations z, x', z'", rtol=0, atol=1e-12)
    # axis-angle
    v = rng.normal(size=3)
    if rng.random() < 0.3:
        v = np.eye(3)[rng.integers(3)] * (1 if rng.random() < 0.5 else -1)
    v = v / np.linalg.norm(v)
    t, u = ang(rng), ang(rng)
    form = [list, tuple, np.array][rng.integers(3)]
    a = rotation_v_theta(form(v), t)
    case.describe(v=v, t=t, u=u)
    case.close(a, gen.rodrigues(v, t), "rotation_v_theta", rtol=0, atol=1e-13)
    case.close(a @ a.T, np.eye(3), "rotation_v_theta orthogonal", rtol=0, atol=1e-13)
    case.close(np.linalg.det(a), 1, "rotation_v_theta determinant", rtol=0, atol=1e-13)
    case.close(a @ v, v, "rotation_v_theta keeps its axis", rtol=0, atol=1e-13)
    case.close(np.trace(a), 1 + 2 * math.cos(math.radians(t)), "rotation angle", rtol=0, atol=1e-12)
    case.close(rotation_v_theta(form(v), -t) @ a, np.eye(3), "inverse is (v,-theta)", rtol=0, atol=1e-12)
    case.close(rotation_v_theta(form(v), u) @ a, rotation_v_theta(form(v), t + u),
               "angles about one axis add", rtol=0, atol=1e-12)
    w = form(v * math.radians(t % 360))
    b = rotation_v(w)
    case.close(b, gen.rodrigues(v, t % 360), "rotation_v", rtol=0, atol=1e-12)
    case.close(rotation_v(form(-np.asarray(w))) @ b, np.eye(3), "inverse of rotation_v is -v", rtol=0, atol=1e-12)
    for name, ax in (("x", elli.E_X), ("y", elli.E_Y), ("z", elli.E_Z)):
        case.close(rotation_v_theta(ax, t), gen.rot_axis(name, t), f"rotation about E_{name}", rtol=0, atol=1e-13)


def s_tensor(case):
    rng = case.rng
    m = gen.mat_aniso(rng)
    while m.rot is None:
        m.rot = gen.rotation(rng)
    lobj, lb = gen.wavelengths(rng)
    case.describe(mat=m.info(), lbda=lobj)
    obj = m.build()
    t = obj.get_tensor(lobj)
    want = m.tensor(lb)
    case.event("rotation matrices")
    sc = float(np.max(np.abs(want)))
    case.shape(t, want.shape, "rotated tensor")
    case.close(t, want, "rotated tensor R eps R^T", rtol=0, atol=1e-12 * sc)
    case.close(t, np.swapaxes(t, 1, 2), "rotated tensor symmetric", rtol=0, atol=1e-12 * sc)
    case.close(np.trace(t, axis1=1, axis2=2), sum(m.axes(lb)) + 0 * lb, "trace", rtol=1e-11)
    # composition: set_rotation replaces, R2 R1 composes
    r2 = gen.rotation(rng)
    obj.set_rotation(getattr(elli, r2[0])(*r2[1]) @ getattr(elli, m.rot[0])(*m.rot[1]))
    want2 = np.einsum("ab,nbc,dc->nad", r2[2], want, r2[2])
    case.close(obj.get_tensor(lobj), want2, "composed rotation", rtol=0, atol=1e-12 * sc)
    obj.set_rotation(np.eye(3))
    dia = np.zeros_like(want)
    for k, a in enumerate(m.axes(lb)):
        dia[:, k, k] = a
    case.close(obj.get_tensor(lobj), dia, "identity rotation restores the diagonal", rtol=0, atol=1e-12 * sc)


def rotated(mat, left, right=None):
    base = np.eye(3) if mat.rot is None else mat.rot[2]
    m = left @ base if right is None else left @ base @ right
    return gen.Mat(mat.kind, mat.disps, ("_matrix", (m,), m))


def pair_setup(case, normal=False):
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, lo=350)
    theta = 0 if normal else gen.angle(rng, 80)
    front = gen.mat_iso(rng, lossless=True, hi=2)
    back = gen.mat_iso(rng)
    mats = [gen.mat_aniso(rng, kmax=0.3) for _ in range(rng.integers(1, 4))]
    ds = [float(rng.uniform(1, 250)) for _ in mats]
    lay = [gen.Lay(m, d) for m, d in zip(mats, ds)]
    att = optics.attenuation(front.axes(lb)[0], gen.permittivity_stack(lay, lb), lb, theta)
    if att > 8:
        raise Skip()
    case.describe(front=front.info(), layers=[L.info() for L in lay], back=back.info(), lbda=lobj, theta=theta)
    tol = 1e-10 + 1e-13 * math.exp(2 * att)

    def run(left, right=None, exit_=None, prop=None):
        ls = [elli.Layer(rotated(m, left, right).build(), d) for m, d in zip(mats, ds)]
        return evaluate(case, elli.Structure(front.obj(), ls, (exit_ or back).obj()), lobj, theta, "4x4", prop)
    return rng, run, tol, lb


def s_reciprocity(case):
    """Half turn about the surface normal: r_ij(turned) = +-r_ji."""
    rng, run, tol, lb = pair_setup(case)
    a = run(np.eye(3)).jones_matrix_r
    b = run(gen.rot_axis("z", 180)).jones_matrix_r
    case.event("reciprocity")
    case.close(b[:, 0, 0], a[:, 0, 0], "r_pp after a half turn", rtol=0, atol=tol)
    case.close(b[:, 1, 1], a[:, 1, 1], "r_ss after a half turn", rtol=0, atol=tol)
    case.close(b[:, 0, 1], -a[:, 1, 0], "r_ps after a half turn is -r_sp", rtol=0, atol=tol)
    case.close(b[:, 1, 0], -a[:, 0, 1], "r_sp after a half turn is -r_ps", rtol=0, atol=tol)


def s_mirror(case):
    """Mirror in the plane of incidence: only cross terms change sign."""
    rng, run, tol, lb = pair_setup(case)
    m = np.diag([1.0, -1.0, 1.0])
    ra, rb = run(np.eye(3)), run(m, m)
    case.event("mirror")
    sgn = np.array([[1, -1], [-1, 1]])
    case.close(rb.jones_matrix_r, ra.jones_matrix_r * sgn, "mirrored sample (reflection)", rtol=0, atol=tol)
    t = ra.jones_matrix_t * sgn
    case.close(rb.jones_matrix_t, t, "mirrored sample (transmission)", rtol=0,
               atol=tol * max(1, float(np.max(np.abs(t)))))
    case.close(rb.R, ra.R, "mirrored sample R", rtol=0, atol=10 * tol)


def s_normal(case):
    """Normal incidence: turning the sample turns the Jones matrices."""
    rng, run, tol, lb = pair_setup(case, normal=True)
    phi = ang(rng)
    case.describe(phi=phi)
    r2 = gen.rot_axis("z", phi)[:2, :2]
    flip = np.diag([-1.0, 1.0])     # p axis of the reflected beam points to -x
    a, b = run(np.eye(3)), run(gen.rot_axis("z", phi))
    case.event("normal incidence")
    want = flip @ (r2 @ (flip @ a.jones_matrix_r) @ r2.T)
    case.close(b.jones_matrix_r, want, "rotated sample at normal incidence (r)", rtol=0, atol=tol)
    want = r2 @ a.jones_matrix_t @ r2.T
    case.close(b.jones_matrix_t, want, "rotated sample at normal incidence (t)", rtol=0,
               atol=tol * max(1, float(np.max(np.abs(want)))))


def s_azimuth(case):
    """Media that are isotropic in the plane have no azimuth and never cross-polarise."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, lo=350)
    theta = gen.angle(rng, 80)
    front = gen.mat_iso(rng, lossless=True, hi=2)
    back = gen.mat_iso(rng)
    lay = []
    for _ in range(rng.integers(1, 4)):
        m = gen.mat_aniso(rng, kmax=0.3, rot=False)
        if m.kind == "bi":
            m.disps = [m.disps[0], m.disps[0], m.disps[2]]
        lay.append(gen.Lay(m, float(rng.uniform(1, 250))))
    att = optics.attenuation(front.axes(lb)[0], gen.permittivity_stack(lay, lb), lb, theta)
    if att > 8:
        raise Skip()
    phi = ang(rng)
    case.describe(layers=[L.info() for L in lay], lbda=lobj, theta=theta, phi=phi)
    tol = 1e-10 + 1e-13 * math.exp(2 * att)
    a = evaluate(case, elli.Structure(front.obj(), [L.build() for L in lay], back.obj()), lobj, theta)
    turn = [elli.Layer(rotated(L.mat, gen.rot_axis("z", phi)).build(), L.d) for L in lay]
    tw = [elli.TwistedLayer(L.mat.build(), L.d, rng.size_of(range(1, 5), 100, tail=0.03), phi) for L in lay]
    case.event("azimuth-free")
    j = a.jones_matrix_r
    case.close(np.abs(j[:, 0, 1]) + np.abs(j[:, 1, 0]), np.zeros(len(lb)), "no cross-polarisation",
               rtol=0, atol=tol)
    for other in (turn, tw):
        b = evaluate(case, elli.Structure(front.obj(), other, back.obj()), lobj, theta)
        case.close(b.jones_matrix_r, j, "azimuth of an in-plane isotropic sample", rtol=0, atol=tol)
        sc = max(1, float(np.max(np.abs(a.jones_matrix_t))))
        case.close(b.jones_matrix_t, a.jones_matrix_t, "azimuth of an in-plane isotropic sample (t)",
                   rtol=0, atol=tol * sc)


def s_turns(case):
    """Full turns and inverses leave the sample as it was; two-fold axes."""
    rng, run, tol, lb = pair_setup(case)
    a = run(np.eye(3))
    v = rng.normal(size=3)
    v /= np.linalg.norm(v)
    r = gen.rotation(rng)
    back = getattr(elli, r[0])(*r[1])
    for m, what in ((rotation_v_theta(v, 360), "full turn"), (rotation_euler(360, 0, 0), "full turn"),
                    (back.T @ back, "there and back")):
        case.close(run(m).jones_matrix_r, a.jones_matrix_r, what, rtol=0, atol=tol)
    k = int(rng.integers(3))
    d = -np.ones(3)
    d[k] = 1
    case.close(run(np.eye(3), np.diag(d)).jones_matrix_r, a.jones_matrix_r,
               "half turn about a principal axis", rtol=0, atol=tol)


SUITES = [
    Suite("matrices", s_matrices, 4800, 48000),
    Suite("tensor", s_tensor, 3600, 36000),
    Suite("reciprocity", s_reciprocity, 1800, 18000),
    Suite("mirror", s_mirror, 1800, 18000),
    Suite("normal", s_normal, 1800, 18000),
    Suite("azimuth", s_azimuth, 1200, 12000),
    Suite("turns", s_turns, 960, 9600),
]
