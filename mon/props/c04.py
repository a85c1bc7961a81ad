"""C04: rewriting a structure without changing its physics changes no result."""
import copy
import math

import numpy as np

import elli
from .. import gen
from ..core import Skip, Suite
from ..drive import evaluate
from ..ref import optics

PROPERTY = "C04"
RULE = (
    "random base structures and chains of 1-4 physics-preserving rewrites (split, merge, zero "
    "thickness, neighbouring half-space medium, expand/wrap repetition, homogeneous slices, "
    "isotropic as uniaxial/biaxial, axis redundancy, rotation composition, sharing/duplicating); "
    "original and rewritten structure are run through the same solver and compared; non-trivial "
    "= at least one rewrite applied and compared"
)
ASSUMPTIONS = ["evanescent growth up to e^8 for the 4x4 solver"]
REACH = {"rewrite split": 30, "rewrite expand": 15, "rewrite slices": 15, "rewrite zero": 30,
         "rewrite asaniso": 30, "rewrite wrap": 20, "compared": 200, "linear orders": 10}


def as_aniso(rng, mat):
    """Other descriptions of an isotropic or uniaxial medium."""
    d = mat.disps
    rot = gen.rotation(rng) if rng.random() < 0.6 else None
    if mat.kind == "iso":
        u = rng.random()
        if u < 0.4:
            return gen.Mat("uni", [d[0], d[0]], rot)
        if u < 0.8:
            return gen.Mat("bi", [d[0]] * 3, rot)
        return gen.Mat("iso", d, rot)
    if mat.kind == "uni":
        u = rng.random()
        if u < 0.5:
            return gen.Mat("bi", [d[0], d[0], d[1]], mat.rot)
        # spinning about the own optical axis changes nothing
        spin = float(rng.uniform(-180, 180))
        base = np.eye(3) if mat.rot is None else mat.rot[2]
        m = base @ gen.rot_axis("z", spin)
        return gen.Mat("uni", d, ("_matrix", (m,), m))
    # biaxial: turning by 180 degrees about a principal axis changes nothing
    base = np.eye(3) if mat.rot is None else mat.rot[2]
    m = base @ gen.rot_axis("xyz"[rng.integers(3)], 180)
    return gen.Mat("bi", d, ("_matrix", (m,), m))


def rand_mat(rng):
    u = rng.random()
    if u < 0.4:
        return gen.mat_iso(rng, hi=3, kmax=0.4)
    if u < 0.85:
        return gen.mat_aniso(rng, kmax=0.3)
    return gen.mix_iso(rng, hi=3, kmax=0.4)


def rand_node(rng, depth=0):
    u = rng.random()
    d = gen.thickness(rng, 220)
    if u < 0.5 or depth > 1:
        m = rand_mat(rng)
        m.shared = bool(rng.random() < 0.5)
        return gen.Lay(m, d)
    if u < 0.65:
        return gen.Twist(gen.mat_aniso(rng, kmax=0.3), d, rng.size_of(range(1, 7), 200, tail=0.03),
                         float(rng.uniform(-400, 400)))
    if u < 0.8:
        mix = gen.mix_iso(rng, hi=3, kmax=0.4)
        prof = ["default", *gen.PROFILES][rng.integers(len(gen.PROFILES) + 1)]
        return gen.Vary(mix, d, rng.size_of(range(1, 7), 200, tail=0.03), prof)
    kids = [rand_node(rng, depth + 1) for _ in range(rng.integers(1, 4))]
    k = len(kids)
    return gen.Rep(kids, rng.size_of([1, 2, 3], 40, tail=0.03), int(rng.integers(0, k + 1)),
                   int(rng.integers(0, k + 1)))


class Dup:
    """The same layer built from deep copies of its objects."""

    def __init__(self, kid):
        self.kid = kid
        self.mat = None

    def build(self):
        return copy.deepcopy(self.kid.build())

    def slices(self, lb):
        return self.kid.slices(lb)

    def info(self):
        return {"dup": self.kid.info()}


def twist_slices(tw):
    """Homogeneous layers equal to the slices of a twisted layer."""
    out = []
    for k in range(tw.div):
        ang = tw.angle * (k + 0.5) / tw.div
        base = np.eye(3) if tw.mat.rot is None else tw.mat.rot[2]
        m = gen.rot_axis("z", ang) @ base
        out.append(gen.Lay(gen.Mat(tw.mat.kind, tw.mat.disps, ("_matrix", (m,), m)), tw.d / tw.div))
    return out


def vary_slices(v):
    return [gen.Lay(gen.Mix(v.mat.mkind, v.mat.host, v.mat.guest, v.fraction(k)), v.d / v.div)
            for k in range(v.div)]


def rewrite(case, nodes):
    """One rewrite of the list of nodes -> new list (or None if not applicable)."""
    rng = case.rng
    kinds = ["split", "zero", "expand", "slices", "asaniso", "wrap", "dup", "merge"]
    for k in rng.permutation(len(kinds)):
        kind = kinds[k]
        out = list(nodes)
        if kind == "zero":
            pos = int(rng.integers(0, len(out) + 1))
            u = rng.random()
            if u < 0.6:
                z = gen.Lay(rand_mat(rng), 0 if rng.random() < 0.5 else 0.0)
            elif u < 0.8:
                z = gen.Twist(gen.mat_aniso(rng), 0, int(rng.integers(1, 4)), 90.0)
            else:
                z = gen.Vary(gen.mix_iso(rng, hi=3), 0, int(rng.integers(1, 4)), "linear")
            out.insert(pos, z)
        else:
            cand = []
            for i, n in enumerate(out):
                ok = {
                    "split": isinstance(n, gen.Lay),
                    "expand": isinstance(n, gen.Rep),
                    "slices": isinstance(n, (gen.Twist, gen.Vary)),
                    "asaniso": isinstance(n, gen.Lay) and n.mat.kind != "mix",
                    "wrap": True, "dup": True,
                    "merge": i + 1 < len(out) and isinstance(n, gen.Lay)
                    and isinstance(out[i + 1], gen.Lay) and out[i + 1].mat is n.mat,
                }[kind]
                if ok:
                    cand.append(i)
            if not cand:
                continue
            i = cand[rng.integers(len(cand))]
            n = out[i]
            if kind == "split":
                w = rng.dirichlet(np.ones(rng.size_of(range(2, 6), 40, 2, tail=0.02)))
                out[i:i + 1] = [gen.Lay(n.mat, float(x) * n.d) for x in w]
            elif kind == "merge":
                out[i:i + 2] = [gen.Lay(n.mat, n.d + out[i + 1].d)]
            elif kind == "expand":
                out[i:i + 1] = n.sequence()
            elif kind == "slices":
                out[i:i + 1] = twist_slices(n) if isinstance(n, gen.Twist) else vary_slices(n)
            elif kind == "asaniso":
                out[i] = gen.Lay(as_aniso(rng, n.mat), n.d)
            elif kind == "dup":
                out[i] = Dup(n)
            elif kind == "wrap":
                j = int(rng.integers(i, min(len(out), i + 3)))
                kids = out[i:j + 1]
                u = rng.random()
                if u < 0.4 or len(kids) == 1:
                    rep = gen.Rep(kids, 1)
                elif u < 0.7:
                    rep = gen.Rep([gen.Rep(kids[:1], 1), gen.Rep(kids[1:], 1)], 1)
                else:
                    rep = gen.Rep([gen.Rep(kids, 1)], 1)
                out[i:j + 1] = [rep]
        case.event("rewrite " + kind)
        return kind, out
    return None


def compare(case, a, b, what, tol, trans=True, phase_r=1.0, phase_t=1.0, eps=1e-14, most=1e-6):
    case.event("compared")
    # long reflecting stacks amplify rounding as absorbing ones do: by the inverse transmission
    smin = max(float(np.min(np.linalg.svd(x.jones_matrix_t, compute_uv=False))) for x in (a, b))
    tol = tol + min(most, eps / max(smin, 1e-8) ** 2)
    ra, rb = a.jones_matrix_r * phase_r, b.jones_matrix_r
    sc = max(1.0, float(np.max(np.abs(ra))))
    case.close(rb, ra, f"{what}: reflection", rtol=0, atol=tol * sc)
    if trans:
        ta, tb = a.jones_matrix_t * phase_t, b.jones_matrix_t
        sc = max(1.0, float(np.max(np.abs(ta))))
        case.close(tb, ta, f"{what}: transmission", rtol=0, atol=tol * sc)
        case.close(b.T, a.T, f"{what}: T", rtol=0, atol=tol * sc * 10)
    case.close(b.R, a.R, f"{what}: R", rtol=0, atol=tol * 10)


def s_rewrite(case):
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, lo=350)
    theta = gen.angle(rng, 85)
    front = gen.mat_iso(rng, lossless=True, hi=2)
    back = gen.disguise(rng, gen.mat_iso(rng))
    nodes = [rand_node(rng) for _ in range(rng.integers(1, 4))]
    att = optics.attenuation(front.axes(lb)[0], gen.permittivity_stack(nodes, lb), lb, theta)
    if att > 8:
        raise Skip()
    base = elli.Structure(front.obj(), [n.build() for n in nodes], back.obj())
    prop = [None, "scipy", "torch"][rng.integers(3)]
    ra = evaluate(case, base, lobj, theta, "4x4", prop)
    chain = []
    new = nodes
    for _ in range(rng.integers(1, 5)):
        kind, new = rewrite(case, new)
        chain.append(kind)
        rb = evaluate(case, elli.Structure(front.obj(), [n.build() for n in new], back.obj()),
                      lobj, theta, "4x4", prop)
        case.describe(nodes=[n.info() for n in nodes], chain=chain, lbda=lobj, theta=theta,
                      front=front.info(), back=back.info())
        compare(case, ra, rb, "+".join(chain), 1e-9 + 1e-13 * math.exp(2 * att))


def iso_node(rng, depth=0):
    if depth == 0 and rng.random() < 0.4:
        kids = [iso_node(rng, 1) for _ in range(rng.integers(1, 5))]
        k = len(kids)
        return gen.Rep(kids, rng.size_of(range(1, 6), 100, tail=0.03), int(rng.integers(0, k + 1)),
                       int(rng.integers(0, k + 1)))
    m = gen.mat_iso(rng, hi=3, kmax=0.4) if rng.random() < 0.8 else gen.mix_iso(rng, hi=3, kmax=0.4)
    if m.kind == "mix" and rng.random() < 0.5:
        return gen.Vary(m, gen.thickness(rng), rng.size_of(range(1, 8), 200), "default")
    return gen.Lay(m, gen.thickness(rng))


def s_rewrite2x2(case):
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, lo=350)
    theta = gen.angle(rng, 85)
    front = gen.mat_iso(rng, lossless=True, hi=2)
    back = gen.mat_iso(rng)
    nodes = [iso_node(rng) for _ in range(rng.integers(1, 5))]
    ra = evaluate(case, elli.Structure(front.obj(), [n.build() for n in nodes], back.obj()),
                  lobj, theta, "2x2")
    chain, new = [], nodes
    for _ in range(rng.integers(1, 5)):
        kind, new = rewrite(case, new)
        chain.append(kind)
    rb = evaluate(case, elli.Structure(front.obj(), [n.build() for n in new], back.obj()),
                  lobj, theta, "2x2")
    case.describe(nodes=[n.info() for n in nodes], chain=chain, lbda=lobj, theta=theta)
    compare(case, ra, rb, "2x2 " + "+".join(chain), 1e-9)


def s_halfspace(case):
    """Layers of the adjacent half-space medium only shift phases."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, lo=350)
    theta = gen.angle(rng, 80)
    front = gen.mat_iso(rng, lossless=True, hi=2)
    back = gen.mat_iso(rng, hi=3, kmax=0.2)
    iso = bool(rng.random() < 0.5)
    nodes = [iso_node(rng) if iso else rand_node(rng) for _ in range(rng.integers(0, 3))]
    df, db = float(rng.uniform(1, 300)), float(rng.uniform(1, 150))
    ef, eb = front.axes(lb)[0], back.axes(lb)[0]
    kx = np.sqrt(ef) * math.sin(math.radians(theta))
    qf, qb = optics.fwd(np.sqrt(ef - kx**2)), optics.fwd(np.sqrt(eb - kx**2))
    if np.min(np.abs(qb)) < 1e-2:
        raise Skip()
    k0 = 2 * np.pi / lb
    full = [gen.Lay(front, df), *nodes, gen.Lay(back, db)]
    att = optics.attenuation(ef, gen.permittivity_stack(full, lb), lb, theta)
    solver = "2x2" if iso and rng.random() < 0.5 else "4x4"
    if att > 8 and solver == "4x4":
        raise Skip()
    a = evaluate(case, elli.Structure(front.obj(), [n.build() for n in nodes], back.obj()),
                 lobj, theta, solver)
    b = evaluate(case, elli.Structure(front.obj(), [n.build() for n in full], back.obj()),
                 lobj, theta, solver)
    case.describe(nodes=[n.info() for n in nodes], df=df, db=db, lbda=lobj, theta=theta,
                  front=front.info(), back=back.info(), solver=solver)
    pf, pb = np.exp(1j * qf * k0 * df), np.exp(1j * qb * k0 * db)
    tol = 1e-9 + 1e-13 * math.exp(2 * min(att, 12))
    case.event("compared")
    case.close(b.jones_matrix_r, a.jones_matrix_r * (pf**2)[:, None, None],
               "half-space medium as layer: reflection", rtol=0, atol=tol)
    ta = a.jones_matrix_t * (pf * pb)[:, None, None]
    case.close(b.jones_matrix_t, ta, "half-space medium as layer: transmission", rtol=0,
               atol=tol * max(1, float(np.max(np.abs(ta)))))
    case.close(b.psi, a.psi, "half-space medium as layer: psi", rtol=0, atol=1e-5)


def s_exit(case):
    """An isotropic exit medium described as uniaxial/biaxial/rotated reflects and transmits the same."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, lo=350)
    theta = gen.angle(rng, 80)
    front = gen.mat_iso(rng, lossless=True, hi=1.5)
    back = gen.mat_iso(rng, lo=1.6) if rng.random() < 0.5 else gen.mat_aniso(rng)
    nodes = [rand_node(rng) for _ in range(rng.integers(0, 3))]
    att = optics.attenuation(front.axes(lb)[0], gen.permittivity_stack(nodes, lb), lb, theta)
    if att > 5:
        raise Skip()
    kx = np.sqrt(front.axes(lb)[0]) * math.sin(math.radians(theta))
    q, v = np.linalg.eig(optics.q_np(kx, back.tensor(lb)))
    if not back.isotropic and np.max(np.linalg.cond(v)) > 1e4:
        raise Skip()
    if ((np.abs(q.imag) > 1e-12) & (np.abs(q.imag) < 1e-7)).any():
        raise Skip()
    alt = as_aniso(rng, back)
    case.describe(nodes=[n.info() for n in nodes], back=back.info(), alt=alt.info(), lbda=lobj,
                  theta=theta)
    a = evaluate(case, elli.Structure(front.obj(), [n.build() for n in nodes], back.obj()), lobj, theta)
    b = evaluate(case, elli.Structure(front.obj(), [n.build() for n in nodes], alt.obj()), lobj, theta)
    compare(case, a, b, "exit medium", 1e-6 + 1e-12 * math.exp(2 * att), trans=back.isotropic, eps=1e-9, most=1e-4)


def s_linear(case):
    """The linear propagator converges to the exact one, first order in the step."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=2, lo=500)
    theta = gen.angle(rng, 70)
    front = gen.mat_iso(rng, lossless=True, hi=1.5)
    back = gen.mat_iso(rng, hi=3)
    m = gen.mat_aniso(rng, kmax=0.2) if rng.random() < 0.7 else gen.mat_iso(rng, hi=2.5, kmax=0.2)
    d = float(rng.uniform(20, 90))
    ex = evaluate(case, elli.Structure(front.obj(), [gen.Lay(m, d).build()], back.obj()), lobj, theta)
    case.describe(mat=m.info(), d=d, lbda=lobj, theta=theta)
    errs = []
    for n in (64, 128, 256):
        layer = elli.RepeatedLayers([elli.Layer(m.obj(), d / n)], 3, 1, 1)
        layer.set_repetitions(n)
        s = elli.Structure(front.obj(), [layer], back.obj())
        r = s.evaluate(lobj, theta, propagator=elli.PropagatorLinear())
        errs.append(float(np.max(np.abs(r.jones_matrix_r - ex.jones_matrix_r))
                          + np.max(np.abs(r.jones_matrix_t - ex.jones_matrix_t))))
        phase = np.max(np.abs(np.linalg.eigvals(m.tensor(lb)))) ** 0.5 * 2 * np.pi / lb.min() * d
        case.check(errs[-1] <= 60 * (1 + phase) ** 4 / n,
                   f"linear propagator with {n} steps is off by {errs[-1]}")
    case.event("linear orders")
    if errs[0] > 1e-6:
        for a, b in zip(errs, errs[1:]):
            case.check(b < 0.62 * a + 1e-9, f"linear propagator does not converge: {errs}")


SUITES = [
    Suite("rewrite", s_rewrite, 3000, 30000),
    Suite("rewrite2x2", s_rewrite2x2, 1500, 15000),
    Suite("halfspace", s_halfspace, 1200, 12000),
    Suite("exit", s_exit, 900, 9000),
    Suite("linear", s_linear, 240, 2400),
]
