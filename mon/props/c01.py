"""C01: isotropic multilayers are solved exactly, by every solver and propagator."""
import numpy as np

import elli
from .. import gen
from ..core import Skip, Suite
from ..drive import evaluate
from ..ref import optics

PROPERTY = "C01"
RULE = (
    "random isotropic stacks (0-40 layers; constant, Cauchy, Sellmeier, Lorentz, tabulated "
    "dispersions; metals, TIR, angles next to the critical angle, grazing, zero and sub-nm thickness, shared and reused objects), "
    "evaluated by the 2x2 solver and the 4x4 solver with each propagator and through each "
    "entry point; non-trivial = at least one evaluation compared with the independent solution"
)
ASSUMPTIONS = [
    "double precision: 4x4 transfer matrices are judged only while exp(2*attenuation) <= e^20, "
    "tolerance grows with that factor",
]
REACH = {"oracle decisions": 400, "evaluations by 2x2": 100, "evaluations by 4x4/scipy": 50,
         "evaluations by 4x4/eig": 50, "total internal reflection": 5, "next to the critical angle": 300}


def judge(case, spec_front, layers, spec_back, lobj, lb, theta, solvers=None, critical=False):
    eps = [spec_front.axes(lb)[0]]
    d = []
    for dd, t in gen.permittivity_stack(layers, lb):
        d.append(float(dd))
        eps.append(t[:, 0, 0])
    eps.append(spec_back.axes(lb)[0])
    ref = optics.iso(eps, d, lb, theta)
    att = float(np.max(ref["att"]))
    # next to the critical angle of the exit only its q is small: the rounding of
    # kx**2 - n**2 divided by q
    qmin = float(min(np.min(np.abs(q)) for q in (ref["q"][:-1] if critical else ref["q"])))
    qexit = float(np.min(np.abs(ref["q"][-1])))
    if qmin < 1e-4 or qexit < 2e-6:
        raise Skip()
    amp = 1 + 1e-4 / qmin**2 + (3e-3 / qexit if critical else 0)
    if critical:
        case.event("next to the critical angle")
    path = 2e-14 * float(np.max(np.sum([np.abs(q) * x / lb * 6.3 for q, x in zip(ref["q"][1:-1], d)], axis=0))) if d else 0
    # rounding of the phase of long transparent paths
    phase = 1e-13 * float(np.max(np.sum([np.abs(q) * x / lb * np.exp(-np.minimum(q.imag * x / lb * 6, 600)) for q, x in zip(ref["q"][1:-1], d)], axis=0))) if d else 0
    structure = elli.Structure(spec_front.obj(), [L.build() for L in layers], spec_back.obj())
    case.describe(
        front=spec_front.info(), layers=[L.info() for L in layers], back=spec_back.info(),
        lbda=lobj, theta=theta,
    )
    if (np.abs(ref["q"][-1].imag) > 1e-3).any() and (np.abs(eps[-1].imag) < 1e-12).all():
        case.event("total internal reflection")
    plan = solvers or [("2x2", None), ("4x4", None), ("4x4", "scipy"), ("4x4", "torch"), ("4x4", "eig")]
    for solver, prop in plan:
        if solver == "4x4":
            if att > 10:
                case.event("4x4 beyond double precision, not judged")
                continue
            tol = 1e-11 * amp + 1e-14 * np.exp(2 * att) + phase
            if prop == "eig":
                tol *= 30
        else:
            tol = 1e-11 * amp * (1 + 0.02 * len(d)) + phase
        r = evaluate(case, structure, lobj, theta, solver, prop)
        n = len(lb)
        want_r = np.zeros((n, 2, 2), complex)
        want_r[:, 0, 0], want_r[:, 1, 1] = ref["rp"], ref["rs"]
        want_t = np.zeros((n, 2, 2), complex)
        want_t[:, 0, 0], want_t[:, 1, 1] = ref["tp"], ref["ts"]
        name = f"{solver}{'/' + prop if prop else ''}"
        case.shape(r.jones_matrix_r, (n, 2, 2), f"{name} reflection Jones matrix")
        case.close(r.jones_matrix_r, want_r, f"{name} reflection", rtol=tol, atol=tol)
        ttol = tol + path
        case.close(r.jones_matrix_t, want_t, f"{name} transmission", rtol=ttol,
                   atol=ttol * min(1.0, 1e-290 + 10 * float(np.max(np.abs(want_t)))))
        case.event("attenuated" if att > 0.5 else "weakly attenuated")


def palette(rng, **kw):
    mats = [gen.mat_iso(rng, **kw) for _ in range(rng.integers(1, 5))]
    for m in mats:
        m.shared = bool(rng.random() < 0.5)
    return mats


def s_stack(case):
    rng = case.rng
    lobj, lb = gen.wavelengths(rng)
    pal = palette(rng)
    if rng.random() < 0.3:
        pal.append(gen.mat_metal(rng))
    hi = 60.0 if any(not m.lossless for m in pal) and rng.random() < 0.7 else 500.0
    front = gen.mat_iso(rng, lossless=True, lo=1.0, hi=1.8)
    back = pal[rng.integers(len(pal))] if rng.random() < 0.6 else gen.disguise(rng, gen.mat_iso(rng))
    layers = [gen.Lay(pal[rng.integers(len(pal))], gen.thickness(rng, hi))
              for _ in range(rng.size_of(range(7), 60, 0))]
    judge(case, front, layers, back, lobj, lb, gen.angle(rng))


def s_bare(case):
    rng = case.rng
    lobj, lb = gen.wavelengths(rng)
    front = gen.mat_iso(rng, lossless=True, lo=1.0, hi=2.0)
    back = gen.mat_metal(rng) if rng.random() < 0.3 else gen.disguise(rng, gen.mat_iso(rng))
    judge(case, front, [], back, lobj, lb, gen.angle(rng))


def s_tir(case):
    """High-index incidence: total internal reflection, frustrated and guided cases."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng)
    front = gen.mat_iso(rng, lossless=True, lo=1.7, hi=3.0, kinds=["const", "eps"])
    pal = palette(rng, lossless=True, lo=1.0, hi=2.2, kinds=["const", "eps"])
    if rng.random() < 0.4:
        pal.append(gen.mat_metal(rng))
    layers = [gen.Lay(pal[rng.integers(len(pal))], gen.thickness(rng, 120))
              for _ in range(rng.size_of(range(5), 40, 0, tail=0.01))]
    back = gen.mat_iso(rng, lossless=bool(rng.random() < 0.7), lo=1.0, hi=1.6)
    judge(case, front, layers, back, lobj, lb, float(rng.uniform(25, 88)))


def s_many(case):
    """Long stacks (Bragg mirrors, superlattices) through RepeatedLayers and plain lists."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=2, lo=500)
    pal = palette(rng, lossless=True, lo=1.3, hi=2.4, kinds=["const", "cauchy"])
    kids = [gen.Lay(pal[rng.integers(len(pal))], gen.thickness(rng, 150))
            for _ in range(rng.integers(1, 4))]
    layers = [gen.Rep(kids, rng.size_of(range(1, 9), 120), int(rng.integers(0, len(kids) + 1)),
                      int(rng.integers(0, len(kids) + 1)))]
    if rng.random() < 0.5:
        layers.append(gen.Lay(pal[0], 33.3))
    if rng.random() < 0.5:
        layers.insert(0, gen.Lay(pal[-1], 12))
    front = gen.mat_iso(rng, lossless=True, hi=1.2)
    judge(case, front, layers, gen.mat_iso(rng), lobj, lb, gen.angle(rng, 80))


def s_thick(case):
    """Opaque and very thick layers: the 2x2 solver must stay exact."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=2)
    mats = [gen.mat_metal(rng), gen.mat_iso(rng, lossless=False), gen.mat_iso(rng, lossless=True)]
    layers = [gen.Lay(mats[rng.integers(3)], float(10 ** rng.uniform(1, 3.6)))
              for _ in range(rng.integers(1, 4))]
    if rng.random() < 0.4:
        case.event("opaque layers")
        layers[rng.integers(len(layers))] = gen.Lay(mats[rng.integers(2)], float(10 ** rng.uniform(3, 9)))
    front = gen.mat_iso(rng, lossless=True, hi=1.3)
    judge(case, front, layers, gen.mat_iso(rng), lobj, lb, gen.angle(rng, 80))


def s_absfront(case):
    """Absorbing incidence medium (complex transverse wavevector)."""
    rng = case.rng
    lobj, lb = gen.wavelengths(rng, n=2)
    front = gen.Mat("iso", [gen.Disp("ConstantRefractiveIndex",
                                     {"n": complex(rng.uniform(1, 2), 10 ** rng.uniform(-4, -1))})])
    back = gen.Mat("iso", [gen.Disp("ConstantRefractiveIndex",
                                    {"n": complex(rng.uniform(2.2, 4), rng.uniform(0.2, 2))})])
    pal = palette(rng)
    layers = [gen.Lay(pal[rng.integers(len(pal))], gen.thickness(rng, 60))
              for _ in range(rng.integers(0, 4))]
    judge(case, front, layers, back, lobj, lb, gen.angle(rng, 60))


def s_critical(case):
    """Angles next to the critical angle of the exit medium, on both sides."""
    rng = case.rng
    n0, nb = float(rng.uniform(1.6, 3)), float(rng.uniform(1, 1.5))
    const = lambda n: gen.Mat("iso", [gen.Disp("ConstantRefractiveIndex", {"n": n})])
    side = rng.choice([-1, 1])
    delta = 10 ** rng.uniform(-10.5, -3)    # of the squared normal component
    theta = float(np.rad2deg(np.arcsin(np.sqrt(nb**2 + side * delta) / n0)))
    lb = np.sort(rng.uniform(300, 1200, rng.size_of([1, 2, 5], 50)))
    mats = [const(float(rng.uniform(n0 * 0.9, 3.5))) for _ in range(3)] + [gen.mat_metal(rng)]
    layers = [gen.Lay(mats[rng.integers(4)], gen.thickness(rng, 60)) for _ in range(rng.integers(0, 4))]
    judge(case, const(n0), layers, gen.disguise(rng, const(nb)), lb.copy(), lb, theta, critical=True)


SUITES = [
    Suite("critical", s_critical, 1000, 6000),
    Suite("stack", s_stack, 2500, 15000),
    Suite("bare", s_bare, 1000, 6000),
    Suite("tir", s_tir, 1400, 8000),
    Suite("many", s_many, 600, 4000),
    Suite("thick", s_thick, 800, 4000),
    Suite("absfront", s_absfront, 300, 3000),
]
