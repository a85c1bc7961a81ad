"""C13: effective medium mixtures satisfy their defining equations."""
import numpy as np

import elli
from .. import gen
from ..core import Skip, Suite

PROPERTY = "C13"
RULE = (
    "each mixing theory over random pairs of constituents (transparent, absorbing, metallic, equal, nearly "
    "equal, anisotropic, nested mixtures) and fractions including 0, 1 and the ends' neighbourhood, changed "
    "through the setters, evaluated alone and inside varying layers with several profiles; the returned "
    "permittivity judged by the defining equation, limits, symmetry, bounds and passivity"
)
ASSUMPTIONS = ["element-wise theories (Looyenga, Maxwell-Garnett, Bruggeman) are judged for unrotated constituents",
               "exactly real negative permittivity stands for the limit of vanishing absorption",
               "a profile function is trusted to stay inside 0..1"]
REACH = {"defining equation": 1500, "limits": 200, "symmetry": 300, "Wiener bounds": 200, "passivity": 300,
         "varying slices": 1000, "rejected fractions": 500, "nested": 50, "lossless metals": 1000}


def residual(kind, eh, eg, f, e):
    """Defining equation, scaled to the size of its terms."""
    if kind == "VCAMaterial":
        return e - ((1 - f) * eh + f * eg), np.abs(eh) + np.abs(eg)
    if kind == "LooyengaEMA":
        return (e - ((1 - f) * eh ** (1 / 3) + f * eg ** (1 / 3)) ** 3), np.abs(eh) + np.abs(eg)
    if kind == "MaxwellGarnettEMA":
        # (e - eh)(eg + 2eh) = f (eg - eh)(e + 2eh)
        return ((e - eh) * (eg + 2 * eh) - f * (eg - eh) * (e + 2 * eh),
                (np.abs(e) + np.abs(eh)) * (np.abs(eg) + 2 * np.abs(eh)))
    return ((1 - f) * (eh - e) * (eg + 2 * e) + f * (eg - e) * (eh + 2 * e),
            (np.abs(eh) + np.abs(e)) * (np.abs(eg) + np.abs(e)) * 2)


def constituent(rng, kind, depth=1, rot=None):
    rot = (kind == "VCAMaterial") if rot is None else rot
    u = rng.integers(8)
    if u == 0:
        return gen.mat_metal(rng)
    if u <= 2:
        return gen.mat_iso(rng, lossless=True, lo=1.0, hi=4.0)
    if u == 3:
        return gen.mat_aniso(rng, rot=rot)
    if u == 4 and depth:
        case_kind = gen.MIXES[rng.integers(4)] if kind != "VCAMaterial" else "VCAMaterial"
        return gen.Mix(case_kind, *(constituent(rng, case_kind, depth - 1, rot) for _ in range(2)),
                       float(rng.random()))
    return gen.mat_iso(rng)


def fraction(rng):
    u = rng.integers(6)
    if u == 0:
        return [0, 1, 0.0, 1.0, 0.5, True][rng.integers(6)]
    if u == 1:
        return float(10 ** rng.uniform(-12, -3))
    if u == 2:
        return float(1 - 10 ** rng.uniform(-12, -3))
    return float(rng.uniform(0, 1))


def tolerance(kind, eh, eg, f, e):
    """Rounding of the theory itself where its equation is ill-conditioned."""
    with np.errstate(all="ignore"):
        if kind == "MaxwellGarnettEMA":
            den = np.abs(2 * eh + eg - f * (eg - eh)) / (np.abs(eh) * 2 + np.abs(eg) + 1e-300)
            return 1e-11 / np.maximum(den, 1e-6)
        r = np.maximum(np.abs(eh), np.abs(eg)) / np.maximum(np.minimum(np.abs(eh), np.abs(eg)), 1e-300)
        return 1e-11 * np.minimum(r, 1e5) + 1e-10


def judge(case, kind, t, h, g, f, what):
    """t from the code; h, g own tensors of the constituents."""
    case.event("defining equation")
    case.shape(t, h.shape, what)
    t = np.asarray(t)
    if kind == "VCAMaterial":
        s = float(np.max(np.abs(h)) + np.max(np.abs(g)))
        case.close(t, (1 - f) * h + f * g, what, rtol=1e-10, atol=1e-11 * s)
        return
    off = ~np.eye(3, dtype=bool)
    case.check(not np.asarray(t)[:, off].any(), f"{what}: off-diagonal elements appeared")
    eh, eg, e = (np.diagonal(x, axis1=1, axis2=2) for x in (h, g, t))
    case.check(bool(np.isfinite(e).all()), f"{what}: not finite", e=e)
    res, scale = residual(kind, eh, eg, f, e)
    tol = tolerance(kind, eh, eg, f, e)
    case.check(bool((np.abs(res) <= tol * scale).all()), f"{what}: defining equation violated by {np.max(np.abs(res) / scale):.2e}",
               host=eh, guest=eg, fraction=f, mixture=e)
    want = gen.mix_eps(kind, eh, eg, f)
    case.check(bool((np.abs(e - want) <= 1e-6 * np.abs(want) + 10 * tol * np.abs(want)).all()), f"{what}: wrong branch",
               host=eh, guest=eg, fraction=f, mixture=e, expected=want)
    passive = bool((eh.imag >= -1e-12 * np.abs(eh)).all() and (eg.imag >= -1e-12 * np.abs(eg)).all())
    if passive:
        case.event("passivity")
        case.check(bool((e.imag >= -1e-9 * np.abs(e) - 10 * tol * np.abs(e)).all()), f"{what}: gain from passive constituents",
                   host=eh, guest=eg, mixture=e)
    real = (np.abs(eh.imag) == 0) & (np.abs(eg.imag) == 0) & (eh.real > 0) & (eg.real > 0)
    if real.any():
        case.event("Wiener bounds")
        a, b, m = eh.real[real], eg.real[real], e.real[real]
        hi = (1 - f) * a + f * b
        lo = 1 / ((1 - f) / a + f / b)
        case.check(bool((m <= hi * (1 + 1e-9)).all() and (m >= lo * (1 - 1e-9)).all()), f"{what}: outside the Wiener bounds",
                   host=a, guest=b, fraction=f, mixture=m)
        case.check(bool((np.abs(e.imag[real]) <= 1e-9 * m).all()), f"{what}: absorption from transparent constituents")


def ok_pair(kind, h, g):
    """Constituents for which the theory is defined and unique."""
    if kind == "VCAMaterial":
        return True
    d = np.concatenate([np.diagonal(x, axis1=1, axis2=2).ravel() for x in (h, g)])
    # exactly real negative permittivity: on the branch cut
    return bool((np.abs(d) > 1e-3).all() and not ((d.real < 0) & (np.abs(d.imag) < 1e-9)).any())


def draw(case, kind, depth=1):
    rng = case.rng
    for _ in range(20):
        host, guest = constituent(rng, kind, depth), constituent(rng, kind, depth)
        u = rng.random()
        if u < 0.08:
            guest = host
        lobj, lb = gen.wavelengths(rng)
        h, g = host.tensor(lb), guest.tensor(lb)
        if ok_pair(kind, h, g):
            if isinstance(host, gen.Mix) or isinstance(guest, gen.Mix):
                case.event("nested")
            return host, guest, lobj, lb, h, g
    return None


def s_mix(case):
    rng = case.rng
    kind = gen.MIXES[case.index % 4]
    cls = getattr(elli, kind)
    got = draw(case, kind)
    if got is None:
        from ..core import Skip
        raise Skip()
    host, guest, lobj, lb, h, g = got
    f = fraction(rng)
    case.describe(kind=kind, f=f, host=host.info(), guest=guest.info(), lbda=lobj)
    ho, go = host.obj(), guest.obj()
    m = cls(ho, go, f) if rng.random() < 0.7 else cls(host_material=ho, guest_material=go, fraction=f)
    judge(case, kind, m.get_tensor(lobj), h, g, f, f"{kind}({f})")
    for _ in range(3):
        f = fraction(rng)
        m.set_fraction(f)
        judge(case, kind, m.get_tensor(lobj), h, g, f, f"{kind} after set_fraction({f})")
        f2 = fraction(rng)
        judge(case, kind, m.get_tensor_fraction(lobj, f2), h, g, f2, f"{kind}.get_tensor_fraction({f2})")
        case.check(m.fraction == f, "get_tensor_fraction changed the fraction")
    scale = float(np.max(np.abs(h)) + np.max(np.abs(g)))
    tl = 1e-9 * scale
    for f, t, what in ((0, h, "host"), (1, g, "guest")):
        case.event("limits")
        m.set_fraction(f)
        if kind == "VCAMaterial":
            case.close(m.get_tensor(lobj), t, f"{kind} at fraction {f} is the {what}", rtol=1e-11, atol=tl * 1e-2)
        else:
            r = float(np.max(tolerance(kind, *(np.diagonal(x, axis1=1, axis2=2) for x in (h, g)), f, None))) * 100
            case.close(m.get_tensor(lobj), t, f"{kind} at fraction {f} is the {what}", rtol=max(r, 1e-9), atol=1e-13 * scale)
    if kind != "MaxwellGarnettEMA":
        case.event("symmetry")
        f = float(rng.random())
        a, b = cls(ho, go, f).get_tensor(lobj), cls(go, ho, 1 - f).get_tensor(lobj)
        case.close(a, b, f"{kind} with exchanged constituents", rtol=1e-7, atol=1e-10 * scale)
    m.set_constituents(go, ho)
    f = float(rng.random())
    m.set_fraction(f)
    judge(case, kind, m.get_tensor(lobj), g, h, f, f"{kind} after set_constituents")


def s_equal(case):
    """Equal and nearly equal constituents: every theory returns them."""
    rng = case.rng
    kind = gen.MIXES[case.index % 4]
    e = complex(rng.uniform(1, 10), rng.choice([0, rng.random()]))
    de = complex(10 ** rng.uniform(-16, -2), 0) * (rng.random() < 0.8)
    f = fraction(rng)
    lb = rng.uniform(300, 1000, rng.size_of([3], 100))
    case.describe(kind=kind, e=e, de=de, f=f)
    a, b = elli.EpsilonInf(e).get_mat(), elli.EpsilonInf(e * (1 + de)).get_mat()
    t = getattr(elli, kind)(a, b, f).get_tensor(lb)
    case.event("limits")
    case.close(np.diagonal(t, axis1=1, axis2=2), np.full((len(lb), 3), e * (1 + f * de)), f"{kind} of nearly equal constituents", rtol=1e-11 + 2 * abs(de)**2, atol=0)
    case.check(not t[:, ~np.eye(3, dtype=bool)].any(), "off-diagonal elements")


def s_lossless(case):
    """Exactly real permittivities, negative ones included (no damping): the limit of
    vanishing absorption, so that every branch choice of the theories is defined."""
    rng = case.rng
    kind = gen.MIXES[1 + case.index % 3]

    def one(negative):
        u = rng.integers(4)
        if u == 0 and negative:
            return elli.LorentzEnergy().add(float(rng.uniform(5, 60)), float(rng.uniform(0.5, 3)), 0.0)
        if u == 1 and negative:
            return elli.EpsilonInf(float(rng.uniform(1, 3))) + elli.DrudeEnergy(-float(rng.uniform(5, 60)), 0.0)
        v = float(10 ** rng.uniform(-1, 1.5))
        return elli.EpsilonInf(-v if negative else v)
    sides = [(True, False), (False, True), (True, True)][rng.integers(3)]
    a, b = one(sides[0]), one(sides[1])
    lb = rng.uniform(300, 1200, rng.size_of([1, 2, 3], 40))
    f = fraction(rng)
    case.describe(kind=kind, f=f, lbda=lb, host=repr(a), guest=repr(b))
    h, g = a.get_mat(), b.get_mat()
    eh, eg = h.get_tensor(lb)[:, 0, 0], g.get_tensor(lb)[:, 0, 0]
    if (eh.imag != 0).any() or (eg.imag != 0).any() or not np.isfinite([eh, eg]).all() or min(abs(eh).min(), abs(eg).min()) < 1e-2:
        raise Skip()

    def lim(d):
        return gen.mix_eps(kind, eh + 1j * d * np.abs(eh), eg + 1j * d * np.abs(eg), f)
    w1, w2 = lim(1e-7), lim(1e-6)
    # at a percolation threshold the root depends on the absorption as its square root
    tol = 20 * np.abs(w1 - w2) + 1e-6 * np.abs(w1)
    for fr, want in ((f, w1), (0, eh), (1, eg)):
        e = getattr(elli, kind)(h, g, fr).get_tensor(lb)
        case.event("lossless metals")
        d = np.diagonal(e, axis1=1, axis2=2)
        case.check(not e[:, ~np.eye(3, dtype=bool)].any(), f"{kind}: off-diagonal elements appeared")
        t = tol if want is w1 else 1e-6 * (np.abs(eh) + np.abs(eg))
        if kind == "MaxwellGarnettEMA":
            # resonance of the inclusions
            r = np.abs(2 * eh + eg - fr * (eg - eh)) / (2 * np.abs(eh) + np.abs(eg))
            t = np.where(r < 1e-3, np.inf, t)
        case.check(bool((np.abs(d - want[:, None]) <= t[:, None]).all()), f"{kind}({fr}) of lossless constituents",
                   host=eh, guest=eg, mixture=d, expected=want)


def s_vary(case):
    rng = case.rng
    kind = gen.MIXES[case.index % 4]
    got = draw(case, kind, 0)
    if got is None:
        from ..core import Skip
        raise Skip()
    host, guest, lobj, lb, h, g = got
    mix = gen.Mix(kind, host, guest, float(rng.random()))
    prof = ["default", *gen.PROFILES][rng.integers(len(gen.PROFILES) + 1)]
    v = gen.Vary(mix, float(rng.choice([0, rng.uniform(0.01, 1), rng.uniform(1, 500), 77])), rng.size_of([1, 2, 3, 7, 20], 300, tail=0.12), prof)
    layer = v.build()
    case.describe(**v.info(), lbda=lobj)

    def same(what):
        p = layer.get_permittivity_profile(lobj)
        case.check(len(p) == v.div, f"{what}: {len(p)} slices instead of {v.div}")
        case.close(sum(d for d, _ in p), v.d, f"{what}: total thickness", rtol=1e-12, atol=1e-12)
        for k, (d, t) in enumerate(p):
            case.event("varying slices")
            case.close(d, v.d / v.div, f"{what}: slice thickness", rtol=1e-10, atol=1e-12)
            if v.d:
                f = v.fraction(k)
                # a rounded position may put a step profile on either side only exactly at the step
                judge(case, kind, t, h, g, f, f"{what}: slice {k} ({f:.4g})")
    same("new layer")
    case.check(layer.material.fraction == mix.f, "a varying layer changed the fraction of its material")
    for _ in range(2):
        u = rng.integers(3)
        if u == 0:
            v.profile = list(gen.PROFILES)[rng.integers(len(gen.PROFILES))]
            layer.set_fraction_modulation(gen.PROFILES[v.profile])
        elif u == 1:
            v.div = rng.size_of(range(1, 12), 300)
            layer.set_divisions(v.div)
        else:
            v.d = float(rng.uniform(1, 300))
            layer.set_thickness(v.d)
        same("changed layer")
    # the fraction set on the material is ignored
    layer.material.set_fraction(0.123)
    same("after set_fraction")


def s_reject(case):
    rng = case.rng
    kind = gen.MIXES[case.index % 4]
    cls = getattr(elli, kind)
    a, b = elli.EpsilonInf(2).get_mat(), elli.EpsilonInf(5).get_mat()
    good = float(rng.random())
    m = cls(a, b, good)
    lb = np.array([500.0])
    before = m.get_tensor(lb)
    bads = [-1e-12, 1 + 1e-12, -1, 2, np.nan, np.inf, -np.inf, float(rng.uniform(1.0001, 50)), -float(rng.random() + 1e-9),
            np.nextafter(1, 2), np.nextafter(0, -1)]
    case.describe(kind=kind, good=good)
    for bad in bads:
        case.event("rejected fractions")
        case.raises(ValueError, lambda bad=bad: cls(a, b, bad), f"{kind} with fraction {bad}")
        case.raises(ValueError, lambda bad=bad: m.set_fraction(bad), f"set_fraction({bad})")
        case.check(m.fraction == good and np.array_equal(m.get_tensor(lb), before), "a rejected fraction changed the mixture")
    for bad in (None, 3, elli.EpsilonInf(2), "x", elli.AIR.get_tensor(500)):
        case.event("rejected constituents")
        case.raises(TypeError, lambda bad=bad: cls(bad, b, 0.5), "host of the wrong kind")
        case.raises(TypeError, lambda bad=bad: cls(a, bad, 0.5), "guest of the wrong kind")
        case.raises(TypeError, lambda bad=bad: m.set_constituents(b, bad), "guest of the wrong kind")
        case.check(m.host_material is a and m.guest_material is b and np.array_equal(m.get_tensor(lb), before),
                   "a rejected constituent changed the mixture")


SUITES = [
    Suite("mix", s_mix, 10000, 100000),
    Suite("equal", s_equal, 1000, 10000),
    Suite("lossless", s_lossless, 1500, 15000),
    Suite("vary", s_vary, 4000, 40000),
    Suite("reject", s_reject, 400, 4000),
]
