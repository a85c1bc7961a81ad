"""C15: oscillator models and transforms obey Kramers-Kronig relations."""
import warnings

import numpy as np

import elli
from elli.kkr import im2re, im2re_reciprocal, re2im, re2im_reciprocal
from ..core import Suite
from ..ref import disp as rd
from . import c14

PROPERTY = "C15"
RULE = (
    "oscillator models with random physical parameters (narrow, broad, overdamped, several oscillators, "
    "summed models): the model's own imaginary part, sampled from 1e-5 to 1e6 eV, is transformed by graded "
    "Gauss-Legendre principal-value quadrature and compared with its real part; imaginary parts watched over "
    "20 decades; the transform functions compared with the quadrature of random smooth spectra, their "
    "round trips, combinations and both axis forms"
)
ASSUMPTIONS = ["spectra given to the transform functions are sampled uniformly, resolve every feature and vanish "
               "outside the axis, as the module documentation demands"]
REACH = {"model relations": 1500, "imaginary parts watched": 100000, "transform points": 20000, "round trips": 100,
         "below the gap": 3000}

GX, GW = np.polynomial.legendre.leggauss(12)


def panels(features, lo, hi):
    """Break points: every decade finely, and geometrically refined around (centre, width)."""
    pts = [np.geomspace(lo, hi, 260)]
    for c, w in features:
        d = w * np.geomspace(1e-4, 1e6, 60)
        pts += [c + d, c - d, [c]]
    p = np.unique(np.concatenate([np.asarray(q, float) for q in pts]))
    p = p[(p >= lo) & (p <= hi)]
    keep = np.concatenate([[True], np.diff(p) > 1e-13 * p[1:]])
    return p[keep]


def nodes(p):
    a, b = p[:-1, None], p[1:, None]
    return ((a + b) / 2 + (b - a) / 2 * GX).ravel(), ((b - a) / 2 * GW).ravel()


def kk_at(f, es, features, lo=1e-5, hi=1e6):
    """(2/pi) P int x f(x)/(x^2-e^2) dx for every e, with f called on arrays of energies."""
    out = []
    fes = f(np.asarray(es, float))
    for e, fe in zip(es, fes):
        x, w = nodes(panels([*features, (e, min([w for _, w in features] + [e]))], lo, hi))
        y = f(x)
        # the pole is removed by subtraction inside (lo, hi)
        g = (x * y - e * fe) / ((x - e) * (x + e))
        g[x == e] = 0
        out.append(2 / np.pi * (np.sum(w * g) + fe / 2 * (np.log((hi - e) / (hi + e)) - np.log((e - lo) / (e + lo)))))
    return np.array(out)


def draw(rng, name):
    """(model, features, vanishing from below)"""
    def u(a, b):
        return float(rng.uniform(a, b))

    def lg(a, b):
        return float(10 ** rng.uniform(np.log10(a), np.log10(b)))
    k = int(rng.choice([1, 1, 2, 4]))
    if name == "LorentzEnergy":
        r = [{"A": lg(0.1, 200), "E": u(0.1, 12), "gamma": lg(0.01, 20)} for _ in range(k)]
        m = elli.LorentzEnergy()
        for q in r:
            m.add(**q)
        return m, [(q["E"], q["gamma"]) for q in r] + [(0, q["E"] ** 2 / q["gamma"]) for q in r], None, r
    if name == "LorentzLambda":
        r = [{"A": lg(0.1, 5), "lambda_r": lg(100, 5000), "gamma": lg(1, 1000)} for _ in range(k)]
        m = elli.LorentzLambda()
        for q in r:
            m.add(**q)
        f = []
        for q in r:
            e0 = rd.HC / q["lambda_r"]
            f += [(e0, q["gamma"] / rd.HC * e0 * e0), (0, rd.HC / q["gamma"])]
        return m, f, None, r
    if name == "Gaussian":
        r = [{"A": lg(0.1, 50), "E": u(0.3, 10), "sigma": lg(0.02, 8)} for _ in range(k)]
        m = elli.Gaussian()
        for q in r:
            m.add(**q)
        return m, [(q["E"], q["sigma"]) for q in r], None, r
    if name == "TaucLorentz":
        eg = lg(0.2, 6)
        r = []
        for _ in range(k):
            e0 = eg + u(0.05, 6)
            r.append({"A": lg(1, 300), "E": e0, "C": min(lg(0.05, 10), 1.9 * e0)})
        m = elli.TaucLorentz(eg)
        for q in r:
            m.add(**q)
        return m, [(q["E"], q["C"]) for q in r] + [(eg, eg)], eg, [eg, r]
    p = {"A": lg(0.5, 50), "d": [2, 3][rng.integers(2)], "gamma": lg(0.005, 0.3), "R": lg(0.01, 0.3), "Eg": u(1, 4), "a": 0, "b": 20}
    m = elli.Tanguy(**p)
    f = [(p["Eg"], p["gamma"])]
    for n in range(1, 40):
        f.append((p["Eg"] - p["R"] / (n if p["d"] == 3 else n - 0.5) ** 2, p["gamma"]))
    return m, f[:12], None, p


NAMES = ["LorentzEnergy", "LorentzLambda", "Gaussian", "TaucLorentz", "Tanguy"]


def imag_of(m):
    def f(e):
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return np.broadcast_to(np.asarray(m.get_dielectric(rd.HC / np.asarray(e, float))), np.shape(e)).imag
    return f


def s_models(case):
    rng = case.rng
    name = NAMES[case.index % len(NAMES)]
    m, feat, gap, par = draw(rng, name)
    what = name
    if rng.random() < 0.15:  # a sum of causal models is causal
        other = NAMES[rng.integers(4)]
        m2, f2, _, p2 = draw(rng, other)
        m, feat, par, what, gap = m + m2, feat + f2, [par, p2], f"{name}+{other}", None
    n = 4
    es = np.exp(rng.uniform(np.log(0.3), np.log(15), n))
    if rng.random() < 0.5:
        c, w = feat[rng.integers(len(feat))]
        near = abs(c + w * rng.normal(0, 1, 2))
        es[:2] = np.clip(near, 0.05, 40)
    case.describe(model=what, params=par, energies=es)
    f = imag_of(m)
    re = np.asarray(m.get_dielectric(rd.HC / es)).real
    lo = 1e-5
    with np.errstate(all="ignore"):
        kk = kk_at(f, es, feat, lo=lo)
    case.event("model relations", n - 1)
    case.check(bool(np.isfinite(re).all() and np.isfinite(kk).all()), f"{what}: not finite", re=re, kk=kk)
    scale = float(np.max(np.abs(re - re[0]))) + float(np.max(np.abs(f(es)))) + float(np.max(np.abs(kk)))
    tol = {"Tanguy": 3e-4, "TaucLorentz": 1e-5}.get(name, 1e-5) * scale
    if "Tanguy" in what:
        tol = 3e-4 * scale
    d = (re - re[-1]) - (kk - kk[-1])
    case.worst = max(case.worst, float(np.max(np.abs(d))) / tol)
    case.check(bool((np.abs(d) <= tol).all()), f"{what}: the real part is not the Kramers-Kronig transform of the imaginary part",
               energies=es, real=re, transform=kk)


def s_cody(case):
    """Cody-Lorentz within the range of its grid."""
    rng = case.rng
    s, _ = c14.draw(rng, "CodyLorentz")
    lb = c14.grid(rng, "CodyLorentz")
    case.describe(model="CodyLorentz", single=s, lbda=lb)
    c14.judge(case, "CodyLorentz", elli.CodyLorentz(**s), c14.doc_value("CodyLorentz", s, []), lb, "CodyLorentz")
    case.event("model relations", len(lb))


def s_positive(case):
    """Imaginary parts are never negative, and zero below the gap where documented."""
    rng = case.rng
    name = (NAMES + ["CodyLorentz", "DrudeEnergy", "DrudeResistivity"])[case.index % (len(NAMES) + 3)]
    gap = None
    if name in NAMES:
        m, feat, gap, par = draw(rng, name)
    else:
        par, _ = c14.draw(rng, name)
        m, feat = getattr(elli, name)(**par), []
    case.describe(model=name, params=par)
    e = np.concatenate([np.geomspace(1e-6, 1e5, 300), *[np.abs(c + w * rng.normal(0, 2, 20)) + 1e-9 for c, w in feat]])
    if name == "CodyLorentz":
        e = e[(e > 0.125) & (e < 24.7)]
    if name == "Tanguy":
        e = e[(e > 0.05) & (e < 60)]
    im = imag_of(m)(e)
    case.event("imaginary parts watched", len(e))
    case.check(bool(np.isfinite(im).all()), f"{name}: imaginary part not finite", energies=e[~np.isfinite(im)])
    floor = 0.0
    if name == "Gaussian":   # difference of two equal exponentials at tiny energies
        floor = 1e-15 * sum(q["A"] for q in par)
    if name == "Tanguy":     # rounding of the closed form far from the gap
        floor = 1e-9 * float(np.max(np.abs(im)))
    bad = im < -floor
    case.check(not bad.any(), f"{name}: negative imaginary part", energies=e[bad], imag=im[bad])
    if gap is not None:
        below = np.concatenate([gap * rng.uniform(0, 1, 20) + 1e-6 * gap, gap * (1 - 10 ** rng.uniform(-9, -1, 10))])
        below = below[below < gap * (1 - 1e-12)]
        case.event("below the gap", len(below))
        case.check(not imag_of(m)(below).any(), f"{name}: absorption below its gap", gap=gap)
        case.check(bool((imag_of(m)(gap * (1 + 10 ** rng.uniform(-6, 1, 10))) > 0).all()), f"{name}: no absorption above its gap")


def s_drude(case):
    """Drude models; their real part has the opposite sign (recorded finding)."""
    rng = case.rng
    name = ["DrudeEnergy", "DrudeResistivity"][case.index % 2]
    par, _ = c14.draw(rng, name)
    if name == "DrudeEnergy":
        par = {"A": par["A"] or 1.0, "gamma": par["gamma"] or 0.1}
        g = par["gamma"]
    else:
        g = rd.HBAR_EV / par["tau"]
    m = getattr(elli, name)(**par)
    es = np.exp(rng.uniform(np.log(0.3), np.log(8), 4))
    case.describe(model=name, params=par, energies=es)
    re = np.broadcast_to(np.asarray(m.get_dielectric(rd.HC / es)), es.shape).real
    f = imag_of(m)
    # e2 ~ 1/E at small energies: integrable, the part below lo is added in closed form
    lo = g * 1e-4
    kk = kk_at(f, es, [(0, g), (g, g)], lo=lo, hi=1e7)
    kk += 2 / np.pi * lo * f(np.array([lo]))[0] * lo / (-es**2)
    case.event("model relations", 3)
    d0, d1 = re - re[-1], kk - kk[-1]
    tol = 1e-4 * (np.max(np.abs(re)) + np.max(np.abs(kk)) + np.max(np.abs(f(es))))
    if np.all(np.abs(d0 - d1) <= tol):
        return
    if np.all(np.abs(d0 + d1) <= tol):
        case.known("drude-sign", f"{name}: real part has the opposite sign of the Kramers-Kronig transform of its imaginary part",
                   energies=es, real=re, transform=kk)
        return
    case.fail(f"{name}: real part is not related to the imaginary part", energies=es, real=re, transform=kk)


# ---------------------------------------------------------------- transform functions

def bumps(rng, lo, hi, h):
    """Smooth function vanishing well inside (lo, hi), resolved by the step h."""
    out = []
    span = hi - lo
    for _ in range(int(rng.integers(1, 5))):
        s = float(rng.uniform(max(6 * h, 0.01 * span), max(8 * h, 0.05 * span)))
        c = float(rng.uniform(lo + 7 * s, hi - 7 * s))
        out.append((float(rng.uniform(-2, 3)), c, s, int(rng.integers(0, 3))))

    def f(x):
        y = np.zeros(np.shape(x))
        for a, c, s, p in out:
            t = (x - c) / s
            y = y + a * (1, t, t * t)[p] * np.exp(-t * t / 2)
        return y
    return f, [(c, s) for _, c, s, _ in out], out


def pv(f, feats, xs, kernel, lo, hi):
    """P int f(x) K(x, xi) dx where K = q(x, xi)/(x - xi)."""
    out = []
    for xi in xs:
        x, w = nodes(panels([*feats, (xi, min(s for _, s in feats))], lo, hi))
        q = f(x) * kernel(x, xi)
        qi = f(np.array([xi]))[0] * kernel(xi, xi)
        g = (q - qi) / (x - xi)
        g[x == xi] = 0
        v = np.sum(w * g)
        if lo < xi < hi:
            v += qi * np.log((hi - xi) / (xi - lo))
        out.append(v)
    return np.array(out)


FORMS = {
    "im2re": (im2re, lambda x, xi: 2 / np.pi * x / (x + xi)),
    "re2im": (re2im, lambda x, xi: -2 / np.pi * xi / (x + xi)),
    "im2re_reciprocal": (im2re_reciprocal, lambda x, xi: -2 / np.pi * xi * xi / (x * (x + xi))),
    "re2im_reciprocal": (re2im_reciprocal, lambda x, xi: 2 / np.pi * xi / (x + xi)),
}


def s_transform(case):
    rng = case.rng
    name = list(FORMS)[case.index % 4]
    fn, ker = FORMS[name]
    n = int(rng.integers(400, 1500))
    lo = float(10 ** rng.uniform(-1, 2.5))
    hi = lo * float(rng.uniform(2, 30))
    x = np.linspace(lo, hi, n)
    h = x[1] - x[0]
    f, feats, par = bumps(rng, lo, hi, h)
    y = f(x)
    desc = rng.random() < 0.3
    if desc:
        x, y = x[::-1], y[::-1]
        if rng.random() < 0.5:
            x, y = x.copy(), y.copy()
    case.describe(function=name, lo=lo, hi=hi, n=n, bumps=par, descending=desc)
    x0, y0 = x.copy(), y.copy()
    got = fn(y, x)
    case.check(np.array_equal(x, x0) and np.array_equal(y, y0), f"{name} changed its input")
    case.check(isinstance(got, np.ndarray) and got.shape == (n,), f"{name}: shape")
    pick = np.unique(np.concatenate([[0, 1, 2, n - 2, n - 1], rng.integers(0, n, 60)]))
    # points without own contribution are exact as well: check edges too
    want = pv(f, feats, x[pick], ker, lo * (1 - 1e-12), hi * (1 + 1e-12))
    scale = float(np.max(np.abs(got))) + float(np.max(np.abs(y)))
    case.event("transform points", len(pick))
    case.close(got[pick], want, f"{name} of a smooth spectrum", rtol=0, atol=2e-6 * scale, at=x[pick])
    # linear in the spectrum
    f2, _, _ = bumps(rng, lo, hi, h)
    a, b = rng.normal(0, 2, 2)
    y2 = f2(x)
    case.close(fn(a * y + b * y2, x), a * got + b * fn(y2, x), f"{name} is linear", rtol=0, atol=1e-11 * (scale * 5 + 5))
    # independent of the unit of the axis
    k = float(10 ** rng.uniform(-3, 3))
    case.close(fn(y, k * x), got, f"{name} depends on the unit of its axis", rtol=0, atol=1e-9 * scale)
    case.close(fn(y[::-1], x[::-1]), got[::-1], f"{name} depends on the direction of its axis", rtol=0, atol=1e-10 * scale)
    bad = rng.integers(1, n)
    case.raises(ValueError, lambda: fn(y[:bad], x), f"{name} of axes of unequal length")
    case.raises(ValueError, lambda: fn(y, x[:bad]), f"{name} of axes of unequal length")


def s_inverse(case):
    """im -> re -> im and re -> im -> re restore the spectrum; the energy and wavelength forms agree."""
    rng = case.rng
    n = int(rng.integers(1500, 3000))
    kind = case.index % 3
    hi = float(10 ** rng.uniform(-1, 3))
    x = np.arange(1, n + 1) * hi / n
    h = hi / n
    # narrow features near the middle of a long axis: the transform decays before the end
    s = float(rng.uniform(8, 20)) * h
    c = float(rng.uniform(0.1, 0.2)) * hi
    a = float(rng.uniform(0.2, 3))
    y = a * np.exp(-((x - c) / s) ** 2 / 2)
    case.describe(kind=kind, n=n, hi=hi, centre=c, width=s)
    case.event("round trips")
    core = slice(5, n // 2)
    if kind == 0:
        re = im2re(y, x)
        back = re2im(re, x)
        case.close(back[core], y[core], "re2im(im2re(spectrum))", rtol=0, atol=0.02 * a)
        xi = x[core]
        case.check(np.max(np.abs(back[core] - y[core])) < 0.02 * a, "re2im is not the inverse of im2re")
        im = re2im(y, x)
        back = im2re(im, x)
        d = back[core] - y[core]
        case.check(np.max(np.abs(d - d.mean())) < 0.05 * a, "im2re is not the inverse of re2im up to a constant", at=xi[:5])
    elif kind == 1:
        re = im2re_reciprocal(y, x)
        far = slice(n // 20, n // 2)
        back = re2im_reciprocal(re, x)
        d = back[far] - y[far]
        case.check(np.max(np.abs(d)) < 0.1 * a, "re2im_reciprocal is not the inverse of im2re_reciprocal", worst=np.max(np.abs(d)))
    else:
        # the same physical spectrum on both axes
        E = np.linspace(0.05, 12, n)
        L = np.linspace(rd.HC / 12, rd.HC / 0.4, 2 * n)
        r = {"A": float(rng.uniform(1, 5)), "E": float(rng.uniform(1.8, 4)), "sigma": float(rng.uniform(0.3, 0.6))}
        g = elli.Gaussian().add(**r)
        case.describe(gaussian=r)
        m = np.interp(np.linspace(1, 6, 60), E, im2re(g.get_dielectric(rd.HC / E).imag, E))
        w = np.interp(rd.HC / np.linspace(1, 6, 60), L, im2re_reciprocal(g.get_dielectric(L).imag, L))
        case.close(w, m, "wavelength and energy forms of im2re", rtol=0, atol=5e-3 * r["A"])
        re = g.get_dielectric(rd.HC / np.linspace(1, 6, 60)).real
        case.close(m, re, "im2re of a Gaussian oscillator", rtol=0, atol=5e-3 * r["A"])
        # compactly supported real parts
        y1 = np.exp(-((E - r["E"]) / 0.2) ** 2)
        y2 = np.exp(-((rd.HC / L - r["E"]) / 0.2) ** 2)
        case.close(np.interp(rd.HC / np.linspace(1.5, 5, 40), L, re2im_reciprocal(y2, L)),
                   np.interp(np.linspace(1.5, 5, 40), E, re2im(y1, E)), "wavelength and energy forms of re2im", rtol=0, atol=1e-2)


SUITES = [
    Suite("models", s_models, 800, 25000),
    Suite("cody", s_cody, 100, 3000),
    Suite("positive", s_positive, 800, 40000),
    Suite("drude", s_drude, 60, 1000),
    Suite("transform", s_transform, 600, 20000),
    Suite("inverse", s_inverse, 150, 5000),
]
