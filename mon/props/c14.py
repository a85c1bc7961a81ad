"""C14: dispersion models compute their documented formulas."""
import itertools

import numpy as np
import scipy.interpolate

import elli
from .. import gen
from ..core import Suite
from ..ref import disp as rd
from ..ref import kk
from ..wide import MODELS, wide_disp

PROPERTY = "C14"
RULE = (
    "every model with random, zero, integer and default parameters, 0-6 oscillators, constructed "
    "positionally, by keyword, mixed, through the factory and with chained add(); values compared with "
    "independent evaluations of the documented formula one wavelength at a time (Tauc- and Cody-Lorentz real "
    "parts by quadrature, Tanguy and Gaussian in multi-precision); tables against own interpolation; views, "
    "data frames and defaults compared with each other"
)
ASSUMPTIONS = ["the numerically transformed real part of the Cody-Lorentz model is judged to 0.5 % for "
               "broadenings above 0.8 eV (its grid is fixed in the model)"]

RI = {"Cauchy", "CauchyCustomExponent", "CauchyUrbach", "ConstantRefractiveIndex"}

# name -> (single parameters in order with documented defaults, repeated likewise)
DOC = {
    "Cauchy": ({"n0": 1.5, "n1": 0, "n2": 0, "k0": 0, "k1": 0, "k2": 0}, {}),
    "CauchyCustomExponent": ({"n0": 1.5}, {"f": 0, "e": 1}),
    "CauchyUrbach": ({"n0": 1.5, "B": 0, "C": 0, "D": 0, "Eg": 2, "Eu": 0.5}, {}),
    "ConstantRefractiveIndex": ({"n": 1}, {}),
    "EpsilonInf": ({"eps": 1}, {}),
    "Sellmeier": ({}, {"A": 0, "B": 0}),
    "SellmeierCustomExponent": ({}, {"A": 0, "e_A": 1, "B": 0, "e_B": 1}),
    "Polynomial": ({"e0": 1}, {"f": 0, "e": 0}),
    "Poles": ({"A_ir": 1, "A_uv": 1, "E_uv": 6}, {}),
    "LorentzEnergy": ({}, {"A": 1, "E": 0, "gamma": 0}),
    "LorentzLambda": ({}, {"A": 1, "lambda_r": 0, "gamma": 0}),
    "Gaussian": ({}, {"A": 1, "E": 1, "sigma": 1}),
    "DrudeEnergy": ({"A": 0, "gamma": 0}, {}),
    "DrudeResistivity": ({"rho_opt": 1, "tau": 1}, {}),
    "Tanguy": ({"A": 1, "d": 3, "gamma": 0.1, "R": 0.1, "Eg": 1, "a": 0, "b": 0}, {}),
    "TaucLorentz": ({"Eg": 1}, {"A": 20, "E": 1.5, "C": 1}),
    "CodyLorentz": ({"Eg": 1.6, "A": 100, "Et": 1.8, "gamma": 2.4, "Ep": 0.8, "E0": 3.6, "Eu": 0.05}, {}),
}
PLAIN = [n for n in DOC if n not in ("TaucLorentz", "CodyLorentz")]
REACH = {"values": 3000, "table values": 1000, "outside the table": 300, "views": 500, "default parameters": 150,
         **{"model " + n: 20 for n in DOC}}


def draw(rng, name):
    """(single, list of repeated) full parameter sets in a sensible range."""
    def u(a, b):
        x = float(rng.uniform(a, b))
        return int(round(x)) if b - a > 3 and rng.random() < 0.15 else x

    def z(x, p=0.1):
        return 0 if rng.random() < p else x
    k = rng.size_of([0, 1, 1, 2, 3, 6], 40, 0)
    if name == "Cauchy":
        return {"n0": u(1, 3), "n1": z(u(-50, 200)), "n2": z(u(-50, 200)), "k0": z(u(0, 1)), "k1": z(u(0, 50)), "k2": z(u(0, 50))}, []
    if name == "CauchyCustomExponent":
        return {"n0": u(1, 3)}, [{"f": z(u(-1, 1)) * 500.0 ** -(e := float(rng.choice([-4, -2, -1, -0.5, 0, 0.5, 1, 2, u(-3, 2)]))), "e": e}
                                 for _ in range(k)]
    if name == "CauchyUrbach":
        return {"n0": u(1, 3), "B": z(u(-0.01, 0.05)), "C": z(u(-0.001, 0.001)), "D": z(u(0, 1)), "Eg": u(1, 6), "Eu": u(0.1, 2)}, []
    if name == "ConstantRefractiveIndex":
        return {"n": [u(0.1, 5), complex(u(0.1, 5), u(0, 8)), 2][rng.integers(3)]}, []
    if name == "EpsilonInf":
        return {"eps": [u(0.1, 12), complex(u(-10, 12), u(0, 8)), 3, -2.5][rng.integers(4)]}, []
    if name == "Sellmeier":
        return {}, [{"A": z(u(0, 3)), "B": z(float(10 ** rng.uniform(-3, 2.5)))} for _ in range(k)]
    if name == "SellmeierCustomExponent":
        return {}, [{"A": z(u(0, 3)), "e_A": float(rng.choice([0, 1, 2, -1, 1.5])), "B": float(10 ** rng.uniform(-2, 1)),
                     "e_B": float(rng.choice([1, 2, 0.5, 3]))} for _ in range(k)]
    if name == "Polynomial":
        return {"e0": u(-2, 5)}, [{"f": z(u(-1, 1)) * 500.0 ** -(e := float(rng.choice([-4, -2, -1, 0, 0.5, 1, 2, 3]))), "e": e}
                                  for _ in range(k)]
    if name == "Poles":
        return {"A_ir": z(u(0, 5)), "A_uv": z(u(0, 80)), "E_uv": u(5, 12)}, []
    if name == "LorentzEnergy":
        return {}, [{"A": z(u(0, 60)), "E": z(u(0.1, 9)), "gamma": z(u(0.01, 3))} for _ in range(k)]
    if name == "LorentzLambda":
        return {}, [{"A": z(u(0, 5)), "lambda_r": z(u(50, 3000)), "gamma": z(u(0.5, 300))} for _ in range(k)]
    if name == "Gaussian":
        return {}, [{"A": z(u(0, 8)), "E": z(u(0.1, 9)), "sigma": float(10 ** rng.uniform(-1.5, 1))} for _ in range(k)]
    if name == "DrudeEnergy":
        return {"A": z(u(0, 80)), "gamma": z(u(0.005, 1))}, []
    if name == "DrudeResistivity":
        return {"rho_opt": float(10 ** rng.uniform(-6, -1)), "tau": float(10 ** rng.uniform(-16, -12))}, []
    if name == "Tanguy":
        return {"A": u(0.5, 20), "d": [2, 3, 2.5, 2.0, 3.0, float(rng.uniform(2.05, 2.95))][rng.integers(6)], "gamma": u(0.005, 0.3),
                "R": u(0.01, 0.3), "Eg": u(1, 4), "a": z(u(0, 40)), "b": u(15, 60)}, []
    if name == "TaucLorentz":
        eg = u(0.3, 3)
        return {"Eg": eg}, [{"A": u(5, 200), "E": (e := eg + u(0.1, 3.4)), "C": min(u(0.1, min(1.9 * e, 6)), 1.95 * e) or 0.5} for _ in range(max(k, 1))]
    eg = u(1, 2.5)
    return {"Eg": eg, "A": u(20, 150), "Et": eg + u(0.05, 0.6), "gamma": u(0.8, 3), "Ep": u(0.3, 2), "E0": u(eg + 0.8, 6), "Eu": u(0.02, 0.3)}, []


def doc_value(name, s, rep):
    if name == "TaucLorentz":
        def f(w):
            e = rd.energy(w)
            out = 0
            for r in rep:
                p = (s["Eg"], r["A"], r["E"], r["C"])
                out += 1j * rd.tl_eps2(e, *p) + kk.re_from_im(lambda x, p=p: rd.tl_eps2(x, *p), e, s["Eg"], 60.0,
                                                              [r["E"], r["E"] - r["C"], r["E"] + r["C"]])
            return out
        return f
    if name == "CodyLorentz":
        def f(w):
            e = rd.energy(w)
            re = kk.re_from_im(lambda x: rd.cody_eps2(x, **s) if x > 0 else 0.0, e, 1e-9, 60.0,
                               [s["Et"], s["E0"], s["E0"] + s["gamma"], max(0.01, s["E0"] - s["gamma"])])
            return re + 1j * rd.cody_eps2(e, **s)
        return f
    f = gen.eps_of(name, s, rep)[1]
    return lambda w: complex(f(w))


def build(case, name, s, rep):
    """One of the ways to construct the same model."""
    rng = case.rng
    keys = list(DOC[name][0])
    how = rng.integers(5)
    npos = {0: 0, 1: len(keys), 2: int(rng.integers(0, len(keys) + 1)), 3: 0, 4: len(keys)}[int(how)]
    args = [s[k] for k in keys[:npos]]
    kw = {k: s[k] for k in keys[npos:]}
    kw = dict(sorted(kw.items(), key=lambda _: rng.random()))
    # parameters equal to their default need not be given
    if rng.random() < 0.5:
        kw = {k: v for k, v in kw.items() if not (v == DOC[name][0][k] and type(v) is type(DOC[name][0][k]))}
    if how >= 3:
        d = elli.DispersionFactory.get_dispersion(name, *args, **kw)
    else:
        d = getattr(elli, name)(*args, **kw)
    rkeys = list(DOC[name][1])
    for r in rep:
        n = int(rng.integers(0, len(rkeys) + 1))
        got = d.add(*[r[k] for k in rkeys[:n]], **{k: r[k] for k in rkeys[n:]})
        case.check(got is d, f"{name}.add does not return the model")
    case.event(f"construction {int(how)}")
    return d


def grid(rng, name):
    n = rng.size_of(range(1, 5), 100)
    if name == "CodyLorentz":
        return rng.uniform(120, 3000, n)
    if name in ("TaucLorentz", "Tanguy"):
        return rng.uniform(130, 3000, n)
    u = rng.random()
    if u < 0.2:
        return 10 ** rng.uniform(1.7, 4.5, n)
    return rng.uniform(150, 2500, n)


ENERGY = {"TaucLorentz": ["Eg"], "CodyLorentz": ["Et"], "LorentzEnergy": ["E"], "Gaussian": ["E"], "CauchyUrbach": ["Eg"],
          "Tanguy": ["Eg"], "LorentzLambda": ["lambda_r"]}


def coincide(case, name, s, rep, lb):
    """A parameter exactly at the energy (or wavelength) of an evaluated point."""
    rng = case.rng
    if name not in ENERGY or rng.random() > 0.15:
        return
    w = lb[rng.integers(len(lb))]
    x = float(w if name == "LorentzLambda" else elli.utils.conversion_wavelength_energy(w))
    key = ENERGY[name][0]
    if key in s:
        if name == "TaucLorentz" and not 0.3 < x < min(r["E"] for r in rep) - 0.1:
            return
        if name == "CodyLorentz" and not s["Eg"] + 0.05 < x < s["E0"] - 0.2:
            return
        s[key] = x
    elif rep:
        r = rep[rng.integers(len(rep))]
        if r.get("gamma", 1) == 0:      # a pole
            return
        r[key] = x
    case.event("parameter at an evaluated energy")


def judge(case, name, d, f, lb, what):
    want = np.array([f(float(w)) for w in lb])
    with np.errstate(all="ignore"):
        near = np.array([f(float(w) * (1 + 1e-10)) for w in lb]) if name not in ("TaucLorentz", "CodyLorentz") else want
    if not np.isfinite(want).all() or not np.isfinite(near).all():
        case.event("singular, not judged")
        return
    eps = want**2 if name in RI else want
    nidx = want if name in RI else np.sqrt(want.astype(complex))
    got = d.get_dielectric(lb)
    case.event("values", len(lb))
    case.event("model " + name)
    case.check(np.ndim(got) == 0 or np.shape(got) == lb.shape, f"{what}: shape {np.shape(got)}")
    case.check(np.asarray(got).dtype == np.complex128, f"{what}: get_dielectric is not complex")
    big = float(np.max(np.abs(want)))
    tol = 1e-10 * np.abs(want) + 20 * np.abs(near - want) + 1e-12 * big + 1e-14
    if name in ("Gaussian", "Tanguy"):
        tol = 1e-9 * np.abs(want) + 20 * np.abs(near - want) + 1e-9 * big + 1e-13
        if name == "Tanguy" and d.single_params["d"] not in (2, 3):
            tol = tol * 10
    if name == "TaucLorentz":
        tol = 1e-7 * np.abs(want) + 1e-7 * big
    if name == "CodyLorentz":
        # the real part comes from a fixed 10 nm grid, which sees the kink at Et only roughly
        p = d.single_params
        e, de = rd.HC / lb, 10 / lb * rd.HC / lb
        kink = rd.cody_eps2(p["Et"], **p) * np.minimum(1, de / p["Eu"]) / (1 + np.abs(e - p["Et"]) / de)
        coarse = p["A"] / p["gamma"] * min(1, (10 / rd.HC * p["E0"] ** 2 / p["gamma"]) ** 2)
        tol = 0.005 * np.max(np.abs(want)) + 0.01 * np.abs(want) + kink + coarse
        im = np.array([w.imag for w in want])
        case.close(np.asarray(got).imag, im, f"{what}: imaginary part", rtol=1e-9, atol=1e-12 * (1 + big))
    tole = tol * (2 * np.abs(want) + tol) if name in RI else tol
    g = np.broadcast_to(got, lb.shape)
    bad = ~(np.abs(g - eps) <= tole)
    case.check(not bad.any(), f"{what}: dielectric function differs from the documented formula", lbda=lb, got=g, want=eps,
               tolerance=tole)
    case.worst = max(case.worst, float(np.max(np.abs(g - eps) / tole)))
    gn = np.broadcast_to(np.asarray(d.get_refractive_index(lb)), lb.shape).astype(complex)
    case.event("values", len(lb))
    if name in RI:
        case.check(bool((np.abs(gn - nidx) <= tol).all()), f"{what}: refractive index differs from the documented formula",
                   lbda=lb, got=gn, want=nidx)
    else:
        case.check(bool((np.abs(gn**2 - g) <= 1e-11 * np.abs(g) + 1e-14).all()), f"{what}: index squared is not the dielectric function")
        case.check(bool((gn.real >= -1e-12).all()), f"{what}: negative refractive index")


def s_formula(case):
    rng = case.rng
    name = PLAIN[case.index % len(PLAIN)]
    s, rep = draw(rng, name)
    lb = grid(rng, name)
    coincide(case, name, s, rep, lb)
    case.describe(model=name, single=s, rep=rep, lbda=lb)
    d = build(case, name, s, rep)
    judge(case, name, d, doc_value(name, s, rep), lb, name)
    # the parameters are what was given
    case.check(dict(d.single_params) == s, f"{name}: parameters {d.single_params}")
    case.check([dict(r) for r in d.rep_params] == rep, f"{name}: oscillators {d.rep_params}")
    if DOC[name][1]:
        s2, more = draw(rng, name)
        for r in more[:1]:
            d.add(**r)
            rep = rep + [r]
            judge(case, name, d, doc_value(name, s, rep), lb, f"{name} with another oscillator")


def s_gap(case):
    rng = case.rng
    name = ["TaucLorentz", "CodyLorentz"][case.index % 2]
    s, rep = draw(rng, name)
    lb = grid(rng, name)
    gap = s["Eg"] if name == "TaucLorentz" else s["Et"]
    if rng.random() < 0.5:   # close to the gap on both sides
        lb = rd.HC / (gap * (1 + np.array([-1, 1]) * 10 ** rng.uniform(-4, -1)))
    coincide(case, name, s, rep, lb)
    gap = s["Eg"] if name == "TaucLorentz" else s["Et"]
    case.describe(model=name, single=s, rep=rep, lbda=lb)
    d = build(case, name, s, rep)
    judge(case, name, d, doc_value(name, s, rep), lb, name)
    if name == "TaucLorentz":
        below = rd.HC / (gap * rng.uniform(0.05, 0.999, 5))
        case.check(not d.get_dielectric(below).imag.any(), "absorption below the Tauc gap")
        case.event("values", 5)


def s_defaults(case):
    """Models without arguments and oscillators without arguments have the documented defaults."""
    rng = case.rng
    name = list(DOC)[case.index % len(DOC)]
    single, repeat = DOC[name]
    cls = getattr(elli, name)
    case.describe(model=name, lbda=(lb := grid(rng, name)))
    for d in (cls(), elli.DispersionFactory.get_dispersion(name)):
        case.event("default parameters")
        case.check(list(d.single_params) == list(single), f"{name}: parameter order {list(d.single_params)}")
        case.check(dict(d.single_params) == single, f"{name}: defaults {d.single_params}")
        case.check(d.rep_params == [], f"{name}: a new model has oscillators")
    if name == "Sellmeier" or name in RI or name in ("EpsilonInf", "Poles", "DrudeEnergy", "DrudeResistivity", "Tanguy",
                                                     "CodyLorentz", "Polynomial", "LorentzEnergy", "LorentzLambda"):
        judge(case, name, cls(), doc_value(name, single, []), lb, f"{name}()")
    if repeat:
        d = cls()
        case.check(d.add() is d, "add returns the model")
        case.check(d.rep_params == [repeat], f"{name}.add(): {d.rep_params}")
        # one given parameter at a time, the others default
        for k in repeat:
            full = {**repeat, k: 2.75}
            d = cls().add(**{k: 2.75})
            case.check(d.rep_params == [full], f"{name}.add({k}=2.75): {d.rep_params}")
            case.check(cls().rep_params == [], "oscillators leak between models")
            if name not in ("TaucLorentz",):
                with np.errstate(all="ignore"):
                    try:
                        f = doc_value(name, single, [full])
                        [f(float(w)) for w in lb]
                    except ZeroDivisionError:
                        continue
                    judge(case, name, d, f, lb, f"{name}.add({k}=2.75)")
    for k in single:
        full = {**single, k: 2.25}
        d = cls(**{k: 2.25})
        case.check(dict(d.single_params) == full, f"{name}({k}=2.25): {d.single_params}")
        case.check(dict(cls().single_params) == single, "parameters leak between models")


def own_interp(kind, x, y, lb):
    o = np.argsort(x, kind="stable")
    x, y = x[o], y[o]
    if kind == "linear":
        return np.interp(lb, x, y.real) + 1j * np.interp(lb, x, y.imag)
    if kind == "nearest":
        return np.array([y[np.argmin(np.abs(x - w))] for w in lb])
    if kind in ("previous", "zero"):
        return np.array([y[np.nonzero(x <= w)[0][-1]] for w in lb])
    if kind == "next":
        return np.array([y[np.nonzero(x >= w)[0][0]] for w in lb])
    k = {"quadratic": 2, "cubic": 3, "slinear": 1}[kind]
    return scipy.interpolate.make_interp_spline(x, y, k=k)(lb)


def s_table(case):
    rng = case.rng
    eps = bool(case.index % 2)
    n = rng.size_of([2, 3, 5, 10, 200], 2000, 2)
    x = np.sort(rng.uniform(150, 2000, n))
    if rng.random() < 0.3:
        x = np.unique(np.round(x))
        n = len(x)
        if n < 2:
            x = np.array([300., 400.])
            n = 2
    if n < 50 and np.min(np.diff(x)) < 1e-3:
        x = np.linspace(300, 900, n)
    real = rng.random() < 0.3
    y = rng.uniform(1, 9, n) + (0 if real else 1j * rng.random(n))
    kinds = ["default", "linear", "nearest", "zero", "slinear"] + (["quadratic", "cubic"] if n >= 5 and n < 50 else [])
    kind = kinds[rng.integers(len(kinds))]
    perm = np.arange(n)
    if rng.random() < 0.3:
        perm = perm[::-1]
    elif rng.random() < 0.2:
        perm = rng.permutation(n)
    form = rng.integers(4)

    def wrap(a):
        a = a[perm]
        return [a, list(a.tolist()), tuple(a.tolist()), np.repeat(a, 2)[::2]][form]
    cls = elli.TableEpsilon if eps else elli.Table
    key = "epsilon" if eps else "n"
    kw = {} if kind == "default" else {"kind": kind}
    case.describe(table=key, n=n, kind=kind, x=x, y=y)
    u = rng.integers(3)
    if u == 0:
        d = cls(lbda=wrap(x), **{key: wrap(y)}, **kw)
    elif u == 1:
        d = cls(wrap(x), wrap(y), **kw)
    else:
        d = elli.DispersionFactory.get_dispersion(cls.__name__, lbda=wrap(x), **{key: wrap(y)}, **kw)
    lb = rng.uniform(x[0], x[-1], 6)
    if kind == "nearest":
        mid = (x[1:] + x[:-1]) / 2
        lb = lb[[np.min(np.abs(mid - w)) > 1e-6 for w in lb]]
        if not len(lb):
            lb = x[:1]
    k = "linear" if kind == "default" else kind
    want = own_interp(k, x, y.astype(complex), lb)
    f = (d.get_dielectric if eps else d.get_refractive_index)
    tol = dict(rtol=1e-9, atol=1e-11) if k not in ("quadratic", "cubic") else dict(rtol=1e-6, atol=1e-6 * float(np.max(np.abs(want))))
    case.event("table values", len(lb) + n)
    case.close(f(lb), want, f"{cls.__name__} {kind} between the points", **tol)
    case.close(f(x), y.astype(complex), f"{cls.__name__} {kind} at its points", **tol)
    case.close(d.get_refractive_index(lb) ** 2, np.asarray(d.get_dielectric(lb)), "views of a table", rtol=1e-11, atol=1e-13)
    case.check(list(np.asarray(d.default_lbda_range)) == list(x[perm]), "default range of a table")
    case.close(f(None), y[perm].astype(complex), "table on its own range", **tol)
    for bad in (x[0] - 1e-6, x[-1] + 1e-6, x[0] / 2, 2 * x[-1], -5.0, 0.0, np.inf):
        case.event("outside the table")
        case.raises(ValueError, lambda bad=bad: f(bad), f"{cls.__name__} at {bad} outside {x[0]}..{x[-1]}")
        case.raises(ValueError, lambda bad=bad: f(np.array([x[0], bad])), f"{cls.__name__} at {bad} outside {x[0]}..{x[-1]}")


def s_pseudo(case):
    rng = case.rng
    n = rng.size_of(range(4, 30), 1000, 4)
    x = np.linspace(300, 900, n) + min(3, 180 / n) * rng.uniform(-1, 1, n)
    angle = float(rng.uniform(30, 80))
    eps = np.polyval(rng.uniform(-1, 1, 3), (x - 600) / 300) + 6 + 1j * (1 + np.cos(x / 200))
    th = np.deg2rad(angle)
    q = np.sqrt(eps - np.sin(th) ** 2 + 0j)
    rp = (eps * np.cos(th) - q) / (eps * np.cos(th) + q)
    rs = (np.cos(th) - q) / (np.cos(th) + q)
    rho = -rp / rs if False else rp / rs
    # convention of the package: rho = tan(psi) exp(-i delta), with rho of a bulk sample
    psi, delta = np.rad2deg(np.arctan(np.abs(rho))), -np.rad2deg(np.angle(rho))
    case.describe(angle=angle, n=n, eps=eps)
    d = elli.PseudoDielectricFunction(angle=angle, lbda=x, psi=psi, delta=delta)
    case.event("table values", n)
    own = np.sin(th) ** 2 * (1 + np.tan(th) ** 2 * ((1 - rho) / (1 + rho)) ** 2)
    case.close(d.get_dielectric(x), own, "pseudo dielectric function at its points", rtol=1e-7, atol=1e-8)
    case.close(own, eps, "bulk inversion", rtol=1e-6, atol=1e-7)
    lb = rng.uniform(x[0], x[-1], 5)
    case.close(d.get_dielectric(lb), own_interp("cubic", x, own, lb), "pseudo dielectric function between its points",
               rtol=1e-5, atol=1e-5)
    for bad in (x[0] - 1, x[-1] + 1):
        case.event("outside the table")
        case.raises(ValueError, lambda bad=bad: d.get_dielectric(bad), "outside the measured range")


def s_views(case):
    """Index, permittivity, data frames, conjugates and default range of one object agree."""
    rng = case.rng
    name = list(MODELS)[case.index % len(MODELS)]
    d = wide_disp(rng, name)
    lb = rng.uniform(250, 1900, rng.size_of(range(1, 6), 200))
    case.describe(model=name, params=d.single_params, lbda=lb)
    case.event("views")
    for w in (lb, list(lb)) + ((None,) if rng.random() < 0.5 else ()):
        at = np.asarray(d.default_lbda_range if w is None else w, float)
        eps = np.broadcast_to(np.asarray(d.get_dielectric(w)), at.shape)
        nk = np.broadcast_to(np.asarray(d.get_refractive_index(w)), at.shape)
        s = float(np.max(np.abs(eps)))
        case.close(nk**2, eps, f"{name}: index squared", rtol=1e-10, atol=1e-12 * s)
        if w is None and name not in ("Table", "TableEpsilon"):
            case.check(at.shape == (801,) and at[0] == 200 and at[-1] == 1000, "documented default range is 200 to 1000 nm, 801 points")
            case.close(d.get_dielectric(np.linspace(200, 1000, 801)), d.get_dielectric(), "values on the default range", rtol=1e-13)
        for conj, sign in ((False, 1), (True, -1)):
            kw = [{"conjugate": conj}, {} if not conj else {"conjugate": True}][rng.integers(2)]
            de, dn = d.get_dielectric_df(w, **kw), d.get_refractive_index_df(w, **kw)
            case.check(list(de.columns) == ["ϵ1", "ϵ2"] and list(dn.columns) == ["n", "k"], "columns of the data frames")
            case.check(de.index.name == "Wavelength" and dn.index.name == "Wavelength", "index name of the data frames")
            case.check(np.array_equal(de.index.to_numpy(), at) and np.array_equal(dn.index.to_numpy(), at), "index of the data frames")
            case.close(de["ϵ1"].to_numpy(), eps.real, f"{name}: ϵ1", rtol=1e-13, atol=0)
            case.close(de["ϵ2"].to_numpy(), sign * eps.imag, f"{name}: ϵ2 conjugate={conj}", rtol=1e-13, atol=0)
            case.close(dn["n"].to_numpy(), nk.real, f"{name}: n", rtol=1e-13, atol=0)
            case.close(dn["k"].to_numpy(), sign * nk.imag, f"{name}: k conjugate={conj}", rtol=1e-13, atol=0)
    case.check(name.split()[0] in repr(d) or "Sum" in repr(d) or name == "as_index" or "Dispersion" in repr(d), f"repr: {repr(d)[:60]}")


SUITES = [
    Suite("formula", s_formula, len(PLAIN) * 400, len(PLAIN) * 12000),
    Suite("gap", s_gap, 4500, 45000),
    Suite("defaults", s_defaults, len(DOC) * 12, len(DOC) * 200),
    Suite("table", s_table, 4500, 50000),
    Suite("pseudo", s_pseudo, 600, 8000),
    Suite("views", s_views, len(MODELS) * 20, len(MODELS) * 500),
]
