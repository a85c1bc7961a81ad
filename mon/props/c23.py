"""C23: unit and quantity conversions are exact inverses."""
import numpy as np
import pandas as pd

import elli
from elli import utils
from ..core import Suite
from .. import gen, samples

PROPERTY = "C23"
RULE = (
    "conversions of numbers, arrays of any shape and type and tables over twelve decades against the defining relations "
    "with exact SI constants and against each other; rho, pseudo dielectric function and isotropic Mueller matrix of "
    "random data against scalar definitions, and of simulated bulk and layered samples against the simulation; "
    "quarter-wave layers in simulated coatings"
)
ASSUMPTIONS = ["the value of h/e used by scipy may be rounded in the tenth digit"]
REACH = {"conversions": 5000, "rho values": 1000, "pseudo values": 1000, "mueller": 1000, "bulk": 60, "layered": 40, "quarter wave": 60, "round trips": 3000}

H, E, C = 6.62607015e-34, 1.602176634e-19, 299792458.0
CONV = {
    "conversion_wavelength_energy": (lambda x: H * C / (x * 1e-9) / E, (1e-3, 1e7), "conversion_wavelength_energy"),
    "conversion_frequency2energy": (lambda x: H * x / E, (1e3, 1e20), "conversion_energy2frequency"),
    "conversion_energy2frequency": (lambda x: x * E / H, (1e-9, 1e5), "conversion_frequency2energy"),
    "conversion_wavelength_frequency": (lambda x: C / (x * 1e-9), (1e-3, 1e12), "conversion_wavelength_frequency"),
    "conversion_wavelength_wavenumber": (lambda x: 1 / (x * 1e-9) / 100, (1e-3, 1e9), "conversion_wavelength_wavenumber"),
}


def fn(name):
    return getattr(elli, name) if hasattr(elli, name) else getattr(utils, name)


def s_units(case):
    rng = case.rng
    name = list(CONV)[case.index % len(CONV)]
    want, (lo, hi), inverse = CONV[name]
    f, g = fn(name), fn(inverse)

    def draw(shape):
        return 10 ** rng.uniform(np.log10(lo), np.log10(hi), shape)
    shape = [(), (1,), (7,), (2, 3), (0,), (3, 1, 2)][rng.integers(6)]
    x = draw(shape)
    kind = int(rng.integers(6))
    case.describe(function=name, shape=shape, kind=kind, values=x)
    if kind == 0:
        x = float(draw(()))
    elif kind == 1:
        x = int(rng.integers(1, 5000))
    elif kind == 2:
        x = np.asarray(rng.integers(1, 5000, shape))
    elif kind == 3:
        x = pd.Series(draw(5), index=list("abcde"))
    elif kind == 4:
        x = np.float64(draw(()))
    before = np.array(x, copy=True)
    y = f(x)
    case.event("conversions", np.size(x))
    case.check(np.shape(y) == np.shape(x), f"shape {np.shape(y)} for {np.shape(x)}")
    case.check(np.array_equal(np.asarray(x), before), "the argument was changed")
    if np.size(x):
        case.close(np.asarray(y) / want(np.asarray(x, dtype=float)), np.ones(np.shape(x)), name, rtol=2e-9)
        case.event("round trips", np.size(x))
        z = np.asarray(g(y))
        case.close(z / np.asarray(x, dtype=float), np.ones(np.shape(x)), f"{inverse}({name}(x))", rtol=1e-13)
    if kind == 3:
        case.check(isinstance(y, pd.Series) and list(y.index) == list("abcde"), "index of a Series")
    # the relations among each other
    w = draw(()) if name.startswith("conversion_wavelength") else 10 ** rng.uniform(0, 5)
    nu = fn("conversion_wavelength_frequency")(w)
    case.close(fn("conversion_frequency2energy")(nu) / fn("conversion_wavelength_energy")(w), 1, "energy by frequency", rtol=2e-15 * 20)
    case.close(fn("conversion_wavelength_wavenumber")(w) * 100 * C / nu, 1, "wavenumber by frequency", rtol=1e-13)
    case.close(float(fn("conversion_wavelength_energy")(1000.0)), 1.2398419843320026, "1000 nm in eV", rtol=1e-9)


def frame(rng, n):
    psi = rng.uniform(0, 90, n)
    delta = rng.uniform(*[(-180, 180), (0, 360), (-720, 720)][rng.integers(3)], n)
    if rng.random() < 0.1:
        psi[0], delta[0] = rng.choice([0, 45]), rng.choice([0, 180, -180, 90, 360])
    return pd.DataFrame({"Ψ": psi, "Δ": delta})


def s_quantities(case):
    rng = case.rng
    nang, n = rng.size_of([1, 1, 2, 4], 12), rng.size_of([1, 2, 9, 30], 600)
    aois = rng.permutation(np.arange(20, 85))[:nang].astype(float) + float(rng.choice([0, 0.25]))
    if rng.random() < 0.6:
        aois = np.sort(aois)
    wl = np.unique(np.round(rng.uniform(200, 2000, n), 2))
    wl = wl[::-1] if rng.random() < 0.2 else wl
    df = frame(rng, nang * len(wl))
    df.index = pd.MultiIndex.from_product([aois, wl], names=["Angle of Incidence", "Wavelength"])
    order = rng.random()
    if order < 0.2:  # the order of some instrument files: all angles of a wavelength together
        df = df.iloc[np.arange(len(df)).reshape(nang, len(wl)).T.ravel()]
    elif order < 0.3:
        df = df.iloc[rng.permutation(len(df))]
    if rng.random() < 0.2:
        df = df[["Δ", "Ψ"]]
    if rng.random() < 0.2:
        df["σ"] = 1.0
    case.describe(angles=aois, wavelengths=len(wl), columns=list(df.columns))
    before = df.copy(deep=True)
    rho = elli.calc_rho(df)
    case.event("rho values", len(df))
    want = np.array([np.tan(np.pi * p / 180) * complex(np.cos(np.pi * d / 180), -np.sin(np.pi * d / 180)) for p, d in zip(df["Ψ"], df["Δ"])])
    case.check(rho.index.equals(df.index), "index of rho")
    case.close(np.asarray(rho, dtype=complex) / (1 + np.abs(want)) ** 2, want / (1 + np.abs(want)) ** 2, "rho", rtol=0, atol=1e-12)
    # isotropic Mueller matrix
    mm = utils.convert_psi_delta_to_isotropic_mueller_matrix(df) if not hasattr(elli, "convert_psi_delta_to_isotropic_mueller_matrix") \
        else elli.convert_psi_delta_to_isotropic_mueller_matrix(df)
    case.event("mueller", len(df))
    case.check(list(mm.columns) == [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)], "columns of the Mueller matrix")
    case.check(len(mm) == len(df), f"{len(mm)} rows")
    m = mm.loc[df.index].to_numpy(dtype=float).reshape(-1, 4, 4)
    p2, d = 2 * np.deg2rad(df["Ψ"].to_numpy()), np.deg2rad(df["Δ"].to_numpy())
    N, S, Cc = np.cos(p2), np.sin(p2) * np.sin(d), np.sin(p2) * np.cos(d)
    ref = np.zeros((len(df), 4, 4))
    ref[:, 0, 0] = ref[:, 1, 1] = 1
    ref[:, 0, 1] = ref[:, 1, 0] = -N
    ref[:, 2, 2] = ref[:, 3, 3] = Cc
    ref[:, 2, 3], ref[:, 3, 2] = S, -S
    case.close(m, ref, "isotropic Mueller matrix", rtol=0, atol=1e-12)
    # pseudo dielectric function of one angle
    a = float(aois[rng.integers(nang)])
    r = elli.calc_rho(df.loc[a])
    v = np.asarray(r, dtype=complex)
    ok = np.abs(1 + v) > 1e-3
    th = np.deg2rad(a)
    eps = np.sin(th) ** 2 + np.sin(th) ** 2 * np.tan(th) ** 2 * ((1 - v) / (1 + v)) ** 2
    tol = 1e-11 * (1 + np.tan(th) ** 2 * np.abs((1 - v) / (1 + v)) ** 2) * (1 + 1 / np.abs(1 + v)) * (1 + np.abs(v) / np.abs(1 + v) ** 2)
    case.event("pseudo values", len(v))

    def near(got, what):
        case.check(bool((np.abs(np.asarray(got, dtype=complex) - eps) <= tol)[ok].all()), what, got=got, want=eps)
    e = elli.calc_pseudo_diel(r, a) if rng.random() < 0.5 else elli.calc_pseudo_diel(r, a, output="eps")
    case.check(list(e.columns) == ["ϵ1", "ϵ2"] and e.index.equals(r.index), "columns of the pseudo dielectric function")
    near(e["ϵ1"].to_numpy() + 1j * e["ϵ2"].to_numpy(), "pseudo dielectric function (eps)")
    near(np.asarray(elli.calc_pseudo_diel(r, a, "epsi")), "pseudo dielectric function (epsi)")
    n_ = elli.calc_pseudo_diel(r, a, "n")
    case.check(list(n_.columns) == ["n", "k"] and n_.index.equals(r.index), "columns of the pseudo refractive index")
    near((n_["n"].to_numpy() + 1j * n_["k"].to_numpy()) ** 2, "pseudo refractive index squared")
    case.check(bool((n_["n"].to_numpy() >= 0).all()), "pseudo refractive index has a negative n")
    # the dispersion
    one = df.loc[a]
    if len(one) >= 4 and ok.all():
        d_ = elli.PseudoDielectricFunction(angle=a, lbda=one.index.to_numpy(), psi=one["Ψ"].to_numpy(), delta=one["Δ"].to_numpy())
        w = one.index.to_numpy()
        got = d_.get_dielectric(w)
        big = np.abs(eps).max()
        case.check(bool((np.abs(got - eps) <= tol + 1e-7 * big).all()), "PseudoDielectricFunction", got=got, want=eps)
        for x in (w.min() - 1, w.max() + 1):
            case.raises(ValueError, lambda x=x: d_.get_dielectric(x), "outside the measured range")
    case.check(df.equals(before), "the data were changed")


def s_bulk(case):
    """The pseudo dielectric function of a bulk sample is its dielectric function."""
    rng = case.rng
    wl = np.sort(rng.uniform(250, 1500, rng.size_of([4, 5, 12], 300, 4)))
    if np.diff(wl).min() < 1:
        wl = np.linspace(300, 900, 6)
    d = gen.disp(rng)
    eps = d.eps(wl) * np.ones(len(wl))
    a = float(rng.uniform(30, 85))
    case.describe(dispersion=d.info(), angle=a, lbda=wl)
    case.event("bulk")
    solver = [elli.Solver2x2, elli.Solver4x4][case.index % 2]
    r = elli.Structure(elli.AIR, [], elli.IsotropicMaterial(d.build())).evaluate(wl, a, solver=solver)
    # an index near one reflects nothing
    n1 = np.abs(eps - 1)
    if n1.min() < 1e-3 or np.abs(eps).max() > 1e4:
        return
    df = pd.DataFrame({"Ψ": r.psi, "Δ": r.delta}, index=pd.Index(wl, name="Wavelength"))
    th = np.deg2rad(a)
    rho = np.asarray(r.rho)
    cond = (1 + np.abs(eps)) / np.abs(1 + rho) ** 2 * (1 + np.abs(rho)) / np.minimum(n1, 1) * np.tan(th) ** 2
    cond = cond * (1 + np.abs(np.tan(np.deg2rad(r.psi)))) ** 2
    tol = 1e-11 * cond + 1e-11
    ok = tol < 1e-4

    def near(got, what):
        case.event("pseudo values", len(wl))
        case.check(bool((np.abs(got - eps) <= tol)[ok].all()), what, got=got, want=eps, tolerance=tol)
        if ok.any():
            case.worst = max(case.worst, float((np.abs(got - eps) / tol)[ok].max()))
    near(np.asarray(elli.calc_pseudo_diel(elli.calc_rho(df), a, "epsi")), "pseudo dielectric function of psi and delta of a bulk sample")
    near(np.asarray(elli.calc_pseudo_diel(pd.Series(rho, index=df.index), a, "epsi")), "pseudo dielectric function of rho of a bulk sample")
    e = elli.calc_pseudo_diel(elli.calc_rho(df), a)
    near(e["ϵ1"].to_numpy() + 1j * e["ϵ2"].to_numpy(), "two-column pseudo dielectric function of a bulk sample")
    p = elli.PseudoDielectricFunction(a, wl, r.psi, r.delta)
    if ok.all():
        near(p.get_dielectric(wl), "PseudoDielectricFunction of a bulk sample")
        # and the sample made of it reproduces the measurement
        r2 = elli.Structure(elli.AIR, [], p.get_mat()).evaluate(wl, a, solver=solver)
        case.close(r2.rho / (1 + np.abs(rho)), rho / (1 + np.abs(rho)), "rho of a sample of the pseudo dielectric function", rtol=0, atol=1e-7)
    case.event("rho values", len(wl))
    case.close(np.asarray(elli.calc_rho(df)) / (1 + np.abs(rho)) ** 2, rho / (1 + np.abs(rho)) ** 2, "rho of psi and delta", rtol=0, atol=1e-10)


def s_layered(case):
    """The isotropic Mueller matrix of psi and delta is the simulated one."""
    rng = case.rng
    aois = np.unique(np.round(rng.uniform(30, 80, int(rng.integers(1, 4))), 1))
    wl = np.unique(np.round(rng.uniform(300, 1200, 5), 1))
    layers = [elli.Layer(elli.IsotropicMaterial(gen.disp(rng).build()), gen.thickness(rng)) for _ in range(int(rng.integers(0, 4)))]
    sub = elli.IsotropicMaterial(gen.disp(rng).build())
    s = elli.Structure(elli.AIR, layers, sub)
    case.event("layered")
    case.describe(angles=aois, lbda=wl, layers=len(layers))
    rows, sim = [], []
    for a in aois:
        r = s.evaluate(wl, float(a), solver=[elli.Solver2x2, elli.Solver4x4][case.index % 2])
        rows.append(pd.DataFrame({"Ψ": r.psi, "Δ": r.delta}))
        sim.append(np.asarray(r.mueller_matrix))
    df = pd.concat(rows)
    df.index = pd.MultiIndex.from_product([aois, wl], names=["Angle of Incidence", "Wavelength"])
    sim = np.concatenate(sim)
    if not np.isfinite(sim).all() or df.isna().any().any():
        return
    mm = utils.convert_psi_delta_to_isotropic_mueller_matrix(df).loc[df.index].to_numpy(dtype=float).reshape(-1, 4, 4)
    case.event("mueller", len(df))
    case.close(mm, sim / sim[:, :1, :1], "Mueller matrix of psi and delta of an isotropic sample", rtol=0, atol=1e-8)


def s_quarter(case):
    rng = case.rng
    lbda = float(rng.uniform(300, 2000))
    d = gen.disp(rng)
    m = elli.IsotropicMaterial(d.build())
    n = complex(np.ravel(np.emath.sqrt(d.eps(lbda)))[0])
    case.describe(dispersion=d.info(), lbda=lbda)
    case.event("quarter wave")
    if abs(n.real) > 1e-6 * abs(n):
        case.close(float(elli.get_qwp_thickness(m, lbda)) * 4 * n.real / lbda, 1, "quarter-wave thickness", rtol=1e-9)
    # an anisotropic plate uses the axis along x
    o, e = (float(v) for v in rng.uniform(1.3, 2.5, 2))
    u = elli.UniaxialMaterial(elli.ConstantRefractiveIndex(o), elli.ConstantRefractiveIndex(e))
    case.close(float(elli.get_qwp_thickness(u, lbda)), lbda / 4 / o, "quarter-wave thickness of a uniaxial plate", rtol=1e-12)
    # quarter-wave coating: no reflection when n1**2 = n0 ns, at normal incidence
    ns = float(rng.uniform(1.5, 4))
    coat = elli.IsotropicMaterial(elli.ConstantRefractiveIndex(ns**0.5))
    t = elli.get_qwp_thickness(coat, lbda)
    s = elli.Structure(elli.AIR, [elli.Layer(coat, t)], elli.IsotropicMaterial(elli.ConstantRefractiveIndex(ns)))
    R = np.ravel(s.evaluate(lbda, 0.0, solver=[elli.Solver2x2, elli.Solver4x4][case.index % 2]).R)[0]
    case.check(abs(float(R)) < 1e-12, "a quarter-wave coating reflects", R=float(R))
    # quarter-wave stack: closed form of the peak reflectance
    nh, nl, N = float(rng.uniform(2, 2.6)), float(rng.uniform(1.3, 1.6)), rng.size_of(range(1, 8), 40)
    mh, ml = (elli.IsotropicMaterial(elli.ConstantRefractiveIndex(x)) for x in (nh, nl))
    pair = [elli.Layer(mh, elli.get_qwp_thickness(mh, lbda)), elli.Layer(ml, elli.get_qwp_thickness(ml, lbda))]
    s = elli.Structure(elli.AIR, [elli.RepeatedLayers(pair, N)], elli.IsotropicMaterial(elli.ConstantRefractiveIndex(ns)))
    R = float(np.ravel(s.evaluate(lbda, 0.0).R)[0])
    y = ns * (nh / nl) ** (2 * N)
    case.close(R, ((1 - y) / (1 + y)) ** 2, "peak reflectance of a quarter-wave stack", rtol=0, atol=1e-10)


SUITES = [
    Suite("units", s_units, 9000, 200000),
    Suite("quantities", s_quantities, 1200, 12000),
    Suite("bulk", s_bulk, 1200, 20000),
    Suite("layered", s_layered, 600, 8000),
    Suite("quarter", s_quarter, 900, 15000),
]
