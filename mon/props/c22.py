"""C22: fitting compares the model with the data it was given."""
import copy
import io
from types import SimpleNamespace

import lmfit
import numpy as np
import pandas as pd
from ipywidgets import widgets

import elli
from elli.fitting import ParamsHist, fit, fit_mueller_matrix
from elli.plot.mueller_matrix import plot_mmatrix
from ..core import Suite
from .c18 import Scratch, same_angle

PROPERTY = "C22"
RULE = (
    "psi/delta and Mueller-matrix fits of random film stacks: residual against data minus model at random parameters, "
    "recovery of the generating parameters of noise-free data, model data and csv against the model, all traces of all "
    "plots, random interaction histories (widgets, fit, undo, redo, reset, display) against a shadow of the state"
)
ASSUMPTIONS = ["recovery is judged where the Jacobian identifies the parameters and the start is close",
               "redo is judged directly after undo or reset; undo directly after reset is not judged"]
REACH = {"residuals": 300, "fits": 60, "recovered": 40, "interactions": 400, "traces": 2000, "model data": 200, "csv": 40, "undo": 40, "redo": 15, "reset": 15,
         "mueller": 100}
JOBS = 8

MM = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]


def make_model(rng):
    """(model function, generating parameter values, bounds)"""
    kind = int(rng.integers(4))
    angle = float(rng.uniform(55, 75)) if rng.random() < 0.8 else 70.0
    sub = elli.IsotropicMaterial(elli.ConstantRefractiveIndex(float(rng.uniform(3, 4.5)) + 1j * float(rng.uniform(0.01, 0.5))))
    calls = []
    if kind == 0:
        true = dict(d=float(rng.uniform(60, 200)), n0=float(rng.uniform(1.4, 2.2)), n1=float(rng.uniform(20, 90)))

        def layers(p):
            return [elli.Layer(elli.Cauchy(n0=p["n0"].value, n1=p["n1"].value).get_mat(), p["d"].value)]
    elif kind == 1:
        true = dict(d=float(rng.uniform(60, 150)), rough=float(rng.uniform(15, 40)), n0=float(rng.uniform(1.6, 2.2)))

        def layers(p):
            m = elli.Cauchy(n0=p["n0"].value, n1=50, n2=0).get_mat()
            return [elli.Layer(elli.BruggemanEMA(m, elli.AIR, 0.5), p["rough"].value), elli.Layer(m, p["d"].value)]
    elif kind == 2:
        true = dict(d=float(rng.uniform(40, 100)), E=float(rng.uniform(3.5, 4.5)), A=float(rng.uniform(50, 120)))

        def layers(p):
            return [elli.Layer(elli.TaucLorentz(Eg=1.8).add(A=p["A"].value, E=p["E"].value, C=2.0).get_mat(), p["d"].value)]
    else:
        true = dict(d=float(rng.uniform(80, 200)), no=float(rng.uniform(1.5, 1.9)), dn=float(rng.uniform(0.05, 0.3)))
        rot = elli.rotation_euler(float(rng.uniform(20, 70)), float(rng.uniform(30, 80)), 0)

        def layers(p):
            o = elli.ConstantRefractiveIndex(p["no"].value)
            m = elli.UniaxialMaterial(o, elli.ConstantRefractiveIndex(p["no"].value + p["dn"].value))
            m.set_rotation(rot)
            return [elli.Layer(m, p["d"].value)]

    def model(lbda, params):
        calls.append(len(lbda))
        return elli.Structure(elli.AIR, layers(params), sub).evaluate(np.asarray(lbda, dtype=float), angle)
    return model, true, angle, calls, kind


def parameters(rng, true, spread, hist):
    p = ParamsHist() if hist else lmfit.Parameters()
    for k, v in true.items():
        kw = {}
        if rng.random() < 0.6 or spread > 0.02 or k in ("d", "rough"):
            kw["min"] = v * 0.3
        if rng.random() < 0.6 or spread > 0.02:
            kw["max"] = v * 2
        p.add(k, value=v * (1 + spread * float(rng.uniform(-1, 1))), vary=True, **kw)
    return p


def at(true):
    p = lmfit.Parameters()
    for k, v in true.items():
        p.add(k, value=v)
    return p


def vals(p):
    return {k: float(p[k].value) for k in p}


def full(p):
    return [(k, p[k].value, p[k].vary, p[k].min, p[k].max, p[k].expr) for k in p]


def grid(rng, n=None):
    n = rng.size_of([5, 12, 30], 300, 5) if n is None else n
    w = np.sort(np.round(rng.uniform(380, 850, n), 2))
    w = np.unique(w)
    return w[::-1].copy() if rng.random() < 0.15 else w


def psi_delta_frame(res, w, rng):
    d = np.asarray(res.delta)
    u = rng.random()
    d = d % 360 if u < 0.2 else d
    return pd.DataFrame({"Ψ": np.asarray(res.psi), "Δ": d}, index=pd.Index(w, name="Wavelength"))


def mm_frame(res, w):
    return pd.DataFrame(np.asarray(res.mueller_matrix).reshape(-1, 16), index=pd.Index(w, name="Wavelength"), columns=MM)


def exp_rho(df):
    return np.tan(np.deg2rad(df["Ψ"].to_numpy())) * np.exp(-1j * np.deg2rad(df["Δ"].to_numpy()))


def pairs(trace):
    x, y = np.asarray(trace.x, dtype=float), np.asarray(trace.y, dtype=float)
    n = min(len(x), len(y))
    x, y = x[:n], y[:n]
    ok = ~np.isnan(y)
    return x[ok], y[ok]


def judge_trace(case, trace, w, y, what, angle=False, tol=1e-9):
    case.event("traces")
    gx, gy = pairs(trace)
    case.check(len(gx) == len(w) and bool((np.abs(gx - w) < 1e-9 * w).all()), f"{what}: abscissa", got=gx, want=w)
    y = np.asarray(y, dtype=float)
    bad = same_angle(gy, y) if angle else np.abs(gy - y)
    scale = 1.0 if angle else np.maximum(np.abs(y), 1)
    case.check(bool((bad <= tol * scale * (360 if angle else 1)).all()), f"{what}: values", got=gy, want=y)


def setup(case, mueller, spread=0.04, n=None, frame=None):
    rng = case.rng
    model, true, angle, calls, kind = make_model(rng)
    w = grid(rng, n)
    hist = bool(rng.random() < 0.6)
    start = parameters(rng, true, spread, hist)
    res = model(w, at(true))
    data = mm_frame(res, w) if mueller else psi_delta_frame(res, w, rng)
    if frame is not None:
        data = frame(data)
    data0, start0 = data.copy(deep=True), full(start)
    if mueller:
        case.event("mueller")
        kw = {}
        if rng.random() < 0.4:
            kw = dict(display_single=bool(rng.random() < 0.5), full_scale=bool(rng.random() < 0.5), sharex=bool(rng.random() < 0.5))
        f = fit_mueller_matrix(data, start, **kw)(model)
    else:
        if angle == 70 and rng.random() < 0.7:
            case.event("default angle")
            f = fit(data, start)(model)
        else:
            f = fit(data, start, angle)(model) if rng.random() < 0.5 else fit(data, start, angle=angle)(model)
    case.describe(model=kind, true=true, start=vals(start), wavelengths=len(w), mueller=mueller, history=hist)
    return SimpleNamespace(f=f, model=model, true=true, angle=angle, w=w, start=start, data=data, data0=data0, start0=start0, kind=kind, hist=hist)


def unchanged(case, s, what, start=True):
    case.check(s.data.equals(s.data0), f"{what} changed the data")
    if start:
        case.check(full(s.start) == s.start0, f"{what} changed the start parameters", got=full(s.start), want=s.start0)


def s_residual(case):
    rng = case.rng
    mueller = bool(case.index % 3 == 0)

    def noise(data):
        if case.index % 2:
            return data
        d = data.copy()
        d.iloc[:, :] = d.to_numpy() + rng.normal(0, 0.3, d.shape) * (1 if mueller else 20)
        if not mueller:
            d["Ψ"] = d["Ψ"].clip(1, 89)
            if case.index % 4 == 0:
                # single points of real measurements are anywhere in the range
                i = rng.integers(len(d), size=2)
                d.iloc[i, 0] = rng.choice([0.0, 1e-6, 0.01, 45.0, 89.5, 89.97, 89.999, 90.0, 91.0, -1.0], 2)
                d.iloc[i, 1] = rng.choice([0.0, 90.0, 180.0, -180.0, 270.0, 360.0, 359.999, 1e-9], 2)
                case.event("extreme data")
        return d
    s = setup(case, mueller, frame=noise)
    f = s.f
    for t in range(3):
        p = at(s.true) if t == 0 else parameters(rng, s.true, 0.5, bool(rng.random() < 0.5))
        res = s.model(s.w, p)
        case.event("residuals")
        if mueller:
            got = np.asarray(f.fit_function(p, s.w, s.data))
            want = s.data0.to_numpy().reshape(-1, 4, 4) - res.mueller_matrix
            case.check(got.size == want.size, f"size of the residual {got.size}")
            case.close(got.reshape(want.shape), want, "residual of a Mueller matrix fit", rtol=0, atol=1e-11)
        else:
            rho = exp_rho(s.data0)
            got = np.asarray(f.fit_function(p, s.w, rho.real, rho.imag))
            want = rho - np.asarray(res.rho)
            case.check(got.shape == (2 * len(s.w),), f"shape of the residual {got.shape}")
            case.close(got, np.concatenate([want.real, want.imag]), "residual of a psi/delta fit", rtol=1e-10,
                       atol=np.tile(1e-11 * (1 + np.abs(rho)), 2))
        if t == 0 and case.index % 2:
            case.check(bool(np.abs(got).max() < 1e-10 * (1 if mueller else 1 + np.abs(rho).max())), "residual at the generating parameters", got=got)
        unchanged(case, s, "the residual")
    # at the parameters which generated other data it is not zero
    q = at({k: v * (1.03 if k == "d" else 1) for k, v in s.true.items()})
    a, b = s.model(s.w, q), s.model(s.w, at(s.true))
    if mueller:
        r = np.asarray(f.fit_function(q, s.w, mm_frame(b, s.w)))
        case.close(np.linalg.norm(r), np.linalg.norm(a.mueller_matrix - b.mueller_matrix), "norm of the residual", rtol=1e-8)
    else:
        r = np.asarray(f.fit_function(q, s.w, b.rho.real, b.rho.imag))
        case.close(np.linalg.norm(r), np.linalg.norm(a.rho - b.rho), "norm of the residual", rtol=1e-8)
    case.event("residuals")


def jacobian(s, mueller, names):
    def y(t):
        r = s.model(s.w, at(t))
        return np.asarray(r.mueller_matrix).ravel() if mueller else np.concatenate([r.rho.real, r.rho.imag])
    cols = []
    for k in names:
        h = 1e-5
        cols.append((y({**s.true, k: s.true[k] * (1 + h)}) - y({**s.true, k: s.true[k] * (1 - h)})) / (2 * h))
    return np.array(cols).T


def s_recover(case):
    rng = case.rng
    mueller = bool(case.index % 4 == 0)
    s = setup(case, mueller, spread=0.02, n=20)
    f = s.f
    fixed = [k for k in s.true if rng.random() < 0.2][:1]
    for k in fixed:
        s.start[k].set(value=s.true[k], vary=False)
    s.start0 = full(s.start)
    free = [k for k in s.true if k not in fixed]
    case.event("fits")
    # before any fit the model data are those of the start
    judge_model_data(case, s, mueller, None, s.start if not fixed else None)
    method = ["leastsq", "leastsq", "least_squares"][rng.integers(3)]
    res = f.fit(method) if method != "leastsq" or rng.random() < 0.5 else f.fit()
    unchanged(case, s, "fit")
    got = vals(f.fitted_params)
    case.check(vals(res.params) == got, "fitted parameters and result differ")
    for k in fixed:
        case.check(got[k] == s.true[k], f"fixed parameter {k} changed", got=got[k], want=s.true[k])
    judge_model_data(case, s, mueller, None, f.fitted_params)
    judge_plots(case, s, mueller, f.fitted_params)
    sv = np.linalg.svd(jacobian(s, mueller, free), compute_uv=False)
    r = s.model(s.w, f.fitted_params)
    want = s.data0.to_numpy().reshape(-1, 4, 4) - r.mueller_matrix if mueller else exp_rho(s.data0) - r.rho
    chi = float(np.sum(np.abs(want) ** 2))
    case.check(abs(res.chisqr - chi) <= 1e-6 * chi + 1e-20 + 1e-13 * np.sqrt(chi), "chi square of the result", got=res.chisqr, want=chi)
    if sv[-1] < 2e-2 or sv[0] / sv[-1] > 300:
        return
    # the optimizer itself can stop early: the same optimizer on the own residual tells whether it does
    own = lmfit.minimize(lambda p: np.asarray(resid(s, mueller, p)).ravel().view(float), copy.deepcopy(s.start), method=method)
    if np.sum(np.abs(resid(s, mueller, own.params)) ** 2) > 1e-10:
        return
    case.event("recovered")
    case.check(chi < 1e-8, "the fit does not reach the noise-free data", chi=chi, got=got, want=s.true)
    for k in free:
        case.check(abs(got[k] - s.true[k]) <= 2e-3 * abs(s.true[k]), f"recovered {k}", got=got, want=s.true)


def judge_model_data(case, s, mueller, params, expected):
    """get_model_data and to_csv against the model; params None = fitted parameters `expected`."""
    rng = case.rng
    f = s.f
    if expected is None:
        return
    res = s.model(s.w, expected)
    desc = "fit" if params is None else "model"
    append = bool(rng.random() < 0.5)
    case.event("model data")
    if mueller:
        args = [] if params is None else [params]
        df = f.get_model_data(*args, append_exp_data=append) if append or rng.random() < 0.5 else f.get_model_data(*args)
        want = mm_frame(res, s.w)
        want.columns = [f"{c}_{desc}" for c in MM]
        exp = s.data0
    else:
        rep = ["psi-delta", "rho"][rng.integers(2)]
        kw = {"append_exp_data": append} if append or rng.random() < 0.5 else {}
        if rep == "rho" or rng.random() < 0.5:
            kw["repr"] = rep
        df = f.get_model_data(params, **kw) if params is not None else f.get_model_data(**kw)
        if rep == "rho":
            want = pd.DataFrame({f"ρ_{desc}": np.asarray(res.rho)}, index=s.data0.index)
            exp = pd.DataFrame({"ρ": exp_rho(s.data0)}, index=s.data0.index)
        else:
            want = pd.DataFrame({f"Ψ_{desc}": np.asarray(res.psi), f"Δ_{desc}": np.asarray(res.delta)}, index=s.data0.index)
            exp = s.data0
    case.check(list(df.columns[-want.shape[1]:]) == list(want.columns), f"columns of the model data {list(df.columns)}")
    case.check(df.shape[1] == want.shape[1] + (exp.shape[1] if append else 0), f"model data has {df.shape[1]} columns, append {append}")
    case.check(np.array_equal(df.index.to_numpy(dtype=float), s.w), "index of the model data")
    case.close(df.iloc[:, -want.shape[1]:].to_numpy(dtype=complex), want.to_numpy(dtype=complex), "model data", rtol=1e-10, atol=1e-11)
    if append:
        case.close(df.iloc[:, :exp.shape[1]].to_numpy(dtype=complex), exp.to_numpy(dtype=complex), "appended measured data", rtol=1e-12, atol=1e-13)
    if rng.random() < 0.5:
        case.event("csv")
        with Scratch() as tmp:
            p = tmp / "x.csv"
            kw = dict(fname=str(p) if rng.random() < 0.5 else p, append_exp_data=append)
            if params is not None:
                kw["params"] = params
            tab = rng.random() < 0.3
            if tab:
                kw["sep"] = "\t"
            f.to_csv(**kw)
            back = pd.read_csv(io.StringIO(p.read_text(encoding="utf-8")), sep="\t" if tab else ",", index_col=0)
        if mueller:
            w2, exp2 = want, exp
        else:
            w2 = pd.DataFrame({f"Ψ_{desc}": np.asarray(res.psi), f"Δ_{desc}": np.asarray(res.delta)}, index=s.data0.index)
            exp2 = s.data0
        case.check(list(back.columns) == ([*exp2.columns] if append else []) + list(w2.columns), "columns of the csv", got=list(back.columns))
        case.close(back.index.to_numpy(dtype=float), s.w, "index of the csv", rtol=1e-12)
        case.close(back.to_numpy(dtype=float)[:, -w2.shape[1]:], w2.to_numpy(dtype=float), "values of the csv", rtol=1e-10, atol=1e-11)
        if append:
            case.close(back.to_numpy(dtype=float)[:, :exp2.shape[1]], exp2.to_numpy(dtype=float), "measured values of the csv", rtol=1e-10, atol=1e-12)


def judge_plots(case, s, mueller, fitted):
    f, d = s.f, s.data0
    r = s.model(s.w, fitted)
    if mueller:
        mm = np.asarray(r.mueller_matrix).reshape(-1, 16)
        single = bool(case.rng.random() < 0.5)
        fig = f.plot(display_single=single)
        case.check(len(fig.data) == 32, f"{len(fig.data)} traces")
        for i in range(16):
            judge_trace(case, fig.data[2 * i], s.w, d.iloc[:, i], f"plot, measured {MM[i]}")
            judge_trace(case, fig.data[2 * i + 1], s.w, mm[:, i], f"plot, fit {MM[i]}")
        if not single:
            axes = {(fig.data[2 * i].xaxis or "x", fig.data[2 * i].yaxis or "y") for i in range(16)}
            case.check(len(axes) == 16, "every element has its own graph")
            for i in range(16):
                n = "" if i == 0 else str(i + 1)
                for j in (0, 1):
                    t = fig.data[2 * i + j]
                    case.check((t.xaxis or "x", t.yaxis or "y") == ("x" + n, "y" + n), f"graph of {MM[i]}", got=(t.xaxis, t.yaxis))
        fig = f.plot_residual()
        case.check(len(fig.data) == 16, f"{len(fig.data)} residual traces")
        for i in range(16):
            judge_trace(case, fig.data[i], s.w, mm[:, i] - d.iloc[:, i].to_numpy(), f"residual plot {MM[i]}")
        return
    fig = f.plot()
    by = {t.name: t for t in fig.data}
    case.check(set(by) == {"Ψ", "Δ", "Ψ_fit", "Δ_fit"}, f"traces {list(by)}")
    judge_trace(case, by["Ψ"], s.w, d["Ψ"], "plot Ψ")
    judge_trace(case, by["Δ"], s.w, d["Δ"], "plot Δ", True)
    judge_trace(case, by["Ψ_fit"], s.w, r.psi, "plot Ψ_fit")
    judge_trace(case, by["Δ_fit"], s.w, r.delta, "plot Δ_fit", True)
    fig = f.plot_rho()
    by = {t.name: t for t in fig.data}
    case.check(set(by) == {"ρr", "ρi", "ρcr", "ρci"}, f"traces {list(by)}")
    rho = exp_rho(d)
    for n, y in (("ρr", rho.real), ("ρi", rho.imag), ("ρcr", r.rho.real), ("ρci", r.rho.imag)):
        judge_trace(case, by[n], s.w, y, f"plot_rho {n}")


def judge_display(case, s, mueller, shadow, what):
    """The interactive figure shows the current parameters."""
    f, d = s.f, s.data0
    r = s.model(s.w, at(shadow["P"]))
    if mueller:
        mm = np.asarray(r.mueller_matrix).reshape(-1, 16)
        if shadow["residual"]:
            mm = mm - d.to_numpy()
        for i in range(16):
            judge_trace(case, f.fig.data[2 * i], s.w, d.iloc[:, i], f"{what}: measured {MM[i]}")
            judge_trace(case, f.fig.data[2 * i + 1], s.w, mm[:, i], f"{what}: model {MM[i]}")
        return
    rho, e = np.asarray(r.rho), exp_rho(d)
    t = f.fig.data
    view = shadow["view"]
    if view == "Psi/Delta":
        rows = [(d["Ψ"], 0), (d["Δ"], 1), (r.psi, 0), (r.delta, 1)]
    elif view == "Rho":
        rows = [(e.real, 0), (e.imag, 0), (rho.real, 0), (rho.imag, 0)]
    elif view == "Pseudo Diel.":
        def pd_(x):
            a = np.deg2rad(s.angle)
            q = np.sin(a) ** 2 * (1 + np.tan(a) ** 2 * ((1 - x) / (1 + x)) ** 2)
            return q
        a, b = pd_(e), pd_(rho)
        rows = [(a.real, 0), (a.imag, 2), (b.real, 0), (b.imag, 2)]
    else:
        rows = [(d["Ψ"] - r.psi, 0), (d["Δ"] - r.delta, 1), (e.real - rho.real, 0), (e.imag - rho.imag, 0)]
    for i, (y, k) in enumerate(rows):
        y = np.asarray(y, dtype=float)
        if k == 2:  # the sign of the imaginary part follows one convention in measured and model traces
            gx, gy = pairs(t[i])
            sign = 1.0 if np.sum(gy * y) >= 0 else -1.0
            shadow.setdefault("sign", sign)
            case.check(shadow["sign"] == sign or np.abs(y).max() < 1e-9, f"{what}: sign of the pseudo dielectric function")
            y = y * sign
        judge_trace(case, t[i], s.w, y, f"{what}: {view} trace {i}", k == 1, tol=1e-8)


def s_interact(case):
    rng = case.rng
    mueller = bool(case.index % 4 == 0)
    s = setup(case, mueller, spread=0.1, n=int(rng.choice([4, 9])))
    f = s.f
    P = vals(s.start)
    V = {k: s.start[k].vary for k in s.start}
    shadow = dict(P=P, view="Psi/Delta", residual=False)
    H, L, init, fitted = [], None, dict(P), dict(P)
    W = dict(V)       # what the checkboxes show, which a reset keeps
    last = None
    log = []
    case.describe(model=s.kind, operations=log, start=P, mueller=mueller, history=s.hist)
    judge_display(case, s, mueller, shadow, "initial figure")
    for _ in range(int(rng.choice([4, 8, 14]))):
        case.event("interactions")
        u = rng.random()
        if last in ("undo", "reset") and L is not None and rng.random() < 0.4:
            u = 0.8   # redo
        if u < 0.35:
            k = list(P)[rng.integers(len(P))]
            par = f.params[k]
            lo, hi = max(par.min, P[k] * 0.7), min(par.max, P[k] * 1.4)
            v = float(np.round(rng.uniform(lo, hi), 6))
            if v == P[k] or not par.min <= v <= par.max:
                continue
            f.param_widgets[k].value = v
            H.append(dict(P))
            P[k] = v
            what = f"{k} = {v}"
            last = "change"
        elif u < 0.47:
            if rng.random() < 0.6:
                k = list(P)[rng.integers(len(P))]
                V[k] = W[k] = not V[k]
                f.set_vary_param(SimpleNamespace(owner=SimpleNamespace(description_tooltip=k), new=V[k]))
                what = f"vary {k} {V[k]}"
            elif mueller:
                shadow["residual"] = not shadow["residual"]
                f.update_residual(SimpleNamespace(new=shadow["residual"]))
                what = f"residual {shadow['residual']}"
            else:
                shadow["view"] = ["Psi/Delta", "Rho", "Pseudo Diel.", "Residual"][rng.integers(4)]
                f.selector.value = shadow["view"]
                what = f"display {shadow['view']}"
        elif u < 0.6:
            if not any(V.values()):
                continue
            before = dict(P)
            f.fit_button_clicked()
            fitted = vals(f.fitted_params)
            for k in P:
                case.check(V[k] or fitted[k] == before[k], f"fit changed the fixed parameter {k}", got=fitted, want=before)
            H.append(before)
            P.update(fitted)
            r0, r1 = (np.sum(np.abs(resid(s, mueller, at(p))) ** 2) for p in (before, fitted))
            case.check(r1 <= r0 * (1 + 1e-9) + 1e-20, "the fit is worse than its start", start=float(r0), end=float(r1))
            what = "fit"
            last = "fit"
            case.event("fits")
        elif u < 0.78:
            if last == "reset":
                continue
            f.re_undo_button_clicked(widgets.Button(description="Undo"))
            what = "undo"
            if s.hist:
                case.event("undo")
                if H:
                    L = dict(P)
                    P.clear()
                    P.update(H.pop())
                    last = "undo"
                else:
                    L = None
                    last = "empty undo"
        elif u < 0.88:
            if last in ("redo", "empty undo", None):
                case.event("nothing to redo")
            elif last not in ("undo", "reset") or L is None:
                continue
            f.re_undo_button_clicked(widgets.Button(description="Redo"))
            what = "redo"
            if s.hist and last in ("undo", "reset"):
                case.event("redo")
                H.append(dict(P))
                P.clear()
                P.update(L)
                L = None
            last = "redo"
        elif u < 0.95:
            f.reset_to_init_params()
            what = "reset"
            if s.hist:
                case.event("reset")
                L = dict(P) if H else None
                P.clear()
                P.update(init)
                H = []
                last = "reset"
        else:
            q = parameters(rng, s.true, 0.3, bool(rng.random() < 0.5))
            judge_model_data(case, s, mueller, q, q)
            what = "model data"
        log.append(what)
        if what == "reset" and s.hist:
            V = dict(W)
        elif last == "reset":
            V = {k: f.params[k].vary for k in f.params}
        if what.startswith(("undo", "redo")):
            V = {k: f.params[k].vary for k in f.params}
        got = vals(f.params)
        case.check(got == P, f"parameters after {what}", got=got, want=P)
        case.check({k: f.params[k].vary for k in f.params} == V, f"vary flags after {what}", want=V)
        for k in P:
            case.check(abs(float(f.param_widgets[k].value) - P[k]) <= 1e-12 * abs(P[k]), f"widget {k} after {what}", got=f.param_widgets[k].value, want=P[k])
        case.check(vals(f.fitted_params) == fitted, f"fitted parameters after {what}", got=vals(f.fitted_params), want=fitted)
        if s.hist:
            case.check(f.params.history_len == len(H), f"history length after {what}", got=f.params.history_len, want=len(H))
        unchanged(case, s, what, start=False)
        judge_display(case, s, mueller, shadow, f"after {what}")
    judge_model_data(case, s, mueller, None, at(fitted))


def resid(s, mueller, p):
    r = s.model(s.w, p)
    return s.data0.to_numpy().reshape(-1, 4, 4) - r.mueller_matrix if mueller else exp_rho(s.data0) - r.rho


def s_plot(case):
    """plot_mmatrix shows every element of every table."""
    rng = case.rng
    w = grid(rng)
    n = int(rng.integers(1, 4))
    frames = [pd.DataFrame(rng.uniform(-1, 1, (len(w), 16)), index=pd.Index(w), columns=MM) for _ in range(n)]
    if rng.random() < 0.3:  # other column order
        frames = [f[[MM[i] for i in rng.permutation(16)]] if j else f for j, f in enumerate(frames)]
    keep = copy.deepcopy(frames)
    single, scale, share = (bool(rng.random() < 0.5) for _ in range(3))
    case.describe(frames=n, single=single)
    arg = frames[0] if n == 1 and rng.random() < 0.5 else frames
    kw = dict(single=single, full_scale=scale, sharex=share)
    if single and rng.random() < 0.5:
        kw.pop("single")
    if rng.random() < 0.3:
        kw["names"] = ["a", "b", "c"]
        kw["colors"] = ["red", "blue"]
        kw["dashes"] = ["dot"]
    fig = plot_mmatrix(arg, **kw)
    case.check(len(fig.data) == 16 * n, f"{len(fig.data)} traces")
    for i in range(16):
        for j in range(n):
            t = fig.data[i * n + j]
            case.check(t.name.startswith(MM[i]), f"name {t.name}")
            judge_trace(case, t, w, keep[j][MM[i]], f"element {MM[i]} of table {j}")
            if not single:
                k = "" if i == 0 else str(i + 1)
                case.check((t.xaxis or "x", t.yaxis or "y") == ("x" + k, "y" + k), f"graph of {MM[i]}", got=(t.xaxis, t.yaxis))
    if scale and not single:
        case.check(tuple(fig.layout.yaxis.range) == (-1, 1), "full scale")
    for a, b in zip(frames, keep):
        case.check(a.equals(b), "plotting changed the data")


SUITES = [
    Suite("residual", s_residual, 300, 4000),
    Suite("recover", s_recover, 160, 2000),
    Suite("interact", s_interact, 260, 3500),
    Suite("plot", s_plot, 60, 800),
]
