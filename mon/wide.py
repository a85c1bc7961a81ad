"""Real objects of every model and material kind, for monitors that compare the code with itself."""
import numpy as np

import elli
from . import gen


def _u(rng, a, b):
    return float(rng.uniform(a, b))


def _table_axis(rng):
    # uneven, but not enough to make splines overshoot by orders of magnitude
    x = np.linspace(190, 2200, rng.size_of(range(4, 20), 500, 4))
    x[1:-1] += (x[1] - x[0]) * rng.uniform(-0.3, 0.3, len(x) - 2)
    return x


def _table(rng):
    x = _table_axis(rng)
    if rng.random() < 0.3:
        x = x[::-1].copy()
    return elli.Table(lbda=x, n=2 + rng.random(len(x)) + 0.05j * rng.random(len(x)),
                      kind=["linear", "linear", "cubic", "quadratic", "nearest"][rng.integers(5)])


def _table_eps(rng):
    x = _table_axis(rng)
    return elli.TableEpsilon(lbda=x, epsilon=4 + rng.random(len(x)) + 0.05j * rng.random(len(x)))


def _pseudo(rng):
    x = _table_axis(rng)
    return elli.PseudoDielectricFunction(angle=_u(rng, 50, 75), lbda=x, psi=20 + 5 * rng.random(len(x)),
                                         delta=150 + 5 * rng.random(len(x)))


def _many(rng, d, **ranges):
    for _ in range(rng.size_of([1, 2, 3], 12, tail=0.02)):
        d.add(**{k: (_u(rng, *v) if isinstance(v, tuple) else v) for k, v in ranges.items()})
    return d


MODELS = {
    "ConstantRefractiveIndex": lambda r: elli.ConstantRefractiveIndex(_u(r, 1, 3) + (0.1j if r.random() < 0.5 else 0)),
    "EpsilonInf": lambda r: elli.EpsilonInf(_u(r, 1, 9)),
    "Cauchy": lambda r: elli.Cauchy(_u(r, 1.3, 2), _u(r, 0, 50), _u(r, 0, 20), _u(r, 0, 0.1), _u(r, 0, 5), _u(r, 0, 5)),
    "CauchyCustomExponent": lambda r: _many(r, elli.CauchyCustomExponent(_u(r, 1.3, 2)), f=(0, 50), e=-1),
    "CauchyUrbach": lambda r: elli.CauchyUrbach(n0=1.5, B=_u(r, 0, 0.02), C=0.0001, D=0.02, Eg=4, Eu=_u(r, 0.5, 1)),
    "Sellmeier": lambda r: _many(r, elli.Sellmeier(), A=(0.3, 2), B=(0.001, 0.02)),
    "SellmeierCustomExponent": lambda r: _many(r, elli.SellmeierCustomExponent(), A=(1, 3), e_A=2, B=(0.05, 0.15), e_B=2),
    "Polynomial": lambda r: _many(r, elli.Polynomial(_u(r, 2, 4)), f=(5, 20), e=-1),
    "Poles": lambda r: elli.Poles(A_ir=_u(r, 0, 0.1), A_uv=_u(r, 20, 60), E_uv=_u(r, 8, 10)),
    "LorentzEnergy": lambda r: _many(r, elli.LorentzEnergy(), A=(1, 30), E=(2, 8), gamma=(0.1, 1)),
    "LorentzLambda": lambda r: _many(r, elli.LorentzLambda(), A=(0.5, 2), lambda_r=(120, 400), gamma=(5, 60)),
    "Gaussian": lambda r: _many(r, elli.Gaussian(), A=(0.5, 3), E=(2, 6), sigma=(0.3, 2)) + _u(r, 2, 4),
    "DrudeEnergy": lambda r: elli.DrudeEnergy(A=_u(r, 0.1, 2), gamma=_u(r, 0.05, 0.3)) + _u(r, 2, 5),
    "DrudeResistivity": lambda r: elli.DrudeResistivity(rho_opt=_u(r, 1e-3, 1e-2), tau=_u(r, 1e-15, 1e-14)) + 4.0,
    "TaucLorentz": lambda r: _many(r, elli.TaucLorentz(Eg=_u(r, 1, 2)), A=(20, 100), E=(3, 5), C=(0.5, 2)),
    "CodyLorentz": lambda r: elli.CodyLorentz(Eg=_u(r, 1.2, 1.8), A=_u(r, 40, 120), Et=1.9, gamma=_u(r, 0.5, 2.4), Ep=0.8, E0=3.6, Eu=0.05),
    "Tanguy": lambda r: elli.Tanguy(A=_u(r, 2, 6), d=[2, 3, 2.5][r.integers(3)], gamma=_u(r, 0.02, 0.1), R=_u(r, 0.03, 0.1), Eg=_u(r, 2, 3.5), a=20, b=40) + 1.5,
    "Table": _table,
    "TableEpsilon": _table_eps,
    "PseudoDielectricFunction": _pseudo,
    "Formula": lambda r: elli.Formula(
        "eps = A + sum[B * wl ** 2 / (wl ** 2 - C ** 2)]", "wl", {"A": _u(r, 1, 2)},
        {"B": [_u(r, 1, 2), 0.1], "C": [0.12, 0.05]}, "micrometer"),
    "FormulaIndex": lambda r: elli.FormulaIndex(
        "n = A + B / wl ** 2 + 1j * k", "wl", {"A": _u(r, 1.2, 2), "B": 3000.0, "k": 0.1}, {}),
    "sum": lambda r: elli.Sellmeier().add(A=_u(r, 1, 2), B=0.01) + elli.EpsilonInf(1.0)
    + elli.LorentzEnergy().add(A=_u(r, 1, 5), E=5, gamma=0.3),
    "index sum": lambda r: elli.Cauchy(_u(r, 1.3, 2), 20) + elli.ConstantRefractiveIndex(0.2) + 0.1,
    "table sum": lambda r: _table(r) + elli.Cauchy(0.2, 10, 0, 0.01),
    "as_index": lambda r: elli.LorentzEnergy().add(A=_u(r, 1, 5), E=6, gamma=0.3).as_index() + elli.ConstantRefractiveIndex(0.1),
}


def wide_disp(rng, name=None):
    name = name or list(MODELS)[rng.integers(len(MODELS))]
    return MODELS[name](rng)


def wide_materials(rng, disps):
    def d():
        return disps[rng.integers(len(disps))]
    mats = [elli.IsotropicMaterial(d()), elli.UniaxialMaterial(d(), d()), elli.BiaxialMaterial(d(), d(), d())]
    for m in mats[1:]:
        if rng.random() < 0.7:
            m.set_rotation(elli.rotation_euler(*rng.uniform(0, 180, 3)))
    mix = getattr(elli, gen.MIXES[rng.integers(4)])(mats[0], d().get_mat(), float(rng.random()))
    vca = elli.VCAMaterial(mats[1], mats[2], float(rng.random()))
    return mats, mix, vca


def wide_structure(rng):
    disps = [wide_disp(rng) for _ in range(rng.integers(1, 5))]
    mats, mix, vca = wide_materials(rng, disps)
    pool = []
    for _ in range(rng.size_of(range(1, 6), 30, tail=0.02)):
        u = rng.integers(5)
        t = float(rng.uniform(1, 60))
        if u == 0:
            pool.append(elli.TwistedLayer(mats[1 + rng.integers(2)], t, rng.size_of(range(1, 6), 150, tail=0.02), 90))
        elif u == 1:
            pool.append(elli.VaryingMixtureLayer([mix, vca][rng.integers(2)], t, rng.size_of(range(1, 6), 150, tail=0.02)))
        else:
            pool.append(elli.Layer([*mats, mix, vca][rng.integers(5)], t))
    layers = list(pool)
    if rng.random() < 0.5:
        layers.append(elli.RepeatedLayers(pool[:2], rng.size_of([1, 2, 3], 60, tail=0.02), int(rng.integers(0, 2)),
                                          int(rng.integers(0, 2))))
    if rng.random() < 0.3:
        layers.append(pool[0])
    return elli.Structure(elli.AIR, layers, mats[rng.integers(3)])
