"""C24: invalid input is rejected before it can produce numbers."""
import copy
import inspect

import numpy as np

import elli
from elli import dispersions, kkr
from elli.dispersions.base_dispersion import BaseDispersion, DispersionFactory, InvalidParameters
from elli.materials import Material
from elli.structure import AbstractLayer
from ..core import Suite
from .. import gen
from ..wide import MODELS, wide_disp, wide_structure

PROPERTY = "C24"
RULE = (
    "histories of valid and invalid constructor and setter calls on layers, repetitions, inhomogeneous layers, mixtures, "
    "materials, structures, experiments and results: every invalid call has to raise its documented exception and to "
    "leave every attribute and the evaluated profile untouched; every model with unknown, surplus, duplicate and missing "
    "parameters; tables, formulas, transforms, propagators, solvers and named quantities with invalid values"
)
ASSUMPTIONS = ["NaN is only required to be rejected as a fraction; lists changed behind the back of a setter are not checked"]
REACH = {"rejected": 15000, "unchanged": 8000, "accepted": 2500, "models": 300}

LB = np.array([300.0, 512.5, 900.0])


class Any_:
    pass


def wrong(rng, *right):
    """An object which is none of the kinds given."""
    d = elli.ConstantRefractiveIndex(1.5)
    m = d.get_mat()
    pool = [None, 0, 1, 1.5, 2 + 1j, "", "Si", b"Si", True, [], {}, (), [m], (m,), {"m": m}, np.ones((1, 3, 3)), np.array(m, dtype=object), Any_(), Any_,
            d, m, elli.UniaxialMaterial(d, d), elli.Layer(m, 10), elli.RepeatedLayers([elli.Layer(m, 1)], 2), elli.Structure(elli.AIR, [], m), elli.IsotropicMaterial,
            elli.ConstantRefractiveIndex, elli.Layer, lambda *_: 1, elli.VCAMaterial(m, m, 0.5), np.eye(3)]
    pool = [x for x in pool if not isinstance(x, right)]
    return pool[rng.integers(len(pool))]


def wrong_layers(rng, good):
    """Something which is not a list of layers."""
    u = rng.integers(8)
    good = list(good)
    if u == 0:
        return tuple(good)
    if u == 1:
        return good[0] if good else None
    if u == 2:
        return iter(good)
    if u == 3:
        return np.array(good, dtype=object)
    if u == 4:
        return {"layers": good}
    if u == 5:
        return [good]
    if good and rng.random() < 0.3:   # far down a long list
        good = good * int(rng.integers(5, 60))
    w = wrong(rng, AbstractLayer)
    good.insert(int(rng.integers(len(good) + 1)), w)
    return good


NEGATIVE = [-1, -1.0, -1e-12, -5e-324, float("-inf"), np.float64(-3), np.float32(-0.5), np.int64(-2), -1e300]
FRACTIONS = [-1, 2, 1.5, -1e-9, 1 + 1e-9, float("nan"), float("inf"), float("-inf"), np.nextafter(1, 2), np.nextafter(0, -1), np.float32(1.01), 100, np.int64(-1)]
FEW = [0, -1, -7, np.int64(0), 0.0, False, 0.5, float("-inf")]
NOFRACTION = ["0.5", None, [0.5], 0.5j, Any_()]


def pick(rng, seq):
    return seq[rng.integers(len(seq))]


def snap(o, depth=4):
    """Attributes by identity or value, descending into the package's objects and containers."""
    if isinstance(o, np.ndarray):
        return ("a", o.shape, o.dtype.str, o.tobytes() if o.dtype != object else id(o))
    if isinstance(o, (int, float, complex, str, type(None), np.generic)):
        return (type(o).__name__, repr(o))
    if depth and isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o), tuple(snap(x, depth - 1) for x in o))
    if depth and isinstance(o, dict):
        return ("dict", tuple((k, snap(v, depth - 1)) for k, v in o.items()))
    if depth and hasattr(o, "__dict__") and type(o).__module__.startswith("elli"):
        return (type(o).__name__, id(o), tuple((k, snap(v, depth - 1)) for k, v in sorted(vars(o).items())))
    return ("o", id(o))


def profile(o):
    if isinstance(o, BaseDispersion):
        return [np.asarray(o.get_dielectric(LB)).tobytes()]
    if isinstance(o, Material):
        return [o.get_tensor(LB).tobytes()]
    if isinstance(o, (AbstractLayer, elli.Structure)):
        return [(float(d), e.tobytes()) for d, e in o.get_permittivity_profile(LB)]
    return []


def refuse(case, obj, exc, call, what):
    """call() has to raise and to leave obj as it is."""
    before, prof = snap(obj), profile(obj)
    case.event("rejected")
    case.raises(exc, call, what)
    case.event("unchanged")
    case.check(snap(obj) == before, f"{what}: rejected, but the object was changed")
    case.check(profile(obj) == prof, f"{what}: rejected, but the object behaves differently")


# ------------------------------------------------------------------ histories of structural objects

def material(rng):
    d = [gen.disp(rng).build() for _ in range(3)]
    u = rng.integers(5)
    if u == 0:
        return elli.UniaxialMaterial(d[0], d[1])
    if u == 1:
        return elli.BiaxialMaterial(*d)
    if u == 2:
        return getattr(elli, gen.MIXES[rng.integers(4)])(d[0].get_mat(), d[1].get_mat(), float(rng.random()))
    return elli.IsotropicMaterial(d[0])


def mixture(rng):
    return getattr(elli, gen.MIXES[rng.integers(4)])(gen.disp(rng).build().get_mat(), gen.disp(rng).build().get_mat(), float(rng.random()))


def layer(rng):
    u = rng.integers(5)
    if u == 0:
        return elli.TwistedLayer(material(rng), gen.thickness(rng), int(rng.integers(1, 5)), 40.0)
    if u == 1:
        return elli.VaryingMixtureLayer(mixture(rng), gen.thickness(rng), int(rng.integers(1, 5)))
    return elli.Layer(material(rng), gen.thickness(rng))


def layer_list(rng):
    return [layer(rng) for _ in range(int(rng.integers(1, 4)))]


class Kind:
    """Constructor and setters of a class with generators of valid and invalid arguments.

    A setter is (name, [argument names], valid, invalid): valid(rng) gives the arguments, invalid(rng, valid
    arguments) gives (arguments, exception)."""

    def __init__(self, make, order, setters):
        self.make, self.order, self.setters = make, order, setters


def bad_number(values, exc=ValueError):
    def invalid(rng, args):
        if rng.random() < 0.15:
            return [pick(rng, ["1", None, [], {}, Any_()])], (TypeError, ValueError)
        return [pick(rng, values)], exc
    return invalid


def bad_object(*right):
    def invalid(rng, args):
        args = list(args)
        args[int(rng.integers(len(args)))] = wrong(rng, *right)
        return args, TypeError
    return invalid


def bad_layers(rng, args):
    return [wrong_layers(rng, args[0])], TypeError


def bad_fraction(rng, args):
    if rng.random() < 0.2:
        return [pick(rng, NOFRACTION)], (TypeError, ValueError)
    return [pick(rng, FRACTIONS)], ValueError


def bad_repetitions(rng, args):
    args = list(args)
    k = int(rng.integers(3))
    args[k] = pick(rng, FEW if k == 0 else [-1, -5, np.int64(-1), -0.5])
    if rng.random() < 0.2:
        args[k] = pick(rng, ["1", None, [], Any_()])
        return args, (TypeError, ValueError)
    return args, ValueError


def thick(rng):
    return [pick(rng, [0, 0.0, 5, gen.thickness(rng), np.float64(12.5)])]


def disp(rng):
    return gen.disp(rng).build()


THICK = ("set_thickness", ["thickness"], thick, bad_number(NEGATIVE))
DIV = ("set_divisions", ["div"], lambda r: [int(r.integers(1, 6))], bad_number(FEW))
KINDS = {
    "Layer": Kind(elli.Layer, ["material", "thickness"], [
        ("set_material", ["material"], lambda r: [material(r)], bad_object(Material)), THICK]),
    "TwistedLayer": Kind(elli.TwistedLayer, ["material", "thickness", "div", "angle"], [
        ("set_material", ["material"], lambda r: [material(r)], bad_object(Material)), THICK, DIV,
        ("set_angle", ["angle"], lambda r: [float(r.uniform(-400, 400))], None)]),
    "VaryingMixtureLayer": Kind(elli.VaryingMixtureLayer, ["material", "thickness", "div", "profile"], [
        ("set_material", ["material"], lambda r: [mixture(r)], bad_object(elli.MixtureMaterial)), THICK, DIV,
        ("set_fraction_modulation", ["profile"], lambda r: [gen.PROFILES[pick(r, list(gen.PROFILES))]], None)]),
    "RepeatedLayers": Kind(elli.RepeatedLayers, ["layers", "repetitions", "before", "after"], [
        ("set_layers", ["layers"], lambda r: [layer_list(r)], bad_layers),
        ("set_repetitions", ["repetitions", "before", "after"], lambda r: [int(r.integers(1, 4)), int(r.integers(0, 2)), int(r.integers(0, 2))], bad_repetitions)]),
    "Structure": Kind(elli.Structure, ["front", "layers", "back"], [
        ("set_front_material", ["front"], lambda r: [gen.disp(r).build().get_mat()], bad_object(Material)),
        ("set_layers", ["layers"], lambda r: [layer_list(r)], bad_layers),
        ("set_back_material", ["back"], lambda r: [material(r)], bad_object(Material))]),
    "IsotropicMaterial": Kind(elli.IsotropicMaterial, ["x"], [
        ("set_dispersion", ["x"], lambda r: [disp(r)], bad_object(BaseDispersion))]),
    "UniaxialMaterial": Kind(elli.UniaxialMaterial, ["o", "e"], [
        ("set_dispersion", ["o", "e"], lambda r: [disp(r), disp(r)], bad_object(BaseDispersion))]),
    "BiaxialMaterial": Kind(elli.BiaxialMaterial, ["x", "y", "z"], [
        ("set_dispersion", ["x", "y", "z"], lambda r: [disp(r), disp(r), disp(r)], bad_object(BaseDispersion))]),
}
for _m in gen.MIXES:
    KINDS[_m] = Kind(getattr(elli, _m), ["host", "guest", "fraction"], [
        ("set_constituents", ["host", "guest"], lambda r: [disp(r).get_mat(), disp(r).get_mat()], bad_object(Material)),
        ("set_fraction", ["fraction"], lambda r: [pick(r, [0, 1, 0.0, 1.0, 0.5, float(r.random()), np.float64(r.random())])], bad_fraction)])


def s_history(case):
    rng = case.rng
    name = list(KINDS)[case.index % len(KINDS)]
    kind = KINDS[name]
    state = {}
    for _, names, valid, _ in kind.setters:
        state.update(zip(names, valid(rng)))
    kept = [copy.copy(v) if isinstance(v, list) else v for v in state.values()]
    log = []
    case.describe(kind=name, log=log)
    # constructors
    checked = [s for s in kind.setters if s[3]]
    for s in checked:
        for _ in range(3):
            args, exc = s[3](rng, [state[n] for n in s[1]])
            bad = dict(state, **dict(zip(s[1], args)))
            case.event("rejected")
            case.raises(exc, lambda bad=bad: kind.make(*[bad[n] for n in kind.order]), f"{name}({s[1]} = {args!r})")
    obj = kind.make(*[state[n] for n in kind.order])
    case.event("accepted")
    for _ in range(int(rng.integers(4, 12))):
        s = pick(rng, kind.setters)
        if s[3] is None or rng.random() < 0.35:
            args = s[2](rng)
            log.append(f"{s[0]}{args!r:.60}")
            getattr(obj, s[0])(*args)
            state.update(zip(s[1], args))
            case.event("accepted")
        else:
            args, exc = s[3](rng, [state[n] for n in s[1]])
            log.append(f"invalid {s[0]}{args!r:.60}")
            # The named members of the invalid call may be valid and new
            refuse(case, obj, exc, lambda s=s, args=args: getattr(obj, s[0])(*args), f"{name}.{s[0]}({args!r:.120})")
    fresh = kind.make(*[state[n] for n in kind.order])
    case.check(profile(obj) == profile(fresh), f"a {name} differs from a new one after a history of calls")
    del kept


# ------------------------------------------------------------------ parameters of dispersions

def s_parameters(case):
    rng = case.rng
    names = [n for n in dir(dispersions) if inspect.isclass(getattr(dispersions, n)) and issubclass(getattr(dispersions, n), BaseDispersion)
             and isinstance(getattr(getattr(dispersions, n), "single_params_template", None), dict)
             and n not in ("TableSpectraRay", "DispersionSum", "IndexDispersionSum") and not inspect.isabstract(getattr(dispersions, n))]
    name = names[case.index % len(names)]
    cls = getattr(dispersions, name)
    case.describe(model=name)
    case.event("models")
    single, rep = cls.single_params_template, cls.rep_params_template
    templates = (dict(single), dict(rep))
    make = (lambda *a, **k: DispersionFactory.get_dispersion(name, *a, **k)) if case.index % 3 == 2 else cls
    values = {"lbda": [300.0, 500.0, 900.0, 1200.0], "n": [1.5, 1.6, 1.7, 1.6], "epsilon": [2.0, 3.0, 4.0, 2.0], "psi": [20.0, 21.0, 23.0, 22.0], "delta": [100.0, 110.0, 90.0, 80.0], "angle": 60.0}
    table = any(v is None for v in single.values())

    def value(k):
        return values[k] if table else float(rng.uniform(1, 2))
    full = {k: value(k) for k in single}
    unknown = pick(rng, ["foo", "x", "N0", "Lbda", "a", "eps_inf", "n_0", "gamma_", "_", "E0 ", "λ", "self_"])
    while unknown in single or unknown in rep:
        unknown += "_"

    def refused(what, *a, **k):
        case.event("rejected")
        case.raises(InvalidParameters, lambda: make(*a, **k), f"{name}: {what}")
    refused(f"unknown parameter {unknown}", **full, **{unknown: 1.0})
    refused(f"only unknown parameter {unknown}", **{unknown: 1.0})
    refused("surplus positional parameter", *full.values(), 1.0)
    refused("many positional parameters", *full.values(), *([1.0] * int(rng.integers(1, 9))))
    for k in rep:
        if k not in single:
            refused(f"repeated parameter {k} in the constructor", **full, **{k: 1.0})
    if full:
        dup = pick(rng, list(full))
        n = list(full).index(dup) + 1
        refused(f"duplicate parameter {dup}", *list(full.values())[:n], **{dup: full[dup]})
        if len(full) > 1:
            refused("duplicate and complete parameters", *list(full.values())[:-1], **{list(full)[0]: full[list(full)[0]]})
        refused("surplus by position and name", *full.values(), **{dup: full[dup]})
        required = [k for k, v in single.items() if v is None]
        if required:
            miss = [k for k in required if rng.random() < 0.5] or [pick(rng, required)]
            refused(f"missing {miss}", **{k: v for k, v in full.items() if k not in miss})
            refused("missing everything")
            refused("None", **dict(full, **{pick(rng, required): None}))
            n = int(rng.integers(len(required)))
            refused(f"only {n} positional parameters", *list(full.values())[:n])
        elif rng.random() < 0.5:
            refused("None", **{dup: None})
    # the valid ones still work
    keys = list(full)
    n = int(rng.integers(len(keys) + 1))
    part = keys if table else [k for k in keys[n:] if rng.random() < 0.7] + keys[:n]
    d = make(*[full[k] for k in keys[:n]], **{k: full[k] for k in part if k not in keys[:n]})
    case.event("accepted")
    for k in keys:
        want = full[k] if k in part else single[k]
        case.check(d.single_params[k] is want or d.single_params[k] == want, f"{name}: parameter {k} is {d.single_params[k]} instead of {want}")
    # oscillators
    count = 0
    for _ in range(4):
        if not rep or rng.random() < 0.5:
            bad = pick(rng, ["unknown", "surplus", "duplicate", "single"])
            rfull = {k: float(rng.uniform(1, 2)) for k in rep}
            before = snap(d)
            if bad == "unknown":
                call = lambda: d.add(**rfull, **{unknown: 1.0})
            elif bad == "surplus":
                call = lambda: d.add(*rfull.values(), 1.0)
            elif bad == "duplicate" and rep:
                call = lambda: d.add(*rfull.values(), **{pick(rng, list(rep)): 1.0})
            elif bad == "single" and [k for k in single if k not in rep]:
                call = lambda: d.add(**rfull, **{pick(rng, [k for k in single if k not in rep]): 1.0})
            else:
                continue
            case.event("rejected")
            case.raises(InvalidParameters, call, f"{name}.add with {bad} parameter")
            case.event("unchanged")
            case.check(snap(d) == before, f"{name}: rejected oscillator changed the dispersion")
        else:
            r = {k: float(rng.uniform(1, 2)) for k in rep if rng.random() < 0.8}
            got = d.add(**r)
            count += 1
            case.event("accepted")
            case.check(got is d, f"{name}.add does not return the dispersion")
            case.check(d.rep_params[-1] == {**rep, **r}, f"{name}.add: {d.rep_params[-1]} instead of {({**rep, **r})}")
        case.check(len(d.rep_params) == count, f"{name}: {len(d.rep_params)} oscillators instead of {count}")
    case.check((dict(cls.single_params_template), dict(cls.rep_params_template)) == templates, f"{name}: the defaults were changed")
    other = pick(rng, ["Dispersions", "cauchy_", "Kauchy", "", "sellmeier ", "DISPERSION", "Dispersion", "Table1", "Formula_"])
    case.event("rejected")
    case.raises(ValueError, lambda: DispersionFactory.get_dispersion(other), f"dispersion called {other!r}")


def s_tables(case):
    rng = case.rng
    n = int(rng.integers(0, 7))
    m = int(rng.integers(0, 7))
    box = pick(rng, [np.array, list, tuple])
    lb = box(np.sort(rng.uniform(200, 900, n)))
    y = box(1 + rng.random(m))
    which = case.index % 4
    case.describe(which=which, lengths=[n, m], container=box.__name__)
    cls, key = [(elli.Table, "n"), (elli.TableEpsilon, "epsilon")][which % 2]
    if which < 2:
        def make():
            return cls(lb, y) if case.index % 3 else cls(**{"lbda": lb, key: y})
        if n != m or n == 0:
            case.event("rejected")
            case.raises(InvalidParameters, make, f"{cls.__name__} with {n} wavelengths and {m} values")
        elif n > 1:
            d = make()
            case.event("accepted")
            w = np.asarray(lb, dtype=float)
            for x in (w[0] - 1e-6, w[-1] + 1e-6, w[0] / 2, w[-1] * 2, [w[0], w[-1] + 1], [w[0] - 1, w[-1]]):
                case.event("rejected", 2)
                case.raises(ValueError, lambda x=x: d.get_dielectric(x), f"{cls.__name__} at {x}")
                case.raises(ValueError, lambda x=x: d.get_refractive_index(x), f"{cls.__name__} at {x}")
            s = elli.Structure(elli.AIR, [elli.Layer(d.get_mat(), 10)], elli.AIR)
            case.event("rejected")
            case.raises(ValueError, lambda: s.evaluate([w[0], w[-1] + 1], 60), "evaluation outside of the table")
    elif which == 2:
        # Kramers-Kronig relations
        f = pick(rng, [kkr.im2re, kkr.re2im, kkr.im2re_reciprocal, kkr.re2im_reciprocal])
        if n == m or min(n, m) < 2:
            n, m = 5, int(pick(rng, [2, 3, 4, 6, 7]))
        case.event("rejected")
        case.raises(ValueError, lambda: f(np.linspace(0, 1, m), np.linspace(1, 3, n)), f"{f.__name__} with {m} values on {n} points")
    else:
        a = [np.linspace(300, 800, 6), np.linspace(20, 30, 6), np.linspace(90, 120, 6)]
        k = int(rng.integers(3))
        a[k] = a[k][:int(rng.integers(2, 6))]
        case.event("rejected")
        case.raises(Exception, lambda: elli.PseudoDielectricFunction(60.0, *a), f"pseudo dielectric function of lengths {[len(x) for x in a]}")
        case.event("rejected")
        case.raises(Exception, lambda: elli.PseudoDielectricFunction(60.0, [], [], []), "empty pseudo dielectric function")


BAD_FORMULAS = ["", "eps", "eps =", "= A", "eps = A +", "eps = (A", "eps = A)", "eps = A B", "foo = A", "eps == A", "eps = A ++* 2", "eps = sum[A", "eps = sum(A", "eps = A; B",
                "eps = A\nn = A", "eps = $A", "eps = [A]"]
BAD_NAMES = ["eps = A + unknown", "eps = foo(A)", "eps = sum[C * D]", "eps = sum[foo(B)]", "eps = B", "eps = A + sum[B * unknown]", "eps = sinh(A)", "eps = A + lamda"]


def s_formula(case):
    rng = case.rng
    single = {"A": float(rng.uniform(1, 2))}
    rep = {"B": [float(x) for x in rng.uniform(0, 1, int(rng.integers(1, 4)))]}
    good = "eps = A + sum[B * lbda / 1000]"
    cls, other = elli.Formula, elli.FormulaIndex
    if rng.random() < 0.5:
        cls, other = other, cls

    def text(s, c=cls):
        return s.replace("eps", "n") if c is elli.FormulaIndex and s.startswith("eps") else s
    u = case.index % 6
    case.describe(which=u, cls=cls.__name__)
    d = cls(text(good), "lbda", single, rep)
    want = d.get_dielectric(LB)
    case.event("accepted")
    case.event("rejected")
    if u == 0:
        bad = pick(rng, BAD_FORMULAS)
        case.raises(Exception, lambda: cls(text(bad), "lbda", single, rep), f"formula {bad!r}")
    elif u == 1:
        bad = pick(rng, BAD_NAMES)

        def use():
            return cls(text(bad), "lbda", single, rep).get_dielectric(LB)
        case.raises(Exception, use, f"formula {bad!r}")
    elif u == 2:
        case.raises(ValueError, lambda: other(text(good), "lbda", single, rep), f"{other.__name__} of {text(good)!r}")
    elif u == 3:
        bad = pick(rng, ["kg", "s", "K", "mol", "nm * s", "1/nm", "eV * eV", "Hz"])
        case.raises(ValueError, lambda: cls(text(good), "lbda", single, rep, bad), f"unit {bad}")
        case.event("rejected")
        case.raises(Exception, lambda: cls(text(good), "lbda", single, rep, "foo"), "unit foo")
    elif u == 4:
        k = int(rng.integers(1, 5))
        bad = {"B": rep["B"], "C": [1.0] * (len(rep["B"]) + (k if rng.random() < 0.5 else -1))}
        if rng.random() < 0.5:
            bad = dict(reversed(list(bad.items())))
        case.raises(ValueError, lambda: cls(text(good), "lbda", single, bad), f"repeated parameters of lengths {[len(x) for x in bad.values()]}")
    else:
        bad = pick(rng, [1.0, "abc", (1.0, 2.0), None, {"B": 1}])
        case.raises((ValueError, TypeError), lambda: cls(text(good), "lbda", single, {"B": bad}), f"repeated parameter of type {type(bad)}")
        case.event("rejected")
        v = pick(rng, ["1.0", None, [1.0], np.ones(3)])
        case.raises(Exception, lambda: cls(text(good), "lbda", {"A": v}, rep).get_dielectric(LB), f"parameter {v!r}")
    case.check(np.array_equal(d.get_dielectric(LB), want), "another formula changed the dispersion")


# ------------------------------------------------------------------ evaluation

def s_evaluate(case):
    rng = case.rng
    s = wide_structure(rng)
    vector = pick(rng, [[1, 0], [0.6, 0.8j], [1, 0, 1, 0], [1, 0.2, 0.3, 0.4]])
    e = elli.Experiment(s, LB, 60.0, vector)
    case.event("accepted")
    case.describe(layers=len(s.layers))
    for _ in range(3):
        bad = pick(rng, [[], [1], [1, 0, 1], [1, 0, 1, 0, 0], np.ones((2, 2)), np.ones((1, 2)), np.ones((4, 1)), 1.0, 1, [[1, 0]], np.ones(8), ()])
        refuse(case, e, ValueError, lambda bad=bad: e.set_vector(bad), f"polarization {bad!r}")
        case.event("rejected")
        case.raises(ValueError, lambda bad=bad: elli.Experiment(s, LB, 60.0, bad), f"polarization {bad!r}")
    # solvers and propagators
    for _ in range(2):
        bad = pick(rng, [None, "Solver4x4", "4x4", 4, elli.PropagatorExpm(), [elli.Solver4x4], {}, elli.Solver])
        refuse(case, e, TypeError, lambda bad=bad: e.evaluate(bad), f"solver {bad!r:.40}")
        refuse(case, s, TypeError, lambda bad=bad: s.evaluate(LB, 60, solver=bad), f"solver {bad!r:.40}")
    bad = pick(rng, ["expm", 1, "torch", elli.Solver2x2, [], {}, elli.AIR])
    refuse(case, e, Exception, lambda: e.evaluate(elli.Solver4x4, propagator=bad), f"propagator {bad!r:.40}")
    key = pick(rng, ["propagators", "Propagator", "backend", "lbda", "theta", "foo"])
    refuse(case, e, TypeError, lambda: e.evaluate(elli.Solver4x4, **{key: elli.PropagatorEig()}), f"solver argument {key}")
    refuse(case, e, TypeError, lambda: e.evaluate(elli.Solver2x2, **{key: elli.PropagatorEig()}), f"solver argument {key}")
    backend = pick(rng, ["numpy", "", "Torch", "SCIPY", "auto", "jax", None, 0, "scipy ", "tensorflow", True, 1.5])
    case.event("rejected")
    case.raises(ValueError, lambda: elli.PropagatorExpm(backend), f"backend {backend!r}")
    case.event("rejected")
    case.raises(ValueError, lambda: elli.PropagatorExpm(backend=backend), f"backend {backend!r}")
    # delta ranges
    e = elli.Experiment(elli.Structure(elli.AIR, [elli.Layer(elli.ConstantRefractiveIndex(1.7).get_mat(), 80)], elli.ConstantRefractiveIndex(3.8).get_mat()), LB, 60.0, vector)
    r = e.evaluate()
    before = r.delta.copy()
    for _ in range(3):
        lo, hi = pick(rng, [(0, 90), (-90, 90), (-180, 179), (0, 359), (1, 361), (-361, -1), (-400, -40), (20, 180), (360, 0), (180, -180), (0, 0), (0, 720), (-360, 360), (-180, 360), (-100, 180), (10, 370),
                            (5, 365), (-179, 180), (-360, -180)])
        case.event("rejected")
        case.raises(ValueError, lambda lo=lo, hi=hi: r.as_delta_range(lo, hi), f"delta range {lo}, {hi}")
        case.event("rejected")
        case.raises(ValueError, lambda lo=lo, hi=hi: elli.DeltaRange(lo, hi), f"delta range {lo}, {hi}")
        lo, hi = pick(rng, [(0, 360.0), (0.0, 360), (-180.0, 180.0), ("0", 360), (0, "360"), (None, None), (0, None), ([0], 360), (0j, 360)])
        case.event("rejected")
        case.raises(TypeError, lambda lo=lo, hi=hi: r.as_delta_range(lo, hi), f"delta range {lo!r}, {hi!r}")
        case.event("unchanged")
        case.check(np.array_equal(r.delta, before, equal_nan=True), "a rejected delta range changed the result")
    for name in ("psi_xx", "r_pq", "foo", "R_", "t_5s", "psi_p", "delta_pps", "Σ", "x_pp"):
        case.event("rejected", 2)
        case.raises(Exception, lambda name=name: getattr(r, name), f"result.{name}")
        case.raises(Exception, lambda name=name: r.get(name), f"result.get({name!r})")
    rl = elli.ResultList([r, e.evaluate()])
    case.event("rejected", 2)
    case.raises(Exception, lambda: rl.foo_pp, "ResultList.foo_pp")
    case.raises(ValueError, lambda: rl.mean.mean, "mean of a mean")


def s_history_length(case):
    """Parameter histories."""
    from elli.fitting import ParamsHist
    rng = case.rng
    p = ParamsHist()
    p.add("a", value=1.0)
    n = int(rng.integers(1, 8))
    p.max_history_len = n
    for k in range(int(rng.integers(0, 10))):
        p["a"].value = float(k)
        p.commit()
    case.describe(length=n)
    case.event("accepted")

    def set_(v):
        p.max_history_len = v
    state = (p.history_len, p.max_history_len, p["a"].value, [h["a"].value for h in p.history])
    for _ in range(3):
        v = pick(rng, [0, -1, -10, 1.0, 2.5, "3", None, [1], np.float64(4), float("nan"), False])
        case.event("rejected")
        case.raises(ValueError, lambda v=v: set_(v), f"history length {v!r}")
        case.event("unchanged")
        case.check((p.history_len, p.max_history_len, p["a"].value, [h["a"].value for h in p.history]) == state, "a rejected history length changed the history")
    k = pick(rng, ["b", "A", "", "a "])
    case.event("rejected")
    case.raises(KeyError, lambda: p[k], f"parameter {k!r}")


SUITES = [
    Suite("history", s_history, 3600, 36000),
    Suite("parameters", s_parameters, 2400, 24000),
    Suite("tables", s_tables, 3200, 32000),
    Suite("formula", s_formula, 2000, 20000),
    Suite("evaluate", s_evaluate, 1200, 12000),
    Suite("params_hist", s_history_length, 800, 8000),
]
