"""C11: every wavelength is evaluated on its own, whatever container it comes in."""
import numpy as np
import pandas as pd

import elli
from .. import gen
from ..core import Suite
from ..wide import MODELS, wide_disp, wide_materials, wide_structure
from .c10 import solver_of

PROPERTY = "C11"
RULE = (
    "one grid of wavelengths handed over in many containers (scalars, 0-d arrays, lists, tuples, integer and "
    "float arrays of every width, strided views, pandas) and arrangements (permuted, repeated, split, "
    "descending, single); values of every dispersion model, material, layer and simulated result compared "
    "point by point with the values at plain float arrays and at single wavelengths"
)
ASSUMPTIONS = ["float32 wavelength arrays of an experiment are judged to single precision",
               "a constant model may answer with one value for all wavelengths"]
REACH = {"dispersion containers": 2000, "material containers": 1000, "layer containers": 500,
         "experiment containers": 500, "point by point": 1000}


def containers(rng, lb):
    """(name, object, float values it means); lb are whole numbers so that integers carry them."""
    f = [float(x) for x in lb]
    i = [int(x) for x in lb]
    out = [
        ("list of float", f, lb), ("list of int", i, lb), ("tuple of float", tuple(f), lb),
        ("tuple of int", tuple(i), lb), ("int64 array", lb.astype(np.int64), lb),
        ("int32 array", lb.astype(np.int32), lb), ("int16 array", lb.astype(np.int16), lb),
        ("uint16 array", lb.astype(np.uint16), lb), ("uint32 array", lb.astype(np.uint32), lb),
        ("uint64 array", lb.astype(np.uint64), lb), ("float32 array", lb.astype(np.float32), lb),
        ("longdouble array", lb.astype(np.longdouble), lb),
        ("big-endian array", lb.astype(">f8"), lb),
        ("strided view", np.repeat(lb, 3)[::3], lb), ("reversed view", lb[::-1].copy()[::-1], lb),
        ("read-only array", _readonly(lb), lb), ("mixed list", [*f[:1], *i[1:]], lb),
        ("list of numpy ints", [np.int16(x) for x in i], lb), ("object array", np.array(i, dtype=object), lb),
        ("pandas index", pd.Index(lb), lb), ("pandas series", pd.Series(lb), lb),
        ("float16 list", [np.float64(x) for x in f], lb),
    ]
    rng.shuffle(out)
    return out


def scalars(rng, lb):
    x = float(lb[rng.integers(len(lb))])
    out = [("float", x), ("int", int(x)), ("numpy float", np.float64(x)), ("numpy int", np.int64(x)),
           ("int16", np.int16(x)), ("uint16", np.uint16(x)), ("0-d array", np.array(x)), ("0-d int array", np.array(int(x))),
           ("float32", np.float32(x))]
    return x, out


def _readonly(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def arrangements(rng, lb):
    """(name, wavelengths, index into the original grid)"""
    n = len(lb)
    p = rng.permutation(n)
    k = int(rng.integers(0, n))
    return [
        ("permuted", lb[p], p), ("descending", np.sort(lb)[::-1], np.argsort(lb)[::-1]),
        ("ascending", np.sort(lb), np.argsort(lb)), ("repeated", np.repeat(lb, 2), np.repeat(np.arange(n), 2)),
        ("tiled", np.tile(lb, 2), np.tile(np.arange(n), 2)), ("part", lb[k:], np.arange(k, n)),
        ("single", lb[k:k + 1], np.array([k])), ("constant", np.full(3, lb[k]), np.full(3, k)),
        ("random draw", None, rng.integers(0, n, 7)), ("of the same length", None, rng.integers(0, n, n)),
        ("with the same ends", None, np.concatenate([[0], rng.integers(0, n, max(n - 2, 0)), [n - 1]][: 3 if n > 1 else 1]).astype(int)),
        ("of the same extremes", None, _extremes(rng, lb)),
    ]


def _extremes(rng, lb):
    n = len(lb)
    i = rng.integers(0, n, n)
    if n > 1:
        i[rng.permutation(n)[:2]] = np.argmin(lb), np.argmax(lb)
    return i


def grid(rng, most=60):
    n = rng.size_of([1, 2, 3, 3, 4, 5, 9], most, tail=0.03)
    return np.round(rng.uniform(250, 1950, n))


def full(v, n):
    v = np.asarray(v)
    return np.broadcast_to(v, (n,)) if v.ndim == 0 else v


def s_dispersion(case):
    rng = case.rng
    name = list(MODELS)[case.index % len(MODELS)]
    d = wide_disp(rng, name)
    lb = grid(rng, 200)
    case.describe(model=name, params=d.single_params, lbda=lb)
    case.event("model " + name)
    n = len(lb)
    for what, f in (("dielectric function", d.get_dielectric), ("refractive index", d.get_refractive_index)):
        base = f(lb.copy())
        const = np.ndim(base) == 0
        if not const:
            case.shape(base, (n,), f"{name} {what} of {n} wavelengths")
        base = full(base, n)
        scale = float(np.max(np.abs(base)))
        kw = dict(rtol=1e-11, atol=1e-12 * scale)
        for cname, obj, _ in containers(rng, lb):
            case.event("dispersion containers")
            v = f(obj)
            if not const:
                case.shape(v, (n,), f"{name} {what} for {cname}")
            case.close(full(v, n), base, f"{name} {what} for {cname}", **kw)
        for aname, w, idx in arrangements(rng, lb):
            w = lb[idx] if w is None else w
            case.close(full(f(w), len(idx)), base[idx], f"{name} {what} of a grid {aname}", **kw)
        for k in range(min(n, 4)):
            case.event("point by point")
            v = np.asarray(f(float(lb[k])))
            case.check(v.size == 1, f"{name} {what} of one wavelength has shape {v.shape}")
            case.close(v.ravel()[0], base[k], f"{name} {what} at one wavelength", **kw)
        x, ss = scalars(rng, lb)
        ref = np.asarray(f(x)).ravel()[0]
        for sname, obj in ss:
            v = np.asarray(f(obj))
            case.check(v.size == 1, f"{name} {what} of {sname}: shape {v.shape}")
            case.close(v.ravel()[0], ref, f"{name} {what} for scalar {sname}", **kw)
    for f, cols in ((d.get_dielectric_df, d.get_dielectric), (d.get_refractive_index_df, d.get_refractive_index)):
        w = [float(x) for x in lb]
        df = f(w)
        case.shape(df, (n, 2), f"{name} data frame")
        v = full(cols(lb), n)
        case.check(list(df.index) == w, f"{name} data frame is not in the given order")
        case.close(df.iloc[:, 0].to_numpy() + 1j * df.iloc[:, 1].to_numpy(), v, f"{name} data frame", rtol=1e-12,
                   atol=1e-13 * float(np.max(np.abs(v))))


def s_material(case):
    rng = case.rng
    disps = [wide_disp(rng) for _ in range(3)]
    mats, mix, vca = wide_materials(rng, disps)
    m = [*mats, mix, vca][case.index % 5]
    name = type(m).__name__
    lb = grid(rng)
    n = len(lb)
    case.describe(material=name, disps=[type(d).__name__ for d in disps], lbda=lb)
    for what, f in (("tensor", m.get_tensor), ("refractive index tensor", m.get_refractive_index)):
        base = f(lb.copy())
        case.shape(base, (n, 3, 3), f"{name} {what}")
        scale = float(np.nanmax(np.abs(base)))
        tol = dict(rtol=1e-10, atol=1e-11 * scale)
        if what != "tensor" and not m_diag(m):
            continue
        for cname, obj, _ in containers(rng, lb)[:12]:
            case.event("material containers")
            case.shape(f(obj), (n, 3, 3), f"{name} {what} for {cname}")
            case.close(f(obj), base, f"{name} {what} for {cname}", **tol)
        for aname, w, idx in arrangements(rng, lb):
            w = lb[idx] if w is None else w
            case.close(f(w), base[idx], f"{name} {what} of a grid {aname}", **tol)
        for k in range(min(n, 3)):
            case.event("point by point")
            case.shape(f(float(lb[k])), (1, 3, 3), f"{name} {what} of a scalar")
            case.close(f(float(lb[k]))[0], base[k], f"{name} {what} at one wavelength", **tol)
        x, ss = scalars(rng, lb)
        ref = f(np.array([x]))
        for sname, obj in ss:
            case.shape(f(obj), (1, 3, 3), f"{name} {what} of {sname}")
            case.close(f(obj), ref, f"{name} {what} for scalar {sname}", **tol)


def m_diag(m):
    return isinstance(m, elli.materials.SingleMaterial) and not m.rotated


def s_layers(case):
    rng = case.rng
    st = wide_structure(rng)
    lb = grid(rng)
    n = len(lb)
    case.describe(layers=[type(L).__name__ for L in st.layers], lbda=lb)
    for obj in [st, *st.layers[:3]]:
        f = obj.get_permittivity_profile
        name = type(obj).__name__
        base = f(lb.copy())

        def same(prof, idx, what):
            case.check(len(prof) == len(base), f"{name} {what}: {len(prof)} slices instead of {len(base)}")
            for (d1, e1), (d2, e2) in zip(prof, base):
                case.check(d1 == d2, f"{name} {what}: thickness {d1} instead of {d2}")
                case.shape(e1, (len(idx), 3, 3), f"{name} {what}")
                case.close(e1, e2[idx], f"{name} {what}", rtol=1e-10, atol=1e-11 * float(np.nanmax(np.abs(e2))))
        for cname, w, _ in containers(rng, lb)[:5]:
            case.event("layer containers")
            same(f(w), np.arange(n), f"for {cname}")
        for aname, w, idx in arrangements(rng, lb)[:6]:
            same(f(lb[idx] if w is None else w), idx, f"of a grid {aname}")
        same(f(float(lb[0])), np.array([0]), "of a scalar")
        case.event("point by point")


QUANT = ["jones_matrix_r", "jones_matrix_t", "mueller_matrix", "R_matrix", "psi", "R", "T"]


def quantities(r):
    return {q: np.asarray(getattr(r, q)) for q in QUANT}


def s_experiment(case):
    rng = case.rng
    st = wide_structure(rng)
    name, kw = solver_of(rng)
    lb = grid(rng)
    n = len(lb)
    theta = float(rng.uniform(0, 80))
    vec = [None, [1, 0.3j]][rng.integers(2)]
    case.describe(layers=[type(L).__name__ for L in st.layers], lbda=lb, theta=theta, solver=name)

    def f(w):
        if rng.random() < 0.3 and vec is None:
            r = st.evaluate(w, theta, **kw)
        elif rng.random() < 0.5:
            r = elli.Experiment(st, w, theta, vec).evaluate(**kw)
        else:
            e = elli.Experiment(st, 555, theta, vec)
            e.set_lbda(w)
            r = e.evaluate(**kw)
        return r
    base = quantities(f(lb.copy()))

    def same(r, idx, what, tol=1e-9):
        case.shape(r.experiment.lbda, (len(idx),), f"{name} wavelengths kept {what}")
        got = quantities(r)
        for q in QUANT:
            case.shape(got[q], (len(idx), *base[q].shape[1:]), f"{name} {q} {what}")
            w = base[q][idx]
            s = np.max(np.abs(w), axis=tuple(range(1, w.ndim)), keepdims=True) if w.ndim > 1 else np.abs(w)
            bad = ~(np.abs(got[q] - w) <= tol * (1 + s)) & ~(np.isnan(got[q]) & np.isnan(w)) & (got[q] != w)
            case.check(not bad.any(), f"{name} {q} {what} differs from the value at its wavelength",
                       got=got[q], want=w)
    for q in QUANT:
        case.check(base[q].shape[0] == n, f"{name} {q}: {base[q].shape} for {n} wavelengths")
    for cname, w, _ in containers(rng, lb)[:10 if n < 20 else 3]:
        if cname in ("longdouble array", "object array"):
            continue        # not a number type the linear algebra underneath has
        case.event("experiment containers")
        same(f(w), np.arange(n), f"for {cname}", 1e-5 * (1 + 50 * (name == "eig")) if cname == "float32 array" else 1e-9)
    for aname, w, idx in arrangements(rng, lb)[:: 1 if n < 20 else 4]:
        same(f(lb[idx] if w is None else w), idx, f"of a grid {aname}")
    for k in range(min(n, 3)):
        case.event("point by point")
        same(f([float(lb[k]), int(lb[k]), np.array([lb[k]])][rng.integers(3)]), np.array([k]), "at one wavelength")
    x, ss = scalars(rng, lb)
    k = int(np.nonzero(lb == x)[0][0])
    for sname, obj in ss:
        same(f(obj), np.array([k]), f"for scalar {sname}", 1e-4 if sname == "float32" else 1e-9)


SUITES = [
    Suite("dispersion", s_dispersion, 5 * 26, 100 * 26),
    Suite("material", s_material, 100, 3000),
    Suite("layers", s_layers, 60, 2000),
    Suite("experiment", s_experiment, 80, 2500),
]
