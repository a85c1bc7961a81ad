"""Workload generators: structures drawn together with an independent description.

Every spec object knows how to build the package's object (`build`) and, separately, what
it means physically (`eps`, `tensor`, `slices`) without calling the package.
"""

from __future__ import annotations

import math

import numpy as np

import elli
from .ref import disp as rd

# ------------------------------------------------------------------ rotations (own)


def rot_axis(axis, deg):
    """Rotation about a coordinate axis, right-handed, written out elementwise."""
    a = math.radians(deg)
    c, s = math.cos(a), math.sin(a)
    m = np.eye(3)
    i, j = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[axis]
    m[i, i] = m[j, j] = c
    m[i, j], m[j, i] = -s, s
    return m


def rot_euler(p, n, r):
    return rot_axis("z", p) @ rot_axis("x", n) @ rot_axis("z", r)


def rodrigues(v, deg):
    """Rotation of column vectors about unit vector v, from the vector formula."""
    v = np.asarray(v, float)
    a = math.radians(deg)
    cols = []
    for e in np.eye(3):
        cols.append(e * math.cos(a) + np.cross(v, e) * math.sin(a)
                    + v * np.dot(v, e) * (1 - math.cos(a)))
    return np.array(cols).T


# ------------------------------------------------------------------ dispersions

def eps_of(kind, single, rep):
    """Independent permittivity function of a model kind."""
    n_models = {
        "Cauchy": rd.cauchy, "CauchyCustomExponent": rd.cauchy_custom,
        "CauchyUrbach": rd.cauchy_urbach, "ConstantRefractiveIndex": rd.constant_n,
    }
    e_models = {
        "EpsilonInf": rd.eps_inf, "Sellmeier": rd.sellmeier,
        "SellmeierCustomExponent": rd.sellmeier_custom, "Polynomial": rd.polynomial,
        "Poles": rd.poles, "LorentzEnergy": rd.lorentz_energy,
        "LorentzLambda": rd.lorentz_lambda, "Gaussian": rd.gaussian,
        "DrudeEnergy": rd.drude_energy, "DrudeResistivity": rd.drude_resistivity,
        "Tanguy": rd.tanguy,
    }
    if kind in n_models:
        f = n_models[kind](single, rep)
        return "n", f
    return "eps", e_models[kind](single, rep)


class Disp:
    """A dispersion: kind + parameters; `build()` the real one, `eps(l)` what it means."""

    def __init__(self, kind, single=None, rep=(), lossless=False):
        self.kind, self.single, self.rep = kind, dict(single or {}), [dict(r) for r in rep]
        self.lossless = lossless

    def build(self):
        d = getattr(elli, self.kind)(**self.single)
        for r in self.rep:
            d.add(**r)
        return d

    def eps(self, lbda):
        if self.kind in ("Table", "TableEpsilon"):
            x = np.asarray(self.single["lbda"], float)
            key = "n" if self.kind == "Table" else "epsilon"
            y = np.asarray(self.single[key], complex)
            o = np.argsort(x)
            lb = np.asarray(lbda, float)
            v = np.interp(lb, x[o], y.real[o]) + 1j * np.interp(lb, x[o], y.imag[o])
            return v**2 if key == "n" else v
        typ, f = eps_of(self.kind, self.single, self.rep)
        v = rd.each(f)(lbda)
        return v**2 if typ == "n" else v

    def info(self):
        return {"kind": self.kind, **self.single, **({"rep": self.rep} if self.rep else {})}


def disp(rng, lossless=None, lo=1.0, hi=4.0, kmax=3.0, kinds=None, lrange=(200, 2000)):
    """A dispersion with sane optical constants in lrange. lossless: True/False/None."""
    if lossless is None:
        lossless = bool(rng.random() < 0.5)
    if kinds is None:
        kinds = ["const"] * 3 + ["eps", "cauchy", "sellmeier", "lorentz", "table", "tableeps"]
    k = kinds[rng.integers(len(kinds))]
    n = float(rng.uniform(lo, hi))
    kk = 0.0 if lossless else float(kmax * rng.random() ** 3 + 10 ** rng.uniform(-4, -1))
    if not lossless and k in ("const", "eps") and rng.random() < 0.12:      # hardly absorbing
        kk = float(10 ** rng.uniform(-12, -3))
    if k == "const":
        v = n if lossless else complex(n, kk)
        return Disp("ConstantRefractiveIndex", {"n": v}, lossless=lossless)
    if k == "eps":
        v = n * n if lossless else complex(n, kk) ** 2
        return Disp("EpsilonInf", {"eps": v}, lossless=lossless)
    if k == "cauchy":
        s = {"n0": n, "n1": float(rng.uniform(0, 60)), "n2": float(rng.uniform(0, 30)),
             "k0": 0, "k1": 0, "k2": 0}
        if not lossless:
            s.update(k0=kk, k1=float(rng.uniform(0, 20)), k2=float(rng.uniform(0, 10)))
        return Disp("Cauchy", s, lossless=lossless)
    if k == "sellmeier" and lossless:
        rep = [{"A": float(rng.uniform(0.3, 2)), "B": float(rng.uniform(0.001, 0.02))}
               for _ in range(rng.size_of([1, 2, 3], 20, tail=0.02))]
        return Disp("Sellmeier", {}, rep, lossless=True)
    if k == "lorentz" and not lossless:
        rep = [{"A": float(rng.uniform(1, 30)), "E": float(rng.uniform(2, 8)),
                "gamma": float(rng.uniform(0.05, 2))} for _ in range(rng.size_of([1, 2, 3], 20, tail=0.02))]
        return Disp("LorentzEnergy", {}, rep, lossless=False)
    if k in ("table", "tableeps"):
        m = rng.size_of(range(2, 12), 400, 2)
        x = np.sort(rng.uniform(lrange[0], lrange[1], m))
        x[0], x[-1] = lrange[0] - 1, lrange[1] + 1
        re = rng.uniform(lo, hi, m)
        if lossless:
            y = re if k == "table" else re**2
        else:
            im = kk * rng.random(m) + 1e-4
            y = re + 1j * im if k == "table" else (re + 1j * im) ** 2
        return Disp("Table" if k == "table" else "TableEpsilon",
                    {"lbda": x, ("n" if k == "table" else "epsilon"): y}, lossless=lossless)
    return Disp("ConstantRefractiveIndex", {"n": n if lossless else complex(n, kk)},
                lossless=lossless)


# ------------------------------------------------------------------ materials

class Mat:
    def __init__(self, kind, disps, rot=None, shared=False):
        self.kind, self.disps, self.rot = kind, disps, rot  # rot: (how, args, matrix)
        self.shared, self._obj = shared, None

    def obj(self):
        """The package's object; the same one every time if this material is shared."""
        if not self.shared:
            return self.build()
        if self._obj is None:
            self._obj = self.build()
        return self._obj

    @property
    def lossless(self):
        return all(d.lossless for d in self.disps)

    @property
    def isotropic(self):
        return len({id(d) for d in self.disps}) == 1

    def build(self):
        ds = [d.build() for d in self.disps]
        if self.kind == "iso":
            m = ds[0].get_mat() if len(ds[0].single_params) % 2 else elli.IsotropicMaterial(ds[0])
        elif self.kind == "uni":
            m = elli.UniaxialMaterial(*ds)
        else:
            m = elli.BiaxialMaterial(*ds)
        if self.rot is not None:
            how, args, _ = self.rot
            m.set_rotation(args[0] if how == "_matrix" else getattr(elli, how)(*args))
        return m

    def axes(self, lbda):
        e = [d.eps(lbda) for d in self.disps]
        if self.kind == "iso":
            return [e[0]] * 3
        if self.kind == "uni":
            return [e[0], e[0], e[1]]
        return e

    def tensor(self, lbda):
        lb = np.atleast_1d(np.asarray(lbda, float))
        ax = [np.broadcast_to(a, lb.shape) for a in self.axes(lb)]
        t = np.zeros((lb.size, 3, 3), complex)
        r = np.eye(3) if self.rot is None else self.rot[2]
        for k in range(3):
            t += ax[k][:, None, None] * np.multiply.outer(r[:, k], r[:, k])
        return t

    def info(self):
        return {"kind": self.kind, "disps": [d.info() for d in self.disps],
                **({"rot": [self.rot[0], self.rot[1]]} if self.rot else {})}


def rotation(rng):
    """(package function name, args, own matrix)"""
    how = rng.integers(4)
    special = [0, 30, 45, 90, 180, 270, 360, -90]

    def ang():
        return float(special[rng.integers(len(special))] if rng.random() < 0.3
                     else rng.uniform(-360, 720))
    if how <= 1:
        a = (ang(), ang(), ang())
        return ("rotation_euler", a, rot_euler(*a))
    v = rng.normal(size=3)
    if rng.random() < 0.3:
        v = np.eye(3)[rng.integers(3)]
    v = v / np.linalg.norm(v)
    if how == 2:
        t = ang()
        return ("rotation_v_theta", (v.tolist(), t), rodrigues(v, t))
    t = float(rng.uniform(0, 3))
    return ("rotation_v", ((v * t).tolist(),), rodrigues(v, math.degrees(t)))


def mat_iso(rng, **kw):
    return Mat("iso", [disp(rng, **kw)])


def mat_aniso(rng, lossless=None, rot=True, lo=1.2, hi=3.0, **kw):
    if lossless is None:
        lossless = bool(rng.random() < 0.5)
    kind = "uni" if rng.random() < 0.5 else "bi"
    ds = [disp(rng, lossless=lossless, lo=lo, hi=hi, **kw) for _ in range(2 if kind == "uni" else 3)]
    return Mat(kind, ds, rotation(rng) if rot and rng.random() < 0.85 else None)


def mat_metal(rng):
    return Mat("iso", [Disp("ConstantRefractiveIndex",
                            {"n": complex(rng.uniform(0.05, 2), rng.uniform(2, 7))})])


# ------------------------------------------------------------------ layers

class Lay:
    def __init__(self, mat, d):
        self.mat, self.d = mat, d

    def build(self):
        return elli.Layer(self.mat.obj(), self.d)

    def slices(self, lbda):
        return [(self.d, self.mat.tensor(lbda))]

    def info(self):
        return {"d": self.d, "mat": self.mat.info()}


class Rep:
    """RepeatedLayers over whole child layers: last `before` first, then n periods, ..."""

    def __init__(self, kids, n, before=0, after=0):
        self.kids, self.n, self.before, self.after = kids, n, before, after

    def build(self):
        kids = [k.build() for k in self.kids]
        if not self.after:      # as a user would write it
            return elli.RepeatedLayers(kids, self.n, self.before) if self.before else elli.RepeatedLayers(kids, self.n)
        if not self.before:
            layer = elli.RepeatedLayers(kids, 1, 2, 3)
            layer.set_repetitions(self.n, after=self.after)
            return layer
        return elli.RepeatedLayers(kids, self.n, self.before, self.after)

    def sequence(self):
        k = self.kids
        return (k[len(k) - self.before:] if self.before else []) + list(k) * self.n + k[: self.after]

    def slices(self, lbda):
        return [s for k in self.sequence() for s in k.slices(lbda)]

    def info(self):
        return {"repeat": self.n, "before": self.before, "after": self.after,
                "layers": [k.info() for k in self.kids]}


class Twist:
    def __init__(self, mat, d, div, angle):
        self.mat, self.d, self.div, self.angle = mat, d, div, angle

    def build(self):
        return elli.TwistedLayer(self.mat.obj(), self.d, self.div, self.angle)

    def slices(self, lbda):
        e = self.mat.tensor(lbda)
        out = []
        for k in range(self.div):
            r = rot_axis("z", self.angle * (k + 0.5) / self.div)
            out.append((self.d / self.div, np.einsum("ab,nbc,dc->nad", r, e, r)))
        return out

    def info(self):
        return {"twist": self.angle, "d": self.d, "div": self.div, "mat": self.mat.info()}


def permittivity_stack(case_layers, lbda):
    return [s for L in case_layers for s in L.slices(lbda)]


# ------------------------------------------------------------------ experiments

def wavelengths(rng, n=None, lo=250, hi=1900, forms=True, most=60):
    """(object handed to the package, float array it means)"""
    if n is None:
        n = rng.size_of([1, 2, 3, 5], most, tail=0.015)
    w = rng.uniform(lo, hi, n)
    form = rng.integers(8) if forms else 0
    if form == 1:
        w = np.round(w)
        return w.astype(int), w.astype(float)
    if form == 2:
        return [float(x) for x in w], w
    if form == 3:
        w = w[:1]
        return float(w[0]), w
    if form == 4:
        w = np.sort(w)[::-1].copy()
        return w, w
    if form == 5:
        w = np.concatenate([w, w[:1]])
        return w, w
    if form == 6:
        w = np.round(w)
        return [int(x) for x in w], w
    return w, w


def angle(rng, hi=89.0):
    u = rng.random()
    if u < 0.12:
        return 0
    if u < 0.22:
        return float(rng.uniform(1e-6, 1e-2))
    if u < 0.32:
        return int(rng.integers(1, int(hi)))
    if u < 0.40:
        return float(rng.uniform(hi - 4, hi))
    return float(rng.uniform(0, hi))


def thickness(rng, hi=400.0):
    u = rng.random()
    if u < 0.06:
        return 0
    if u < 0.15:
        return int(rng.integers(1, int(hi)))
    if u < 0.25:
        return float(10 ** rng.uniform(-3, 0))
    return float(rng.uniform(1e-6, hi))


# ------------------------------------------------------------------ mixtures

def mix_eps(kind, eh, eg, f):
    """Elementwise effective permittivity from the defining equations."""
    eh, eg = np.broadcast_arrays(np.asarray(eh, complex), np.asarray(eg, complex))
    if kind == "VCAMaterial":
        return eh + f * (eg - eh)
    if kind == "LooyengaEMA":
        return (f * eg ** (1 / 3) + (1 - f) * eh ** (1 / 3)) ** 3
    if kind == "MaxwellGarnettEMA":
        # (e-eh)/(e+2eh) = f (eg-eh)/(eg+2eh)
        with np.errstate(all="ignore"):
            b = f * (eg - eh) / (eg + 2 * eh)
        b = np.where(eg == eh, 0, b)
        return eh * (1 + 2 * b) / (1 - b)
    # (1-f)(eh-e)/(eh+2e) + f(eg-e)/(eg+2e) = 0: the root between the constituents
    out = np.zeros(eh.shape, complex)
    for i in np.ndindex(eh.shape):
        a, g = eh[i], eg[i]
        if a == g:
            out[i] = a
            continue
        roots = np.roots([-2, (1 - f) * (2 * a - g) + f * (2 * g - a), a * g])
        lo, hi = sorted([np.angle(a), np.angle(g)])
        mid = (lo + hi) / 2
        out[i] = min(roots, key=lambda z: abs(np.angle(z * np.exp(-1j * mid))))
    return out


MIXES = ["VCAMaterial", "LooyengaEMA", "MaxwellGarnettEMA", "BruggemanEMA"]


class Mix:
    """Mixture of two materials (iso, or unrotated for elementwise theories)."""

    def __init__(self, kind, host, guest, f, shared=False):
        self.mkind, self.host, self.guest, self.f = kind, host, guest, f
        self.kind = "mix"
        self.shared, self._obj = shared, None

    lossless = property(lambda s: s.host.lossless and s.guest.lossless)
    isotropic = property(lambda s: s.host.isotropic and s.guest.isotropic)

    def build(self):
        return getattr(elli, self.mkind)(self.host.obj(), self.guest.obj(), self.f)

    obj = Mat.obj

    def at(self, lbda, f):
        h, g = self.host.tensor(lbda), self.guest.tensor(lbda)
        if self.mkind == "VCAMaterial":
            return h + f * (g - h)
        out = np.zeros_like(h)
        for k in range(3):
            out[:, k, k] = mix_eps(self.mkind, h[:, k, k], g[:, k, k], f)
        return out

    def tensor(self, lbda):
        return self.at(lbda, self.f)

    def axes(self, lbda):
        t = self.tensor(lbda)
        return [t[:, k, k] for k in range(3)]

    def info(self):
        return {"mix": self.mkind, "f": self.f, "host": self.host.info(), "guest": self.guest.info()}


def disguise(rng, m):
    """Now and then the isotropic medium in another description, or a mixture with it."""
    u = rng.random()
    if u > 0.5 or m.kind != "iso":
        return m
    rot = rotation(rng) if rng.random() < 0.5 else None
    if u < 0.15:
        return Mat("uni", [m.disps[0]] * 2, rot)
    if u < 0.25:
        return Mat("bi", [m.disps[0]] * 3, rot)
    return Mix(MIXES[rng.integers(4)], m, mat_iso(rng, lossless=m.lossless, lo=1.0, hi=2.5),
               float(rng.choice([0, 1, rng.random(), rng.random()])))


def mix_iso(rng, lossless=None, depth=1, **kw):
    def part():
        if depth > 1 and rng.random() < 0.3:
            return mix_iso(rng, lossless, depth - 1, **kw)
        return mat_iso(rng, lossless=lossless, **kw)
    f = float(rng.choice([0, 1, 0.5, 0.25, rng.random(), rng.random()]))
    return Mix(MIXES[rng.integers(4)], part(), part(), f)


PROFILES = {
    "linear": lambda x: x,
    "reverse": lambda x: 1 - x,
    "square": lambda x: x * x,
    "step": lambda x: 1.0 if x > 0.4142135 else 0.0,
    "sine": lambda x: math.sin(math.pi * x) ** 2,
    "const": lambda x: 0.3,
}


class Vary:
    """VaryingMixtureLayer with a named profile."""

    def __init__(self, mix, d, div, profile):
        self.mat, self.d, self.div, self.profile = mix, d, div, profile

    def build(self):
        m = self.mat.obj()
        if self.profile == "default":
            return elli.VaryingMixtureLayer(m, self.d, self.div)
        return elli.VaryingMixtureLayer(m, self.d, self.div, PROFILES[self.profile])

    def fraction(self, k):
        x = (k + 0.5) / self.div if self.d else 0.0
        return PROFILES.get(self.profile, PROFILES["linear"])(x)

    def slices(self, lbda):
        return [(self.d / self.div, self.mat.at(lbda, self.fraction(k))) for k in range(self.div)]

    def info(self):
        return {"vary": self.profile, "d": self.d, "div": self.div, "mat": self.mat.info()}
