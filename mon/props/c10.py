"""C10: evaluation is pure: no hidden state, inputs unchanged, setters seen at once."""
import copy
import gc
import hashlib
import sys
import threading
import time
import warnings

import numpy as np

import elli
from .. import gen, hints
from ..core import Skip, Suite
from ..drive import PROPAGATORS
from ..wide import wide_structure

PROPERTY = "C10"
RULE = (
    "object graphs (all layer and material kinds, shared objects, mixtures, oscillator models, tables, "
    "sums, formulas) fingerprinted before and after evaluation; sequences of setter calls, each followed "
    "by a comparison with a freshly built twin; results re-read after their inputs changed; the same "
    "evaluations from several threads with yields injected inside the dispersions; objects created, used "
    "and dropped in a loop"
)
ASSUMPTIONS = [
    "the fingerprint covers public attributes that existed before the evaluation; private caches may "
    "appear as long as no result depends on them",
]
REACH = {"graphs compared": 300, "repeated evaluations": 500, "setter calls": 500, "results re-read": 300,
         "threaded evaluations": 300, "distinct interleavings": 20, "recycled objects": 1000}


# ------------------------------------------------------------------ fingerprint

def fingerprint(obj, seen=None, path="", out=None):
    """path -> value of every public attribute reachable from obj (elli objects, containers)."""
    seen = {} if seen is None else seen
    out = {} if out is None else out
    if isinstance(obj, np.ndarray):
        out[path] = ("array", str(obj.dtype), obj.shape, hashlib.sha1(np.ascontiguousarray(obj).tobytes()).hexdigest())
        return out
    if obj is None or isinstance(obj, (bool, int, float, complex, str, np.generic)):
        out[path] = (type(obj).__name__, repr(obj))
        return out
    if id(obj) in seen:
        out[path] = ("same as", seen[id(obj)])
        return out
    seen[id(obj)] = path
    if isinstance(obj, (list, tuple)):
        out[path] = (type(obj).__name__, len(obj))
        for i, v in enumerate(obj):
            fingerprint(v, seen, f"{path}[{i}]", out)
    elif isinstance(obj, dict):
        out[path] = ("dict", tuple(map(str, obj)))
        for k, v in obj.items():
            fingerprint(v, seen, f"{path}[{k}]", out)
    elif type(obj).__module__.startswith(("elli", "mon.")) and hasattr(obj, "__dict__"):
        out[path] = ("object", type(obj).__name__)
        for k, v in sorted(vars(obj).items()):
            if not k.startswith("_"):
                fingerprint(v, seen, f"{path}.{k}", out)
    else:
        out[path] = ("opaque", type(obj).__name__)
    return out


def same_graph(case, before, after, what):
    case.event("graphs compared")
    for k, v in before.items():
        if k not in after:
            case.fail(f"{what}: {k} disappeared")
        elif v[0] == "dict" and after[k][0] == "dict":
            case.check(set(v[1]) <= set(after[k][1]), f"{what}: keys of {k} changed from {v[1]} to {after[k][1]}")
        else:
            case.check(v == after[k], f"{what}: {k} changed from {v} to {after[k]}")


def world():
    """Interpreter-wide state an evaluation has no business with."""
    st = np.random.get_state()
    out = {"geterr": dict(np.geterr()), "errcall": repr(np.geterrcall()),
           "random": hashlib.sha1(st[1].tobytes()).hexdigest() + str(st[2:]),
           "filters": len(warnings.filters), "print": str(np.get_printoptions())}
    t = sys.modules.get("torch")
    if t is not None:
        out["torch"] = str(t.get_default_dtype())
    for cls in (elli.Structure, elli.Experiment, elli.Layer):
        out[cls.__name__] = {k: repr(v) for k, v in vars(cls).items()
                             if not callable(v) and not k.startswith("_")}
    d = elli.dispersions
    for name in sorted(vars(d)):
        cls = getattr(d, name)
        if isinstance(cls, type) and hasattr(cls, "single_params_template"):
            for a in ("single_params_template", "rep_params_template"):
                out[name + a] = repr(getattr(cls, a))
    lam = elli.Cauchy.default_lbda_range
    out["default range"] = (lam.shape, float(lam[0]), float(lam[-1]), float(lam.sum()))
    return out


def same_world(case, before, what):
    after = world()
    for k, v in before.items():
        case.check(v == after[k], f"{what}: {k} changed from {v} to {after[k]}")


def solver_of(rng, names=None):
    names = names or ["default", "scipy", "torch", "eig", "linear", "2x2"]
    n = names[rng.integers(len(names))]
    if n == "default":
        return n, {}
    if n == "2x2":
        return n, {"solver": elli.Solver2x2}
    if n == "linear":
        return n, {"solver": elli.Solver4x4, "propagator": elli.PropagatorLinear()}
    return n, {"solver": elli.Solver4x4, "propagator": PROPAGATORS[n]()}


READ = ["jones_matrix_r", "jones_matrix_t", "psi", "delta", "rho", "R", "T", "mueller_matrix", "psi_matrix",
        "delta_matrix", "R_matrix", "Tc_matrix", "rho_matrix_t", "jones_matrix_rc"]


def values(r, names=READ):
    return {n: np.array(getattr(r, n)) for n in names}


def identical(case, a, b, what):
    for k in a:
        case.check(a[k].shape == b[k].shape and a[k].dtype == b[k].dtype
                   and np.array_equal(a[k], b[k], equal_nan=True), f"{what}: {k} differs",
                   first=a[k], second=b[k])


# ------------------------------------------------------------------ suites

def s_pure(case):
    rng = case.rng
    st = wide_structure(rng)
    lobj, lb = gen.wavelengths(rng, lo=300)
    theta = gen.angle(rng, 85)
    vec = [None, [1, 0], [1, 1j], [1, 0.2, 0.5, -0.3]][rng.integers(4)]
    if vec is not None and rng.random() < 0.5:
        vec = np.array(vec)
    name, kw = solver_of(rng)
    case.describe(structure=[type(L).__name__ for L in st.layers], lbda=lobj, theta=theta, vector=vec, solver=name)
    exp = elli.Experiment(st, lobj, theta, vec)
    inputs = {"structure": st, "lbda": lobj, "vector": vec, "kw": kw, "exp": exp}
    before = fingerprint(inputs)
    w = world()
    setting = {"invalid": ["warn", "ignore"][rng.integers(2)], "divide": ["warn", "ignore"][rng.integers(2)],
               "over": "ignore", "under": ["ignore", "warn"][rng.integers(2)]}
    np.seterr(**setting)
    w["geterr"] = dict(np.geterr())
    with np.errstate(**setting):
        first = exp.evaluate(**kw) if "solver" in kw else exp.evaluate()
    v1 = values(first)
    same_graph(case, before, fingerprint(inputs), "evaluation")
    same_world(case, w, "evaluation")
    for _ in range(3):
        u = rng.integers(3)
        if u == 0:
            r = exp.evaluate(**kw)
        elif u == 1:
            r = elli.Experiment(st, lobj, theta, vec).evaluate(**kw)
        else:
            cls = kw.get("solver", elli.Solver4x4)
            s = cls(exp, **{k: v for k, v in kw.items() if k != "solver"})
            identical(case, v1, values(s.calculate()), f"{name} first of a solver object")
            r = s.calculate()
        case.event("repeated evaluations")
        identical(case, v1, values(r), f"{name} repeated")
    identical(case, v1, values(first), f"{name}: earlier result after later evaluations")
    case.event("results re-read")
    # reading everything, in another order, changes nothing either
    order = list(READ)
    rng.shuffle(order)
    identical(case, {k: v1[k] for k in order}, values(first, order), "reading order")
    # writing into what was returned does not reach the inputs or later evaluations
    for n in ("jones_matrix_r", "psi"):
        arr = getattr(exp.evaluate(**kw), n)
        if arr.flags.writeable:
            arr[...] = -1
    for t in [st.get_permittivity_profile(lb)[-1][1]]:
        if t.flags.writeable:
            t[...] = 7
    same_graph(case, before, fingerprint(inputs), "writing into returned arrays")
    identical(case, v1, values(exp.evaluate(**kw)), f"{name} after writing into returned arrays")
    case.event("repeated evaluations")
    same_world(case, w, "evaluations")


def s_order(case):
    """The same set of evaluations in different orders, interleaved with each other."""
    rng = case.rng
    seed = int(rng.integers(1 << 30))
    k = int(rng.integers(2, 5))

    def build():
        r2 = hints.Rng(seed)
        sts = [wide_structure(r2) for _ in range(k)]
        jobs = []
        for _ in range(6):
            n = int(r2.integers(1, 5))
            jobs.append((sts[r2.integers(k)], r2.uniform(300, 1900, n), float(r2.uniform(0, 80)), solver_of(r2)))
        return jobs
    a, b = build(), build()
    case.describe(seed=seed, solvers=[j[3][0] for j in a])
    ra = {}
    for i, (st, lb, th, (_, kw)) in enumerate(a):
        ra[i] = values(st.evaluate(lb, th, **kw))
    order = list(range(len(b))) * 2
    rng.shuffle(order)
    for i in order:
        st, lb, th, (name, kw) = b[i]
        case.event("repeated evaluations")
        identical(case, ra[i], values(st.evaluate(lb, th, **kw)), f"{name} in another order")


def _all_mats(mats):
    out = []
    for m in mats:
        if m not in out:
            out.append(m)
        if isinstance(m, gen.Mix):
            for x in (m.host, m.guest):
                if x not in out:
                    out.append(x)
    return out


def change_dispersions(rng, m):
    """Another dispersion on one or all axes of a material, through set_dispersion."""
    now = {"iso": ["x"], "uni": ["x", "z"], "bi": ["x", "y", "z"]}[m.kind]
    now = [getattr(m.obj(), "dispersion_" + a) for a in now]
    how = int(rng.integers(4))
    if how == 0 or m.kind == "iso":
        m.disps = [gen.disp(rng, hi=2.5, kmax=0.3) for _ in m.disps]
        now = [d.build() for d in m.disps]
        name = "set_dispersion"
    elif how == 1:      # one axis, the objects of the others stay
        i = int(rng.integers(len(now)))
        m.disps = list(m.disps)
        m.disps[i] = gen.disp(rng, hi=2.5, kmax=0.3)
        now[i] = m.disps[i].build()
        name = f"set_dispersion of axis {i}"
    elif how == 2:      # the same objects on other axes
        p = rng.permutation(len(now))
        m.disps, now = [m.disps[i] for i in p], [now[i] for i in p]
        name = "set_dispersion permuted"
    else:               # one object on two axes
        i, j = rng.permutation(len(now))[:2]
        m.disps = list(m.disps)
        m.disps[i], now[i] = m.disps[j], now[j]
        name = "set_dispersion repeated"
    m.obj().set_dispersion(*now)
    return name


class Live:
    """A structure and its mutable description, changed in step through the setters."""

    def __init__(self, rng):
        self.rng = rng
        self.mats = []
        for _ in range(3):
            self.mats.append(gen.mat_iso(rng, hi=3, kmax=0.3))
        for _ in range(2):
            self.mats.append(gen.mat_aniso(rng, hi=2.2, kmax=0.3))
        self.mats.append(gen.Mix(gen.MIXES[rng.integers(4)], self.mats[0], self.mats[1], 0.4))
        for m in self.mats:
            m.shared = True
        self.front = gen.mat_iso(rng, lossless=True, hi=1.6)
        self.front.shared = True
        self.back = self.mats[rng.integers(4)]
        self.kids = [gen.Lay(self.pick(), self.th()) for _ in range(2)]
        self.lay = [gen.Lay(self.pick(), self.th()), gen.Twist(self.mats[3], self.th(), 4, 70),
                    gen.Vary(self.mats[5], self.th(), 3, "linear"),
                    gen.Rep(self.kids, 2, 1, 0), gen.Lay(self.pick(), self.th())]
        self.pairs = []
        for L in self.lay:
            self.pairs.append((L, self._make(L)))
        self.st = elli.Structure(self.front.obj(), [o for _, o in self.pairs], self.back.obj())
        self.order = list(range(len(self.lay)))
        self.lobj, self.lb = gen.wavelengths(rng, lo=350)
        self.theta = gen.angle(rng, 75)
        self.vec = None
        self.exp = elli.Experiment(self.st, self.lobj, self.theta, self.vec)
        self.solver = None

    def pick(self):
        return self.mats[self.rng.integers(len(self.mats))]

    def th(self):
        return float(self.rng.uniform(1, 60))

    def _make(self, L):
        if isinstance(L, gen.Rep):
            self.kid_objs = [k.build() for k in L.kids]
            return elli.RepeatedLayers(list(self.kid_objs), L.n, L.before, L.after)
        return L.build()

    def fresh(self):
        """Built from nothing, by the description."""
        mats = _all_mats([*self.mats, self.front, self.back])
        keep = [m._obj for m in mats]
        for m in mats:
            m._obj = None
        try:
            return elli.Structure(self.front.obj(), [self.lay[i].build() for i in self.order], self.back.obj())
        finally:
            for m, o in zip(mats, keep):
                m._obj = o

    def change(self):
        rng = self.rng
        u = int(rng.integers(19))
        L, o = self.pairs[rng.integers(len(self.pairs))]
        lays = [p for p in self.pairs if isinstance(p[0], gen.Lay)] + list(zip(self.kids, self.kid_objs))
        tw = next(p for p in self.pairs if isinstance(p[0], gen.Twist))
        va = next(p for p in self.pairs if isinstance(p[0], gen.Vary))
        rp = next(p for p in self.pairs if isinstance(p[0], gen.Rep))
        small = rng.random() < 0.3      # a change that rounding or a coarse comparison would miss
        if u <= 1:
            L, o = [*lays, tw, va][rng.integers(len(lays) + 2)]
            L.d = L.d + float(10 ** rng.uniform(-5, -1)) if small else self.th()
            o.set_thickness(L.d)
            return "set_thickness"
        if u == 2:
            L, o = lays[rng.integers(len(lays))]
            L.mat = self.pick()
            o.set_material(L.mat.obj())
            return "set_material"
        if u == 3:
            tw[0].mat = self.mats[3 + rng.integers(2)]
            tw[1].set_material(tw[0].mat.obj())
            return "TwistedLayer.set_material"
        if u == 4:
            tw[0].angle = tw[0].angle + float(10 ** rng.uniform(-4, -1)) if small else float(rng.uniform(-180, 180))
            tw[1].set_angle(tw[0].angle)
            return "set_angle"
        if u == 5:
            L, o = [tw, va][rng.integers(2)]
            L.div = rng.size_of(range(1, 7), 100, tail=0.02)
            o.set_divisions(L.div)
            return "set_divisions"
        if u == 6:
            va[0].profile = list(gen.PROFILES)[rng.integers(len(gen.PROFILES))]
            va[1].set_fraction_modulation(gen.PROFILES[va[0].profile])
            return "set_fraction_modulation"
        if u == 7:
            R = rp[0]
            R.n, R.before, R.after = rng.size_of([1, 2, 3], 40, tail=0.02), int(rng.integers(0, 3)), int(rng.integers(0, 3))
            rp[1].set_repetitions(R.n, R.before, R.after)
            return "set_repetitions"
        if u == 8:
            self.kids.reverse()
            self.kid_objs.reverse()
            rp[1].set_layers(list(self.kid_objs))
            return "RepeatedLayers.set_layers"
        if u == 9:
            rng.shuffle(self.order)
            if rng.random() < 0.3:
                self.order = self.order[:max(1, len(self.order) - 1)]
            self.st.set_layers([self.pairs[i][1] for i in self.order])
            return "Structure.set_layers"
        if u == 10:
            self.back = self.mats[rng.integers(4)]
            self.st.set_back_material(self.back.obj())
            return "set_back_material"
        if u == 11:
            self.front = gen.mat_iso(rng, lossless=True, hi=1.6)
            self.front.shared = True
            self.st.set_front_material(self.front.obj())
            return "set_front_material"
        if u == 12:
            m = self.mats[rng.integers(5)]
            return change_dispersions(rng, m)
        if u == 13:
            m = self.mats[3 + rng.integers(2)]
            if small and m.rot is not None and m.rot[0] == "rotation_euler":
                a = tuple(x + float(10 ** rng.uniform(-4, -1)) for x in m.rot[1])
                m.rot = ("rotation_euler", a, gen.rot_euler(*a))
            else:
                m.rot = gen.rotation(rng)
            m.obj().set_rotation(getattr(elli, m.rot[0])(*m.rot[1]))
            return "set_rotation"
        if u == 14:
            m = self.mats[5]
            m.f = min(1.0, m.f + float(10 ** rng.uniform(-6, -2))) if small else float(rng.random())
            m.obj().set_fraction(m.f)
            return "set_fraction"
        if u == 15:
            m = self.mats[5]
            a, b = rng.permutation(3)[:2]
            m.host, m.guest = self.mats[a], self.mats[b]
            m.obj().set_constituents(m.host.obj(), m.guest.obj())
            return "set_constituents"
        if u == 16:
            self.theta = self.theta + float(10 ** rng.uniform(-4, -1)) if small else gen.angle(rng, 75)
            self.exp.set_theta(self.theta)
            return "set_theta"
        if u == 17:
            how = int(rng.integers(4))
            name = "set_lbda"
            if how == 0 or self.lb.size < 2:
                self.lobj, self.lb = gen.wavelengths(rng, lo=350)
            elif how == 1:      # same length, same ends
                lb = np.sort(self.lb)
                lb[1:-1] = rng.uniform(lb[0], lb[-1], lb.size - 2)
                self.lobj = self.lb = lb
                name = "set_lbda with the same ends"
            elif how == 2:
                self.lobj = self.lb = rng.permutation(self.lb)
                name = "set_lbda permuted"
            else:               # the caller's array reused for another grid
                lb = np.asarray(self.lobj, float)
                lb = lb.copy() if lb is self.lobj and rng.random() < 0.5 else lb
                lb[rng.integers(lb.size)] += float(10 ** rng.uniform(-3, 1))
                self.lobj = self.lb = lb
                name = "set_lbda with one other wavelength"
            self.exp.set_lbda(self.lobj)
            return name
        cand = [(m, i) for m in self.mats[:5] for i, d in enumerate(m.disps) if d.kind in ("Sellmeier", "LorentzEnergy")]
        if not cand:
            self.vec = np.asarray([[1, 0.3j], [1, 0.5, 0.2, 0.1], [0.2, 1]][rng.integers(3)], dtype=object)
            self.vec = np.array(list(self.vec))
            self.exp.set_vector(self.vec)
            return "set_vector"
        m, i = cand[rng.integers(len(cand))]
        ob = m.obj()
        real = {"iso": [ob.dispersion_x], "uni": [ob.dispersion_x, ob.dispersion_z],
                "bi": [ob.dispersion_x, ob.dispersion_y, ob.dispersion_z]}[m.kind][i]
        rep = {"A": 0.7, "B": 0.015} if m.disps[i].kind == "Sellmeier" else {"A": 3.0, "E": 6.5, "gamma": 0.4}
        m.disps[i].rep.append(rep)
        real.add(**rep)
        return "dispersion.add"


def s_setters(case):
    rng = case.rng
    live = Live(rng)
    steps = []
    n = int(rng.integers(3, 12))
    kept = []
    for k in range(n):
        name, kw = solver_of(rng, ["default", "scipy", "eig", "2x2"])
        how = rng.integers(3)
        if how == 0:
            r = live.exp.evaluate(**kw)
            twin = elli.Experiment(live.fresh(), live.lobj, live.theta, live.vec).evaluate(**kw)
        elif how == 1:
            r = live.st.evaluate(live.lobj, live.theta, **kw)
            twin = live.fresh().evaluate(live.lobj, live.theta, **kw)
        else:
            e2 = elli.Experiment(live.fresh(), 700, 3)
            e2.set_structure(live.st)
            e2.set_lbda(live.lobj)
            e2.set_theta(live.theta)
            r = e2.evaluate(**kw)
            twin = live.fresh().evaluate(live.lobj, live.theta, **kw)
        a, b = values(r, READ[:2] + ["psi", "R", "T", "mueller_matrix"]), values(twin, READ[:2] + ["psi", "R", "T", "mueller_matrix"])
        for q in a:
            case.shape(a[q], b[q].shape, f"{name} {q} after {steps[-1:]}")
            # the same computation on equal numbers: nothing but a stale value makes a difference
            bad = ~np.isclose(a[q], b[q], rtol=1e-9, atol=1e-12 * (1 + np.nanmax(np.abs(b[q]))), equal_nan=True)
            case.check(not bad.any(), f"{name} {q} does not reflect {steps[-1:]}", steps=steps, got=a[q], fresh=b[q])
        kept.append((r, values(r), len(steps)))
        if k < n - 1:
            for _ in range(int(rng.integers(1, 3))):
                steps.append(live.change())
                case.event("setter calls")
                case.event("setter " + steps[-1])
    case.describe(steps=steps, lbda=live.lobj)
    for r, v, at in kept:
        case.event("results re-read")
        identical(case, v, values(r), f"result returned before {steps[at:at + 2]}")


def s_results(case):
    """Arrays handed in are changed in place afterwards."""
    rng = case.rng
    st = wide_structure(rng)
    lb = rng.uniform(300, 1900, rng.size_of(range(1, 5), 200, tail=0.03))
    vec = np.array([1, 0.4 + 0.2j])
    name, kw = solver_of(rng, ["default", "scipy", "eig"])
    case.describe(lbda=lb.copy(), solver=name, layers=[type(L).__name__ for L in st.layers])
    exp = elli.Experiment(st, lb, 50, vec)
    r1 = exp.evaluate(**kw)
    r2 = st.evaluate(lb, 50, **kw)
    v1, v2 = values(r1), values(r2)
    s = elli.Solver4x4(exp)
    before = values(s.calculate())
    lb0 = lb.copy()
    lb += 37.0
    vec[1] = -0.9j
    for L in st.layers:
        if isinstance(L, elli.Layer):
            L.set_thickness(L.thickness + 11)
    st.set_layers(list(st.layers[:-1]))
    exp.set_theta(12)
    exp.set_structure(elli.Structure(elli.AIR, [], elli.AIR))
    identical(case, v1, values(r1), "result after its inputs were changed in place")
    identical(case, v2, values(r2), "result after its inputs were changed in place")
    case.check(np.array_equal(r1.experiment.lbda, lb0), "wavelengths kept with a result changed")
    case.event("results re-read", 2)
    identical(case, before, values(s.calculate()), "a solver does not keep the experiment it was made for")
    # the same array object with new content is new input
    r3 = st.evaluate(lb, 50, **kw)
    r4 = st.evaluate(lb.copy(), 50, **kw)
    case.event("repeated evaluations")
    identical(case, values(r3), values(r4), "wavelength array reused with new content")
    # a result read with another vector changes only the reduced quantities
    r1.experiment.set_vector([0.3, 1])
    identical(case, {k: v1[k] for k in ("jones_matrix_r", "mueller_matrix", "R_matrix", "psi_matrix")},
              values(r1, ["jones_matrix_r", "mueller_matrix", "R_matrix", "psi_matrix"]), "matrices depend on the vector")
    want = r1.rho_matrix @ np.array([0.3, 1])
    case.close(r1.rho, want[:, 0] / want[:, 1], "rho with another incident vector", rtol=1e-12, atol=1e-14)
    identical(case, v2, values(r2), "result after another one was given a vector")


class Yielding(elli.dispersions.base_dispersion.Dispersion):
    """User-defined dispersion that gives the other threads a chance while it is evaluated."""
    single_params_template = {"eps": 2.0, "pause": 0.0}
    rep_params_template = {}

    def dielectric_function(self, lbda):
        log = LOG.get("events")
        if log is not None:
            log.append(threading.get_ident())
        time.sleep(self.single_params["pause"])
        return self.single_params["eps"] + 1e4 / np.asarray(lbda) ** 2


LOG = {}
INTERLEAVINGS = set()


def s_threads(case):
    rng = case.rng
    seed = int(rng.integers(1 << 30))

    def build():
        r2 = hints.Rng(seed)
        st = [wide_structure(r2) for _ in range(2)]
        for s in st:
            pause = float([0, 1e-5, 2e-4][r2.integers(3)])
            m = elli.IsotropicMaterial(Yielding(eps=float(2 + r2.random()), pause=pause))
            mix = getattr(elli, gen.MIXES[r2.integers(4)])(m, elli.ConstantRefractiveIndex(1.3 + 0.1j).get_mat(), 0.3)
            s.set_layers([elli.Layer(m, 20), *s.layers, elli.VaryingMixtureLayer(mix, 10, 3)])
        jobs = []
        for _ in range(8):
            jobs.append((st[r2.integers(2)], r2.uniform(300, 1900, int(r2.integers(1, 4))),
                         float(r2.uniform(0, 80)), solver_of(r2, ["default", "scipy", "eig", "linear", "2x2"])))
        return jobs
    seq, par = build(), build()
    case.describe(seed=seed, solvers=[j[3][0] for j in seq])
    want = [values(st.evaluate(lb, th, **kw)) for st, lb, th, (_, kw) in seq]
    nthreads = int(rng.integers(2, 7))
    plan = [list(rng.permutation(len(par))) for _ in range(nthreads)]
    got, errors = [], []
    barrier = threading.Barrier(nthreads)

    def work(tid):
        try:
            barrier.wait(20)
            before = dict(np.geterr())
            for i in plan[tid]:
                st, lb, th, (_, kw) = par[i]
                r = values(st.evaluate(lb, th, **kw))
                got.append((i, r, dict(np.geterr()) == before))
        except Exception as e:  # pylint: disable=broad-except
            errors.append(e)
    w = world()
    old = sys.getswitchinterval()
    LOG["events"] = []
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(nthreads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
        log = LOG.pop("events")
    if errors:
        raise errors[0]
    names = {}
    sig = tuple(names.setdefault(t, len(names)) for t in log)
    switches = sum(a != b for a, b in zip(sig, sig[1:]))
    case.event("thread switches inside evaluations", switches)
    key = hashlib.sha1(repr(sig).encode()).hexdigest()
    if switches >= nthreads and key not in INTERLEAVINGS:
        INTERLEAVINGS.add(key)
        case.event("distinct interleavings")
    case.check(len(got) == nthreads * len(par), "evaluations lost")
    for i, r, err_ok in got:
        case.event("threaded evaluations")
        case.check(err_ok, "numpy error state changed in a thread")
        identical(case, want[i], r, f"{par[i][3][0]} from {nthreads} threads")
    same_world(case, w, "threaded evaluation")


def s_recycle(case):
    """Objects made, used and dropped: values belong to the object, not to its address."""
    rng = case.rng
    lb = rng.uniform(400, 1500, 2)
    case.describe(lbda=lb)
    # one structure, evaluated at a stream of indices, each in its own short-lived objects
    for i in range(40):
        n = float(rng.uniform(1.1, 3))
        u = i % 4
        if u == 0:
            m = elli.ConstantRefractiveIndex(n).get_mat()
        elif u == 1:
            m = elli.IsotropicMaterial(elli.EpsilonInf(n * n))
        elif u == 2:
            m = elli.IsotropicMaterial(elli.Table(lbda=np.array([100.0, 3000]), n=np.array([n, n])))
        else:
            m = elli.VCAMaterial(elli.EpsilonInf(n * n - 0.1).get_mat(), elli.EpsilonInf(n * n + 0.1).get_mat(), 0.5)
        st = elli.Structure(elli.AIR, [], m)
        R = st.evaluate(lb, 0).R
        case.event("recycled objects")
        case.close(R, np.full(2, ((n - 1) / (n + 1)) ** 2), f"reflectance of the {i}-th short-lived object",
                   rtol=1e-10, atol=1e-14)
        x = float(rng.uniform(300, 1500))
        case.close(m.get_tensor(x)[0, 1, 1], n * n, "tensor of a short-lived material", rtol=1e-11)
        del st, m
        if i % 10 == 0:
            gc.collect()


def same_ends(rng, lb):
    """Another grid that agrees with the first in length, ends, extremes or sum."""
    u = int(rng.integers(5))
    lb = np.array(lb, float)
    if u == 0 and lb.size > 2:
        lb[1:-1] = rng.uniform(lb.min(), lb.max(), lb.size - 2)
    elif u == 1:
        lb = rng.permutation(lb)
    elif u == 2 and lb.size > 3:
        lb[1] += 3.0
        lb[2] -= 3.0
    elif u == 3:
        lb[rng.integers(lb.size)] += float(10 ** rng.uniform(-4, 1))
    else:
        lb = rng.uniform(400, 1500, lb.size)
    return lb


def s_parts(case):
    """Materials and layers by themselves: every setter shows in the next tensor."""
    rng = case.rng
    mats = [gen.mat_iso(rng, hi=3, kmax=0.3), gen.mat_iso(rng, hi=3, kmax=0.3)]
    for kind in ("uni", "bi"):
        ds = [gen.disp(rng, hi=2.5, kmax=0.3) for _ in range(2 if kind == "uni" else 3)]
        mats.append(gen.Mat(kind, ds, gen.rotation(rng) if rng.random() < 0.5 else None))
    mats.append(gen.Mix(gen.MIXES[rng.integers(4)], mats[0], mats[1], float(rng.random())))
    mats.append(gen.Mix("VCAMaterial", mats[2], mats[3], float(rng.random())))
    for m in mats:
        m.shared = True
        m.obj()
    lb = np.sort(rng.uniform(400, 1500, rng.size_of(range(1, 7), 200, tail=0.02)))
    twist = gen.Twist(mats[2], 20.0, 4, 70)
    vary = gen.Vary(mats[4], 20.0, 4, "linear")
    lays = [(L, L.build()) for L in (gen.Lay(mats[2], 10.0), twist, vary)]
    steps = []

    def fresh(things):
        keep = [m._obj for m in mats]
        for m in mats:
            m._obj = None
        try:
            return [t.build() if not isinstance(t, (gen.Mat, gen.Mix)) else t.obj() for t in things]
        finally:
            for m, o in zip(mats, keep):
                m._obj = o

    def profile(o):
        with np.errstate(all="ignore"):
            return list(o.get_permittivity_profile(lb if scalar is None else scalar))

    for _ in range(int(rng.integers(20, 40))):
        u = int(rng.integers(10))
        m = mats[rng.integers(len(mats))]
        mix = isinstance(m, gen.Mix)
        if u < 4:
            if not mix:
                steps.append(change_dispersions(rng, m))
            elif u == 0:
                m.f = min(1.0, m.f + 1e-4) if rng.random() < 0.3 else float(rng.random())
                m.obj().set_fraction(m.f)
                steps.append("set_fraction")
            elif u == 1:
                m.host, m.guest = m.guest, m.host
                m.obj().set_constituents(m.host.obj(), m.guest.obj())
                steps.append("set_constituents swapped")
            else:
                pool = mats[:2] if m.mkind != "VCAMaterial" else mats[:4]
                if rng.random() < 0.5:
                    m.host = pool[rng.integers(len(pool))]
                else:
                    m.guest = pool[rng.integers(len(pool))]
                m.obj().set_constituents(m.host.obj(), m.guest.obj())
                steps.append("set_constituents")
        elif u == 4:
            m = mats[2 + rng.integers(2)]
            m.rot = gen.rotation(rng)
            m.obj().set_rotation(getattr(elli, m.rot[0])(*m.rot[1]))
            steps.append("set_rotation")
        elif u == 5:
            twist.angle = twist.angle + 0.01 if rng.random() < 0.3 else float(rng.uniform(-180, 180))
            lays[1][1].set_angle(twist.angle)
            steps.append("set_angle")
        elif u == 6:
            L, o = lays[1 + rng.integers(2)]
            L.div = int(rng.integers(1, 7))
            o.set_divisions(L.div)
            steps.append("set_divisions")
        elif u == 7:
            vary.profile = list(gen.PROFILES)[rng.integers(len(gen.PROFILES))]
            lays[2][1].set_fraction_modulation(gen.PROFILES[vary.profile])
            steps.append("set_fraction_modulation")
        elif u == 8:
            L, o = lays[rng.integers(3)]
            L.d = L.d + 1e-3 if rng.random() < 0.3 else float(rng.uniform(1, 60))
            o.set_thickness(L.d)
            steps.append("set_thickness")
        else:
            lb = same_ends(rng, lb)
            steps.append("other wavelengths")
        scalar = float(rng.choice(lb)) if rng.random() < 0.15 else None
        x = lb if scalar is None else scalar
        case.event("setter calls")
        for m, f in zip(mats, fresh(mats)):
            for q in ("get_tensor", "get_refractive_index"):
                if q == "get_refractive_index" and not (m.kind == "mix" or rng.random() < 0.3):
                    continue
                with np.errstate(all="ignore"):
                    a, b = np.asarray(getattr(m.obj(), q)(x)), np.asarray(getattr(f, q)(x))
                case.shape(a, b.shape, f"{q} after {steps[-3:]}")
                case.check(np.allclose(a, b, rtol=1e-10, atol=1e-12, equal_nan=True),
                           f"{q} of a {m.kind} material does not reflect {steps[-3:]}", got=a, fresh=b)
        for (L, o), f in zip(lays, fresh([L for L, _ in lays])):
            a, b = profile(o), profile(f)
            case.check(len(a) == len(b) and all(abs(p[0] - q[0]) <= 1e-9 * (1 + abs(q[0])) and np.allclose(
                p[1], q[1], rtol=1e-10, atol=1e-12, equal_nan=True) for p, q in zip(a, b)),
                f"profile of a {type(o).__name__} does not reflect {steps[-3:]}", got=a, fresh=b)
    case.describe(steps=steps, lbda=lb)


SUITES = [
    Suite("pure", s_pure, 300, 4000),
    Suite("order", s_order, 80, 800),
    Suite("setters", s_setters, 300, 4000),
    Suite("results", s_results, 160, 2000),
    Suite("threads", s_threads, 80, 800),
    Suite("recycle", s_recycle, 80, 800),
    Suite("parts", s_parts, 150, 3000),
]
