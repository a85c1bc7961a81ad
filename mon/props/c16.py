"""C16: adding dispersions is pure, associative and commutative."""
import copy

import numpy as np

import elli
from elli.dispersions.base_dispersion import Dispersion, DispersionSum, IndexDispersion, IndexDispersionSum
from ..core import Suite
from ..wide import MODELS, wide_disp

PROPERTY = "C16"
RULE = (
    "histories of additions over a growing pool of models, sums and numbers (operators on both sides, in-place, "
    "chained, builtin sum, nested sum classes, copies, rejected mixtures), replayed against a ledger of leaves; "
    "after every step every object of the pool is evaluated and compared with the sum of its leaves; fixed term "
    "sets added in random groupings and orders"
)
ASSUMPTIONS = ["numbers are Python ints and floats"]
REACH = {"additions": 3000, "objects watched": 20000, "mixtures rejected": 300, "regroupings": 800}

EPS = ["EpsilonInf", "Sellmeier", "SellmeierCustomExponent", "Polynomial", "Poles", "LorentzEnergy", "LorentzLambda", "Gaussian",
       "DrudeEnergy", "DrudeResistivity", "TaucLorentz", "CodyLorentz", "Tanguy", "TableEpsilon", "Formula", "sum"]
IDX = ["ConstantRefractiveIndex", "Cauchy", "CauchyCustomExponent", "CauchyUrbach", "Table", "FormulaIndex", "index sum", "table sum",
       "as_index"]
LB = np.array([301.0, 456.7, 640.0, 1210.5])


def single(rng, name):
    """A model that is not itself a sum."""
    d = wide_disp(rng, name)
    while isinstance(d, (DispersionSum, IndexDispersionSum)):
        d = d.dispersions[0] if isinstance(d, DispersionSum) else d.index_dispersions[0]
    return d


def view(d, kind):
    return np.broadcast_to(np.asarray(d.get_dielectric(LB) if kind == "eps" else d.get_refractive_index(LB), complex), LB.shape).copy()


def terms(d):
    if isinstance(d, DispersionSum):
        return d.dispersions
    if isinstance(d, IndexDispersionSum):
        return d.index_dispersions
    return None


def is_table(d):
    return isinstance(d, (elli.Table, elli.TableEpsilon))


class Ledger:
    """What every object must evaluate to: the leaves it was built from."""

    def __init__(self, case):
        self.case = case
        self.entries = []      # (object, kind, leaves value, number of leaves, snapshot)

    def put(self, obj, kind, value, n):
        self.entries.append((obj, kind, value, n, self.snap(obj)))
        return len(self.entries) - 1

    @staticmethod
    def snap(o):
        return (repr(o), [dict(p) for p in o.rep_params], sorted(map(str, o.single_params)), None if terms(o) is None else len(terms(o)))

    def watch(self, what):
        for i, (o, kind, value, n, snap) in enumerate(self.entries):
            self.case.event("objects watched")
            scale = float(np.max(np.abs(value))) + 1
            self.case.check(np.allclose(view(o, kind), value, rtol=1e-11, atol=1e-12 * scale * (n + 1)),
                            f"object {i} does not have the sum of its terms after {what}", got=view(o, kind), want=value)
            if kind == "idx":
                self.case.check(np.allclose(o.get_dielectric(LB), value**2, rtol=1e-10, atol=1e-11 * scale**2),
                                f"object {i}: permittivity of an index sum after {what}")
            else:
                nk = np.asarray(o.get_refractive_index(LB), complex)
                self.case.check(np.allclose(nk**2, value, rtol=1e-10, atol=1e-11 * scale), f"object {i}: index of a sum after {what}")
            self.case.check(self.snap(o) == snap, f"object {i} was changed by {what}", before=snap, after=self.snap(o))
            t = terms(o)
            if t is not None:
                self.case.check(len(t) == n, f"object {i} has {len(t)} terms for {n} leaves after {what}")
                self.case.check(not any(terms(x) is not None for x in t), f"object {i} is not flat after {what}")
                self.case.check(all(repr(x) in repr(o) for x in t), f"object {i} does not show all its terms")


def number(rng):
    return [int(rng.integers(-2, 5)), float(rng.uniform(-2, 5)), 0, 1.5][rng.integers(4)]


def s_history(case):
    rng = case.rng
    led = Ledger(case)
    kinds = ["eps", "idx"] if case.index % 2 else [["eps"], ["idx"]][(case.index // 2) % 2]
    log = []
    for kind in kinds:
        for _ in range(int(rng.integers(2, 5))):
            name = (EPS if kind == "eps" else IDX)[rng.integers(len(EPS if kind == "eps" else IDX))]
            d = single(rng, name)
            led.put(d, kind, view(d, kind), 1)
            log.append(name)
    case.describe(leaves=log)
    steps = []
    case.describe(steps=steps)
    for _ in range(rng.size_of(range(4, 14), 60, 4)):
        E = led.entries
        i = int(rng.integers(len(E)))
        a, kind, va, na, _ = E[i]
        same = [j for j in range(len(E)) if E[j][1] == kind]
        j = same[rng.integers(len(same))]
        b, _, vb, nb, _ = E[j]
        cls = DispersionSum if kind == "eps" else IndexDispersionSum
        op = int(rng.integers(10))
        what, res, val, n = None, None, None, None
        if op in (0, 1, 2):
            what = f"#{i} + #{j}"
            if is_table(a) and is_table(b):
                case.raises(NotImplementedError, lambda: a + b, "adding two tables")
            else:
                res, val, n = a + b, va + vb, na + nb
        elif op == 3:
            x = number(rng)
            what = f"#{i} + {x}"
            res, val, n = a + x, va + x, na + 1
        elif op == 4:
            x = number(rng)
            what = f"{x} + #{i}"
            res, val, n = x + a, va + x, na + 1
        elif op == 5:
            pick = [same[q] for q in rng.integers(0, len(same), int(rng.integers(1, 5)))]
            nums = [number(rng) for _ in range(int(rng.integers(0, 3)))]
            what = f"{cls.__name__}(#{pick}, {nums})"
            parts = [E[q][0] for q in pick] + nums
            parts = [parts[q] for q in rng.permutation(len(parts))]
            res, val, n = cls(*parts), sum(E[q][2] for q in pick) + sum(nums), sum(E[q][3] for q in pick) + len(nums)
        elif op == 6:
            pick = [same[q] for q in rng.integers(0, len(same), int(rng.integers(2, 5)))]
            what = f"sum(#{pick})"
            res, val, n = sum(E[q][0] for q in pick), sum(E[q][2] for q in pick), sum(E[q][3] for q in pick) + 1  # 0 + first
        elif op == 7:
            what = f"#{i} += #{j}"
            if not (is_table(a) and is_table(b)):
                x = a
                x += b
                case.check(x is not a, "in-place addition changed its left operand")
                res, val, n = x, va + vb, na + nb
        elif op == 8:
            what = f"copy of #{i}"
            res, val, n = (copy.deepcopy(a) if rng.random() < 0.7 or terms(a) is None else cls(*terms(a))), va, na
            if terms(res) is None:
                n = 1
        else:
            other = [q for q in range(len(E)) if E[q][1] != kind]
            what = f"rejected mixtures with #{i}"
            for q in other[:3]:
                o = E[q][0]
                case.event("mixtures rejected", 3)
                case.raises(TypeError, lambda o=o: a + o, f"adding {kind} and {E[q][1]} models")
                case.raises(TypeError, lambda o=o: o + a, f"adding {E[q][1]} and {kind} models")
                case.raises(TypeError, lambda o=o: cls(a, o), f"sum of {kind} and {E[q][1]} models")
            for bad in ("1", None, [1.0], {}, a.get_mat(), np.ones(2)):
                case.event("mixtures rejected")
                if isinstance(bad, np.ndarray):
                    case.raises(TypeError, lambda bad=bad: a.__add__(bad), f"adding {type(bad)}")
                else:
                    case.raises(TypeError, lambda bad=bad: a + bad, f"adding {type(bad)}")
                    case.raises(TypeError, lambda bad=bad: bad + a, f"adding to {type(bad)}")
                    case.raises(TypeError, lambda bad=bad: cls(a, bad), f"sum with {type(bad)}")
        steps.append(what)
        if res is not None:
            case.event("additions")
            if op != 8:
                case.check(isinstance(res, cls), f"{what} is a {type(res).__name__}")
            if len(E) < 14:
                led.put(res, kind, val, n)
            else:
                k = int(rng.integers(len(log), len(E)))
                E[k] = (res, kind, val, n, led.snap(res))
        led.watch(what)


def combine(rng, parts, how):
    """Add all parts in one grouping; parts are (object or number)."""
    parts = list(parts)
    if how == 0:
        r = parts[0]
        for p in parts[1:]:
            r = r + p
        return r
    if how == 1:
        r = parts[-1]
        for p in parts[-2::-1]:
            r = p + r
        return r
    if how == 2:
        r = parts[0]
        for p in parts[1:]:
            r += p
        return r
    while len(parts) > 1:      # random binary tree
        i = int(rng.integers(len(parts) - 1))
        parts[i:i + 2] = [parts[i] + parts[i + 1]]
    return parts[0]


def s_grouping(case):
    """The same terms in any grouping and order give the same function."""
    rng = case.rng
    kind = ["eps", "idx"][case.index % 2]
    names = EPS if kind == "eps" else IDX
    tables = 0
    parts, total, n = [], 0, 0
    for _ in range(rng.size_of(range(2, 8), 40, 2)):
        if rng.random() < 0.2 and parts:
            x = number(rng)
            parts.append(x)
            total = total + x
            continue
        d = single(rng, names[rng.integers(len(names))])
        if is_table(d):
            tables += 1
            if tables > 1:
                continue
        parts.append(d)
        total = total + view(d, kind)
    if len(parts) < 2:
        parts.append(1.0)
        total = total + 1.0
    case.describe(kind=kind, terms=[repr(p)[:60] for p in parts])
    before = [repr(p) for p in parts]
    cls = DispersionSum if kind == "eps" else IndexDispersionSum
    for how in range(4):
        case.event("regroupings")
        order = rng.permutation(len(parts))
        seq = [parts[q] for q in order]
        if isinstance(seq[0], (int, float)) and isinstance(seq[1], (int, float)):
            q = next(i for i, p in enumerate(seq) if not isinstance(p, (int, float)))
            seq[0], seq[q] = seq[q], seq[0]
        if how in (1, 3):      # keep two numbers from meeting first: Python adds them, which is as good
            seq.sort(key=lambda p: isinstance(p, (int, float)) and rng.random() < 0.5)
        r = combine(rng, seq, how)
        case.check(isinstance(r, cls), f"sum is a {type(r).__name__}")
        got = view(r, kind)
        scale = float(np.max(np.abs(total))) + 1
        case.close(got, total, f"grouping {how}", rtol=1e-11, atol=1e-12 * scale * len(parts))
        case.check(not any(terms(x) is not None for x in terms(r)), "sum is not flat")
        m = r.get_mat().get_tensor(LB)
        want = total if kind == "eps" else total**2
        case.close(m[:, 0, 0], want, "material of a sum", rtol=1e-10, atol=1e-11 * scale**2)
        case.close(np.asarray(r.get_dielectric_df(LB)["ϵ1"]), want.real, "data frame of a sum", rtol=1e-10, atol=1e-11 * scale**2)
    case.check([repr(p) for p in parts] == before, "terms changed")


def s_convert(case):
    """as_index makes an index model of a dielectric one, which then adds to index models only."""
    rng = case.rng
    names = [n for n in EPS if n not in ("sum",)]
    d = single(rng, names[case.index % len(names)])
    e = view(d, "eps")
    i = d.as_index()
    case.describe(model=repr(d)[:80])
    case.check(isinstance(i, IndexDispersion) and not isinstance(i, Dispersion), "as_index is an index model")
    case.close(view(i, "eps"), e, "as_index keeps the permittivity", rtol=1e-10, atol=1e-12)
    if not is_table(d):
        case.check(i.single_params == d.single_params and list(i.rep_params) == list(d.rep_params),
                   "as_index loses parameters", got=repr(i)[:200], want=repr(d)[:200])
    c = single(rng, IDX[rng.integers(len(IDX))])
    n = view(c, "idx")
    for r in ([i + c, c + i] if not (is_table(c) and is_table(i)) else []):
        case.event("additions")
        case.close(view(r, "idx"), np.sqrt(e) + n, "converted model plus index model", rtol=1e-10, atol=1e-12)
    case.close(view(i + 0.5, "idx"), np.sqrt(e) + 0.5, "converted model plus number", rtol=1e-10, atol=1e-12)
    case.raises(TypeError, lambda: d + c, "unconverted models")
    case.raises(TypeError, lambda: i + d, "converted plus unconverted")
    case.raises(TypeError, lambda: d + i, "unconverted plus converted")
    case.event("mixtures rejected", 3)
    case.close(view(d, "eps"), e, "as_index changed the model")
    s = d + 1.0
    case.close(view(s.as_index() + c, "idx") if terms(s) is not None else 0, np.sqrt(e + 1) + n, "converted sum", rtol=1e-10, atol=1e-12)


SUITES = [
    Suite("history", s_history, 1200, 20000),
    Suite("grouping", s_grouping, 800, 15000),
    Suite("convert", s_convert, 300, 3000),
]
