"""C17: formula dispersions evaluate the written formula."""
import cmath
import copy
import math

import numpy as np

import elli
from ..core import Skip, Suite
from ..ref import disp as rd

PROPERTY = "C17"
RULE = (
    "random expression trees over the whole grammar (operators, powers, functions, constants, sums over repeated "
    "parameters, 1-30 nodes), written with minimal or surplus parentheses and random spacing, evaluated one "
    "wavelength at a time by an own evaluator with running error bounds; every wavelength unit; mutated formulas "
    "and parameters must raise"
)
ASSUMPTIONS = ["expressions whose value is ill-conditioned, or which meet a branch cut within rounding, are not judged",
               "a signed number is one literal, so powers of a negative literal are not judged"]
REACH = {"formulas": 1500, "values": 5000, "sums": 400, "units": 300, "rejected": 800, "operator **": 300, "functions": 500}

CONST = {"1j": 1j, "pi": math.pi, "eps_0": 8.8541878188e-12, "hbar": 1.054571817e-34, "h": 6.62607015e-34, "c": 299792458.0}
NAMES = ["A", "B", "n0", "eps_r", "x_1", "k", "pi2", "cc", "h1", "lnx", "sum1", "sinus", "logA", "hb", "_q", "E", "j", "sqrt_2", "c0",
         "n", "eps", "heavi", "e", "tanx"]
FUNCS = ["sin", "cos", "tan", "sqrt", "dawsn", "ln", "log", "heaviside"]
EPSM = 2.0**-52


class Reject(Exception):
    pass


# ---- trees: ("num", text, value) ("name", s) ("const", s) ("func", f, t) ("bin", op, a, b) ("sum", t)

def tree(rng, depth, env, inside):
    u = rng.random()
    if depth == 0 or u < 0.22:
        v = rng.random()
        if v < 0.3:
            t = [str(int(rng.integers(0, 20))), f"{rng.uniform(0, 10):.4g}", f"{rng.uniform(0.1, 9):.3g}e{int(rng.integers(-2, 3))}",
                 f"{rng.uniform(0, 5):.2f}", "-" + f"{rng.uniform(0, 5):.3g}", "+" + str(int(rng.integers(1, 9))), "1E1", ".5", "2."][rng.integers(9)]
            try:
                return ("num", t, float(t))
            except ValueError:
                return ("num", "1.5", 1.5)
        if v < 0.36:
            return ("const", ["1j", "pi", "pi", "1j"][rng.integers(4)])
        if v < 0.38:
            k = ["eps_0", "h", "hbar", "c"][rng.integers(4)]
            return ("bin", "/", ("const", k), ("num", repr(CONST[k]), float(repr(CONST[k]))))
        if v < 0.55:
            return ("name", env["axis"])
        pool = list(env["single"]) + (list(env["rep"]) * 2 if inside else [])
        return ("name", pool[rng.integers(len(pool))]) if pool else ("name", env["axis"])
    if u < 0.36:
        return ("func", FUNCS[rng.integers(len(FUNCS))], tree(rng, depth - 1, env, inside))
    if u < 0.46 and not inside and env["n"]:
        return ("sum", tree(rng, depth - 1, env, True))
    if u < 0.6:
        e = [("num", "2", 2.0), ("num", "3", 3.0), ("num", "-1", -1.0), ("num", "-2", -2.0), ("num", "0.5", 0.5), ("num", "4", 4.0)][rng.integers(6)]
        if rng.random() < 0.2:
            e = tree(rng, 0, env, inside)
        return ("bin", "**", tree(rng, depth - 1, env, inside), e)
    return ("bin", "+-*/"[rng.integers(4)], tree(rng, depth - 1, env, inside), tree(rng, depth - 1, env, inside))


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "**": 3}


def write(rng, t, sp, extra):
    """(text, precedence); precedence 4 = atom."""
    def s():
        return " " * int(rng.integers(0, 3)) if sp else ""
    if t[0] == "num":
        out, p = t[1], 4
    elif t[0] in ("name", "const"):
        out, p = t[1], 4
    elif t[0] == "func":
        out, p = f"{t[1]}{s()}({s()}{write(rng, t[2], sp, extra)[0]}{s()})", 4
    elif t[0] == "sum":
        out, p = f"sum{s()}[{s()}{write(rng, t[1], sp, extra)[0]}{s()}]", 4
    else:
        op = t[1]
        p = PREC[op]
        a, pa = write(rng, t[2], sp, extra)
        b, pb = write(rng, t[3], sp, extra)
        if pa < p or (op == "**" and pa < 4):
            a = f"({a})"
        if pb <= p:
            b = f"({b})"
        if op == "**" and t[2][0] == "num" and t[2][1][0] in "+-":
            raise Reject  # power of a signed literal
        out = f"{a}{s()}{op}{s()}{b}"
    if rng.random() < extra:
        out, p = f"({s()}{out}{s()})", 4
    return out, p


def maybe_complex(t):
    if t[0] == "const":
        return t[1] == "1j"
    if t[0] == "func":
        return maybe_complex(t[2]) or t[1] == "sqrt"
    if t[0] == "sum":
        return maybe_complex(t[1])
    if t[0] == "bin":
        return maybe_complex(t[2]) or maybe_complex(t[3])
    return False


def dawson(z):
    import mpmath
    z = mpmath.mpmathify(z)
    return complex(mpmath.sqrt(mpmath.pi) / 2 * mpmath.exp(-z * z) * mpmath.erfi(z))


def ev(t, env, count):
    """(value, absolute error bound of a double evaluation)."""
    def cut(v, e, x):
        """stay away from the negative real axis unless certainly real"""
        if maybe_complex(x) and v.real <= 0 and abs(v.imag) < 1e-6 * abs(v) + 1e-9 + e:
            raise Reject
    kind = t[0]
    if kind == "num":
        return complex(t[2]), 0.0
    if kind == "const":
        count["constants"] = count.get("constants", 0) + 1
        return complex(CONST[t[1]]), abs(CONST[t[1]]) * 1e-8 if t[1] in ("eps_0", "hbar") else 0.0
    if kind == "name":
        v = env["values"][t[1]]
        return complex(v), (abs(v) * env["axis_error"] if t[1] == env["axis"] else 0.0)
    if kind == "sum":
        count["sums"] = count.get("sums", 0) + 1
        tot, err, big = 0, 0.0, 0.0
        for i in range(env["n"]):
            sub = {**env, "values": {**env["values"], **{k: v[i] for k, v in env["rep"].items()}}}
            v, e = ev(t[1], sub, count)
            tot += v
            err += e
            big += abs(v)
        return complex(tot), err + EPSM * big * (env["n"] + 1)
    if kind == "func":
        count["functions"] = count.get("functions", 0) + 1
        v, e = ev(t[2], env, count)
        f = t[1]
        if f in ("sin", "cos", "tan"):
            if abs(v) > 1e4 or abs(v.imag) > 20:
                raise Reject
            r = getattr(cmath, f)(v)
            if f == "tan" and abs(cmath.cos(v)) < 1e-4:
                raise Reject
            d = abs(1 + r * r) if f == "tan" else abs(cmath.cos(v) if f == "sin" else cmath.sin(v)) + e
            return r, e * d * 2 + 4 * EPSM * abs(r)
        if f == "sqrt":
            cut(v, e, t[2])
            if abs(v) < 1e-9 and abs(v) > 0 or v.real < 0 and e > 0.1 * abs(v):
                raise Reject
            r = cmath.sqrt(complex(v.real, v.imag if v.imag else 0.0))
            if v == 0 and e > 0:
                raise Reject
            return r, (e / abs(r) if r else 0.0) + 2 * EPSM * abs(r)
        if f == "dawsn":
            if abs(v) > 5:
                raise Reject
            r = dawson(v)
            return r, e * abs(1 - 2 * v * r) * 2 + 1e-12 * abs(r) + 1e-13
        if f in ("ln", "log"):
            if not maybe_complex(t[2]) and v.real <= 0 or abs(v) < 1e-9:
                raise Reject
            cut(v, e, t[2])
            r = cmath.log(v) * (1 if f == "ln" else 1 / math.log(10))
            return r, 2 * e / abs(v) + 8 * EPSM * (abs(r) + 1)
        if maybe_complex(t[2]) or abs(v) < 1e-6 + 2 * e:
            raise Reject
        return complex(float(v.real > 0)), 0.0
    a, ea = ev(t[2], env, count)
    b, eb = ev(t[3], env, count)
    op = t[1]
    count["operator " + op] = count.get("operator " + op, 0) + 1
    if op in "+-":
        r = a + b if op == "+" else a - b
        return r, ea + eb + EPSM * (abs(a) + abs(b))
    if op == "*":
        r = a * b
        return r, abs(a) * eb + abs(b) * ea + 4 * EPSM * abs(r)
    if op == "/":
        if abs(b) < 1e-9 or eb > 0.01 * abs(b):
            raise Reject
        r = a / b
        return r, (ea + abs(r) * eb) / abs(b) * 1.1 + 4 * EPSM * abs(r)
    if abs(a) < 1e-6 or abs(b) > 12 or ea > 0.01 * abs(a):
        raise Reject
    integer = not maybe_complex(t[3]) and t[3][0] == "num" and b.real == int(b.real)
    if not integer:
        if not maybe_complex(t[2]) and a.real <= 0:
            raise Reject
        cut(a, ea, t[2])
    la = cmath.log(a)
    r = a ** int(b.real) if integer else cmath.exp(b * la)
    return r, abs(r) * (abs(b) * ea / abs(a) * 1.5 + abs(la) * eb * 1.5 + 10 * EPSM * (1 + abs(b * la)))


def environment(rng):
    names = [NAMES[i] for i in rng.permutation(len(NAMES))]
    axis = [names.pop(), "lbda", "wl", "lambda_um"][rng.integers(4)]
    single = {names.pop(): [float(rng.uniform(-3, 5)), int(rng.integers(-3, 6)), float(10 ** rng.uniform(-2, 2))][rng.integers(3)]
              for _ in range(int(rng.integers(0, 4)))}
    n = rng.size_of([1, 2, 3, 5], 40)
    rep = {names.pop(): [float(x) for x in rng.uniform(-2, 4, n)] if rng.random() < 0.8 else [int(x) for x in rng.integers(-2, 5, n)]
           for _ in range(int(rng.integers(0, 4)))}
    if not rep:
        n = 0
    return dict(axis=axis, single=single, rep=rep, n=n, axis_error=0.0)


UNITS = {None: 1.0, "nm": 1.0, "nanometer": 1.0, "micrometer": 1e-3, "um": 1e-3, "angstrom": 10.0, "Angstroms": 10.0, "m": 1e-9, "mm": 1e-6,
         "pm": 1e3, "inch": 1e-9 / 0.0254}
ENERGY = {"eV": 1.0, "meV": 1e3, "keV": 1e-3, "joule": 1.602176634e-19, "electron_volt": 1.0}


def axis_value(unit, w):
    if unit in UNITS:
        return w * UNITS[unit], EPSM * 4
    return rd.HC / w * ENERGY[unit], 1e-9


def make(case, rng, env, depth, unit="any", at=None):
    """A formula with judgeable values at three (or the given) wavelengths."""
    if unit == "any":
        unit = None if rng.random() < 0.4 else [*UNITS, *ENERGY][rng.integers(len(UNITS) + len(ENERGY))]
    for _ in range(60):
        t = tree(rng, depth, env, False)
        lb = rng.uniform(200, 1500, 3) if at is None else at
        count = {}
        try:
            text = write(rng, t, rng.random() < 0.6, [0, 0, 0.15][rng.integers(3)])[0]
            want = []
            for w in lb:
                x, xe = axis_value(unit, float(w))
                values = {**env["single"], env["axis"]: x}
                v, e = ev(t, {**env, "values": values, "axis_error": xe}, count)
                if not cmath.isfinite(v) or abs(v) > 1e12 or e > 1e-6 * (abs(v) + 1e-3):
                    raise Reject
                want.append((v, e))
        except (Reject, OverflowError, ZeroDivisionError):
            continue
        for k, v in count.items():
            case.event(k, v)
        return text, unit, lb, want, t
    raise Skip


def construct(rng, rep_kind, text, env, unit, positional):
    cls = elli.FormulaIndex if rep_kind == "n" else elli.Formula
    eq = ["=", " = ", "= ", " ="][rng.integers(4)]
    formula = f"{rep_kind}{eq}{text}"
    rep = {k: (np.array(v) if rng.random() < 0.5 else list(v)) for k, v in env["rep"].items()}
    if positional:
        args = [formula, env["axis"], env["single"], rep] + ([unit] if unit is not None or rng.random() < 0.5 else [])
        return cls(*args), formula, rep
    return cls(formula=formula, wavelength_axis_name=env["axis"], single_params=env["single"], rep_params=rep,
               **({"unit": unit} if unit is not None else {})), formula, rep


def s_value(case):
    rng = case.rng
    env = environment(rng)
    text, unit, lb, want, t = make(case, rng, env, int(rng.integers(1, 6)))
    kind = ["eps", "n"][case.index % 2]
    single0, rep0 = dict(env["single"]), copy.deepcopy(env["rep"])
    d, formula, rep = construct(rng, kind, text, env, unit, rng.random() < 0.5)
    case.describe(formula=formula, unit=unit, env=env, lbda=lb)
    case.event("formulas")
    if unit is not None:
        case.event("units")
    v = np.array([x for x, _ in want])
    e = np.array([x for _, x in want])
    tol = 4 * e + 1e-13 * np.abs(v) + 1e-15

    def judge(got, sel, what):
        got = np.asarray(got)
        case.event("values", got.size)
        w = v[sel]
        g = np.broadcast_to(got, np.shape(w))
        case.check(bool((np.abs(g - w) <= tol[sel]).all()), f"{what} of {formula}", got=got, want=w, tolerance=tol[sel])
        case.worst = max(case.worst, float(np.max(np.abs(g - w) / tol[sel])))
    f = d.get_dielectric if kind == "eps" else d.get_refractive_index
    judge(f(lb), slice(None), "array value")
    judge(f(list(lb)), slice(None), "list value")
    judge(f(lb[:1]), slice(0, 1), "one-element value")
    for i in range(3):
        g = f(float(lb[i]))
        case.check(np.shape(g) in ((), (1,)), f"scalar wavelength gives shape {np.shape(g)}")
        judge(np.reshape(g, ()), i, "scalar value")
    p = rng.permutation(3)
    judge(f(lb[p]), p, "permuted value")
    if kind == "n":
        w = v**2
        case.close(d.get_dielectric(lb) * np.ones(3), w, "permittivity of an index formula", rtol=0,
                   atol=float(np.max(tol * (2 * np.abs(v) + tol) + 1e-12 * np.abs(w))))
    case.check(env["single"] == single0 and all(list(rep[k]) == rep0[k] for k in rep), "parameters changed")
    # the formula does not follow later changes of the caller's lists
    if rep:
        k = next(iter(rep))
        rep[k][0] = 99.0
        judge(f(lb), slice(None), "value after changing the given list")
    m = d.get_mat().get_tensor(lb)[:, 1, 1]
    case.close(m, np.asarray(d.get_dielectric(lb)) * np.ones(3), "material of a formula", rtol=1e-14)


def s_add(case):
    """Parameter sets given at construction or by add are the same; sums with other models work."""
    rng = case.rng
    env = environment(rng)
    while env["n"] < 2:
        env = environment(rng)
    text, unit, lb, want, t = make(case, rng, env, int(rng.integers(2, 5)))
    case.describe(formula=text, unit=unit, env=env)
    head = {**env, "rep": {k: v[:-1] for k, v in env["rep"].items()}}
    d, formula, _ = construct(rng, "eps", text, head, unit, True)
    got = d.add(**{k: v[-1] for k, v in env["rep"].items()})
    case.check(got is d, "add returns the model")
    v = np.array([x for x, _ in want])
    tol = 4 * np.array([x for _, x in want]) + 1e-13 * np.abs(v) + 1e-15
    g = np.broadcast_to(d.get_dielectric(lb), (3,))
    case.event("formulas")
    case.event("values", 3)
    case.check(bool((np.abs(g - v) <= tol).all()), f"value of {formula} with an added parameter set", got=g, want=v)
    s = d + 1.25
    g = np.broadcast_to(s.get_dielectric(lb), (3,))
    case.check(bool((np.abs(g - v - 1.25) <= tol + 1e-13 * np.abs(v) + 1e-15).all()), "sum with a formula", got=g, want=v + 1.25)


def s_reject(case):
    """Malformed or inconsistent formulas never give a value."""
    rng = case.rng
    env = environment(rng)
    text, unit, lb, want, t = make(case, rng, env, 3)
    case.describe(text=text, env=env)
    rep = env["rep"]
    a = next(iter(env["single"]), env["axis"])

    def use(kind, f, axis=None, single=None, reps=None, u=None, cls=None):
        d = (cls or (elli.Formula if kind == "eps" else elli.FormulaIndex))(
            f, axis or env["axis"], env["single"] if single is None else single, rep if reps is None else reps, u)
        return d.get_dielectric(lb), d.get_refractive_index(lb)

    def never(what, fn, exc=Exception):
        case.event("rejected")
        try:
            r = fn()
        except exc:
            return
        case.fail(f"{what} gave a value", value=r, text=text)
    bad = [f"eps = {text} +", f"eps = ({text}", f"eps = {text})", f"eps = {text} ({text})", f"eps {text}", f"{text}", f"eps == {text}",
           f"eps = {text} + unknown_name", f"eps = sum[{text} ** unknown_name]", f"eps = 2 ** {a} ** 2", f"eps = sum[sum[{a}]]",
           "eps = sum[sum[1]]", f"eps = -{a}", f"eps = exp({a})", f"eps = sin {a}", "eps = ", "", "eps = 3 % 2", "eps = a.b", f"eps = sum({a})",
           f"eps = [{text}]", f"eps = {text}; 1", f"n eps = {text}", f"eps = n = {text}", f"eps = {text} // 2", f"eps = 2 * * {a}",
           f"eps = abs({a})", f"mu = {text}", f"EPS = {text}", f"eps = SIN({a})", f"eps = 1 2", f"eps = {a}({a})"]
    for f in [bad[i] for i in rng.permutation(len(bad))[:12]]:
        never(f"malformed formula {f!r}", lambda f=f: use("eps", f))
    never("an index formula as Formula", lambda: use("eps", f"n = {text}"), ValueError)
    never("a dielectric formula as FormulaIndex", lambda: use("n", f"eps = {text}"), ValueError)
    never("kkr", lambda: use("eps", f"eps = <kkr> + 1j * {a}"), Exception)
    for u in ("second", "hertz", "kelvin", "1/cm", "no_such_unit", "kg"):
        never(f"unit {u}", lambda u=u: use("eps", f"eps = {text}", u=u))
    for v in ("1", None, [1.0], 1j, np.ones(2)):
        never(f"single parameter {v!r}", lambda v=v: use("eps", f"eps = {text} + zz", single={**env["single"], "zz": v}))
    # repeated parameters
    n = max(env["n"], 1)
    for longer in (n + 1, n + 3):
        never("repeated parameters of unequal length",
              lambda longer=longer: use("eps", "eps = sum[uu * vv]", reps={"uu": [1.0] * n, "vv": [1.0] * longer}), ValueError)
        never("repeated parameters of unequal length",
              lambda longer=longer: use("eps", "eps = sum[uu * vv]", reps={"uu": [1.0] * longer, "vv": [1.0] * n}), ValueError)
    for v in ((1.0, 2.0), 1.0, "12", {1.0: 2.0}):
        never(f"repeated parameter {v!r}", lambda v=v: use("eps", "eps = sum[uu]", reps={"uu": v}), (ValueError, AttributeError, TypeError))
    # a repeated parameter outside a sum has no value
    if rep:
        never("a repeated parameter outside a sum", lambda: use("eps", f"eps = {next(iter(rep))} * 1"))
    never("another axis name", lambda: use("eps", f"eps = 1 + {env['axis']}", axis="other_axis"))


def s_special(case):
    """Fixed corners of the grammar."""
    rng = case.rng
    lb = rng.uniform(300, 900, 4)
    A, B = float(rng.uniform(0.5, 3)), float(rng.uniform(0.5, 3))
    reps = {"f": [1.5, 2.5, -0.5], "e": [1.0, 2.0, 0.5]}
    r = np.array(reps["f"]), np.array(reps["e"])
    w = lb
    rows = [("eps = A - B - 1", A - B - 1), ("eps = A / B / 2", A / B / 2), ("eps = A - (B - 1)", A - (B - 1)), ("eps = A / B * 2", A / B * 2),
            ("eps = A + B * 2 ** 3", A + B * 8), ("eps = 2 * A ** 2", 2 * A * A), ("eps = (2 * A) ** 2", 4 * A * A), ("eps = A-1", A - 1),
            ("eps = A -1", A - 1), ("eps = A+-1", A - 1), ("eps = A*-2", -2 * A), ("eps = 2 ** -1", 0.5), ("eps = A - -1", A + 1),
            ("eps = sum[f]", 1.5 + 2.5 - 0.5), ("eps = sum[1]", 3), ("eps = sum[A]", 3 * A), ("eps = sum[lbda]", 3 * w),
            ("eps = sum[f * lbda ** e]", (r[0] * w[:, None] ** r[1]).sum(1)), ("eps = sum[f - e]", float((r[0] - r[1]).sum())),
            ("eps = sum[f] * sum[e]", float(r[0].sum() * r[1].sum())), ("eps = sum[f * A] / A", 3.5), ("eps = sum[sin(f)]", np.sin(r[0]).sum()),
            ("eps = sum[f / e ** 2]", (r[0] / r[1] ** 2).sum()), ("eps = sqrt(0 - 4)", 2j), ("eps = sqrt(400 - lbda)", np.emath.sqrt(400 - w)),
            ("eps = heaviside(lbda - 500)", np.where(w > 500, 1, 0)), ("eps = heaviside(lbda - lbda)", 0 * w), ("eps = heaviside(A)", 1),
            ("eps = heaviside(0 - A)", 0), ("eps = ln(A)", math.log(A)), ("eps = log(A)", math.log10(A)), ("eps = log(100)", 2),
            ("eps = 1j * 1j", -1), ("eps = A + 1j * B", A + 1j * B), ("eps = 1j", 1j), ("eps = pi", math.pi), ("eps = c / 1e8", 2.99792458),
            ("eps = h * 1e34", 6.62607015), ("eps = hbar * 1e34", 1.054571817646), ("eps = eps_0 * 1e12", 8.8541878), ("eps = 7", 7),
            ("eps = lbda", w), ("eps = (((lbda)))", w), ("eps = lbda ** A", w**A), ("eps = A ** (lbda / 1000)", A ** (w / 1000)),
            ("eps = dawsn(A)", dawson(A).real), ("eps = cos(pi)", -1), ("eps = tan(pi / 4)", 1)]
    text, want = rows[case.index % len(rows)]
    case.describe(formula=text, A=A, B=B)
    case.event("formulas")
    rtol = 1e-7 if "eps_0" in text or "hbar" in text else 1e-12
    for rep in (reps, {k: np.array(v) for k, v in reps.items()}):
        d = elli.Formula(text, "lbda", {"A": A, "B": B}, rep)
        g = np.asarray(d.get_dielectric(lb))
        case.event("values", 5)
        case.check(g.shape in ((), (4,)), f"shape {g.shape}")
        case.close(np.broadcast_to(g, (4,)), np.broadcast_to(want, (4,)).astype(complex), text, rtol=rtol, atol=1e-13)
        case.close(np.reshape(d.get_dielectric(float(lb[2])), ()), np.broadcast_to(want, (4,))[2].astype(complex), text, rtol=rtol, atol=1e-13)
    # units: the axis in every unit
    unit = [*UNITS, *ENERGY][rng.integers(len(UNITS) + len(ENERGY))]
    d = elli.FormulaIndex("n = x", "x", {}, {}, unit)
    case.event("units")
    x = np.array([axis_value(unit, float(v))[0] for v in lb])
    case.close(np.asarray(d.get_refractive_index(lb)) / x, np.ones(4), f"axis in {unit}", rtol=1e-8)
    case.close(np.reshape(d.get_refractive_index(float(lb[0])), ()) / x[0], 1, f"axis in {unit}", rtol=1e-8)


SUITES = [
    Suite("value", s_value, 48000, 480000),
    Suite("add", s_add, 3200, 32000),
    Suite("reject", s_reject, 800, 8000),
    Suite("special", s_special, 800, 8000),
]
