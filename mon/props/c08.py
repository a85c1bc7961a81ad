"""C08: result lists stack and average elementwise."""
import copy
import pickle

import numpy as np

import elli
from ..core import Skip, Suite
from ..samples import sample

PROPERTY = "C08"
RULE = (
    "lists of 1-6 simulated results (1-5 wavelengths, mixed solvers and angles), built at once or by "
    "appending, every quantity and named element compared with the single results; copies and "
    "pickles compared with the original"
)
REACH = {"stacked": 1000, "averaged": 1000, "single wavelength": 20, "single result": 20, "copies": 100, "repeated results": 100}

NAMES = ["psi", "delta", "rho", "psi_t", "delta_t", "rho_t", "psi_matrix", "delta_matrix", "rho_matrix",
         "mueller_matrix", "jones_matrix_r", "jones_matrix_t", "jones_matrix_rc", "jones_matrix_tc",
         "R", "T", "R_matrix", "T_matrix", "Rc_matrix", "Tc_matrix", "psi_pp", "delta_pp", "rho_pp", "r_pp",
         "r_ss", "t_pp", "R_ss", "T_pp", "Rc_LL", "r_LR", "Ψ_pp", "Δ_pp", "mueller_matrix_12", "mueller_matrix_33"]


def make(case, k, n):
    rng = case.rng
    lb = rng.uniform(350, 1200, n)
    out = []
    for _ in range(k):
        nb = complex(rng.uniform(1.2, 3), rng.random())
        lay = [elli.Layer(elli.ConstantRefractiveIndex(float(rng.uniform(1.2, 2.5))).get_mat(),
                          float(rng.uniform(10, 300)))]
        if rng.random() < 0.5:
            m = elli.UniaxialMaterial(elli.ConstantRefractiveIndex(float(rng.uniform(1.3, 1.8))),
                                      elli.ConstantRefractiveIndex(float(rng.uniform(1.3, 1.8))))
            m.set_rotation(elli.rotation_euler(30, 50, 20))
            lay.append(elli.Layer(m, float(rng.uniform(10, 300))))
            sol = elli.Solver4x4
        else:
            sol = [elli.Solver2x2, elli.Solver4x4][rng.integers(2)]
        st = elli.Structure(elli.AIR, lay, elli.ConstantRefractiveIndex(nb).get_mat())
        r = st.evaluate(lb, float(rng.uniform(10, 80)), solver=sol)
        if rng.random() < 0.3:
            r.as_delta_range(0, 360)
        out.append(r)
    return out


def compare(case, rl, results, names, what):
    k, n = len(results), len(results[0].experiment.lbda)
    for name in names:
        want = np.array([getattr(r, name) for r in results])
        got = np.asarray(getattr(rl, name))
        case.event("stacked")
        case.check(got.size == want.size, f"{what}{name}: {got.shape} for {want.shape}")
        case.check(np.squeeze(got).shape == np.squeeze(want).shape, f"{what}{name}: {got.shape} for {want.shape}")
        case.close(np.squeeze(got), np.squeeze(want), f"{what}{name} stacked", rtol=1e-13, atol=1e-14)
        mean = sum(want[i] for i in range(k)) / k
        gm = np.asarray(getattr(rl.mean, name))
        case.event("averaged")
        case.check(np.squeeze(gm).shape == np.squeeze(mean).shape, f"{what}mean.{name}: shape {gm.shape} for {mean.shape}")
        case.close(np.squeeze(gm), np.squeeze(mean), f"{what}mean.{name}", rtol=1e-11,
                   atol=1e-12 * (1 + float(np.max(np.abs(want)))))
    if n == 1:
        case.event("single wavelength")
    if k == 1:
        case.event("single result")


def s_list(case):
    rng = case.rng
    k, n = rng.size_of([1, 1, 2, 3, 6], 60), rng.size_of([1, 1, 2, 3, 5], 60)
    if rng.random() < 0.2:
        n = k
    if rng.random() < 0.015:
        k, n = int(rng.integers(60, 400)), int(rng.integers(1, 4))
        case.event("long list")
    res = make(case, k, n)
    if rng.random() < 0.3:      # the same result more than once gives it more weight
        case.event("repeated results")
        for _ in range(int(rng.integers(1, 4))):
            again = res[rng.integers(len(res))]
            res.insert(int(rng.integers(len(res) + 1)),
                       [again, again, copy.copy(again), copy.deepcopy(again)][rng.integers(4)])
        k = len(res)
    case.describe(k=k, n=n, psi=[r.psi for r in res])
    if rng.random() < 0.5:
        rl = elli.ResultList(list(res))
    else:
        rl = elli.ResultList()
        case.check(len(rl) == 0, "a new list is not empty")
        for i, r in enumerate(res):
            rl.append(r)
            case.check(len(rl) == i + 1, "append does not grow the list by one")
    other = elli.ResultList()
    case.check(len(other) == 0, "a new list shares results with another one")
    case.check(len(rl) == k, "length")
    case.check(all(a is b for a, b in zip(rl.results, res)), "results are not kept in order")
    names = list(rng.choice(NAMES, 8, replace=False))
    snap = [r.psi.copy() for r in res]
    compare(case, rl, res, names, "")
    # appending later is seen, also by the mean
    extra = make(case, 1, n)[0]
    extra.experiment.lbda = res[0].experiment.lbda
    rl.append(extra)
    compare(case, rl, [*res, extra], names[:3], "after append: ")
    case.check(all(np.array_equal(a, b.psi) for a, b in zip(snap, res)), "reading a list changed its results")
    # a changed delta range of one of the results is seen too
    res[rng.integers(k)].as_delta_range(*[(0, 360), (-180, 180), (-360, 0), (0, 180)][rng.integers(4)])
    rl.append(res[0])
    compare(case, rl, [*res, extra, res[0]], [*names[3:5], "delta"], "after changes: ")
    case.raises((AttributeError, ValueError, IndexError), lambda: rl.foo_bar, "unknown name on a list")


def s_copy(case):
    rng = case.rng
    k, n = rng.size_of([1, 2, 3], 20), rng.size_of([1, 2, 3], 20)
    res = make(case, k, n)
    rl = elli.ResultList(res)
    case.describe(k=k, n=n, psi=[r.psi for r in res])
    names = list(rng.choice(NAMES, 4, replace=False))
    for how, f in (("deepcopy", copy.deepcopy), ("copy", copy.copy),
                   ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
        case.event("copies")
        c = f(rl)
        case.check(len(c) == k, f"{how} of a list")
        compare(case, c, res, names, how + ": ")
        r = f(res[0])
        for nme in names:
            case.close(getattr(r, nme), getattr(res[0], nme), f"{how} of a result: {nme}", rtol=1e-14, atol=0)
        m = f(rl.mean)
        case.close(m.psi, rl.mean.psi, f"{how} of a mean", rtol=1e-14, atol=0)
        if how != "copy":
            before = res[0].delta.copy()
            r.as_delta_range(-360, 0)
            case.check(np.array_equal(before, res[0].delta), f"a {how} shares its delta range")


SUITES = [Suite("list", s_list, 3000, 30000), Suite("copy", s_copy, 1200, 12000)]
