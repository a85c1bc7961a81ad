"""C07: delta lies in the selected range and is unchanged modulo 360."""
import numpy as np
import pandas as pd

import elli
from elli.utils import convert_delta_range
from ..core import Suite
from ..samples import polarization, sample

PROPERTY = "C07"
RULE = (
    "simulated results read in every kind of valid delta range (random 360 degree windows, 0..180), "
    "histories of range changes, measured arrays including the range ends and round-off next to "
    "them; every invalid pair must be rejected"
)
REACH = {"ranges": 300, "folded ranges": 60, "rejected": 200, "edge values": 500}


def wrap(d):
    return (np.asarray(d) + 180.0) % 360.0 - 180.0


def a_range(rng):
    u = rng.random()
    if u < 0.2:
        return 0, 180
    if u < 0.5:
        return [(-180, 180), (0, 360), (-360, 0), (-90, 270)][rng.integers(4)]
    lo = -int(rng.integers(0, 361))
    return lo, lo + 360


def in_range(case, d, lo, hi, what):
    d = np.asarray(d, float)
    case.check(np.isfinite(d).all() and (d >= lo - 1e-12).all() and (d <= hi + 1e-12).all(),
               f"{what} outside [{lo}, {hi}]", values=d)


def congruent(case, d, want, lo, hi, what, tol=1e-6):
    """d represents the angle `want` (degrees) in the range."""
    in_range(case, d, lo, hi, what)
    if (lo, hi) == (0, 180):
        case.event("folded ranges")
        case.close(d, np.abs(wrap(want)), what, rtol=0, atol=tol)
    else:
        case.close(wrap(np.asarray(d) - want), np.zeros(np.shape(want)), what + " modulo 360", rtol=0, atol=tol)


def s_result(case):
    rng = case.rng
    vec = polarization(rng) if rng.random() < 0.6 else None
    r, s = sample(case, vector=vec)
    if rng.random() < 0.3:
        # lossless bare interface: rho is real, delta exactly at a range end
        st = elli.Structure(elli.AIR, [], elli.ConstantRefractiveIndex(float(rng.uniform(1.2, 3))).get_mat())
        r = st.evaluate(s["lobj"], float(rng.uniform(5, 85)))
    case.describe(**s["info"])
    jv = r.experiment.jones_vector
    base = {}
    for sfx, j in (("", r.jones_matrix_r), ("_t", r.jones_matrix_t)):
        e = np.einsum("nij,j->ni", j, jv)
        rho = e[:, 0] / e[:, 1]
        base[sfx] = (-np.degrees(np.angle(rho)), -np.degrees(np.angle(j / j[:, 1, 1][:, None, None])), rho,
                     np.abs(j))
    still = {k: np.array(getattr(r, k)) for k in
             ("psi", "psi_t", "psi_matrix", "psi_matrix_t", "R_matrix", "T_matrix", "mueller_matrix",
              "rho_matrix", "jones_matrix_r", "jones_matrix_t", "Rc_matrix", "R", "T", "rho_matrix_t")}
    hist = [a_range(rng) for _ in range(rng.integers(1, 5))]
    case.describe(ranges=hist)
    for lo, hi in hist:
        out = r.as_delta_range(lo, hi)
        case.event("ranges")
        case.check(out is r or hasattr(out, "delta"), "as_delta_range does not return a result")
        r = out
        for sfx in ("", "_t"):
            d, dm, rho, ja = base[sfx]
            if np.isfinite(rho).all() and np.min(np.abs(rho)) > 1e-9:
                congruent(case, getattr(r, "delta" + sfx), d, lo, hi, "delta" + sfx)
                got = getattr(r, "rho" + sfx)
                if (lo, hi) == (0, 180):
                    case.close(got.real, rho.real, "Re rho in 0..180", rtol=1e-9)
                    case.close(np.abs(got.imag), np.abs(rho.imag), "|Im rho| in 0..180", rtol=1e-9)
                    case.check((got.imag <= 0).all(), "rho in 0..180 does not correspond to its delta")
                else:
                    case.close(got, rho, "rho", rtol=1e-9)
            gm = np.asarray(getattr(r, "delta_matrix" + sfx))
            in_range(case, gm, lo, hi, "delta_matrix" + sfx)
            ok = ja > 1e-9
            congruent(case, gm[ok], dm[ok], lo, hi, "delta_matrix" + sfx)
            for name, sl in (("pp", (0, 0)), ("ps", (0, 1))):
                if sfx == "":
                    case.check(np.array_equal(getattr(r, f"delta_{name}"), gm[:, sl[0], sl[1]]),
                               f"delta_{name} in another range than its matrix")
    for k, v in still.items():
        if np.isfinite(v).all():
            case.close(getattr(r, k), v, f"{k} after changing the delta range", rtol=1e-12, atol=1e-12)


def s_convert(case):
    rng = case.rng
    lo, hi = a_range(rng)
    n = rng.size_of(range(1, 12), 300)
    d = rng.uniform(-720, 720, n)
    edges = np.array([lo, hi, lo - 360, hi + 360, 0, 180, -180, 360, -360, 90], float)
    k = rng.integers(0, len(edges), 6)
    e = edges[k] + rng.choice([0, 1e-13, -1e-13, 1e-20, -1e-20, 1e-9, -1e-9], 6)
    d = np.concatenate([d, e])
    form = rng.integers(4)
    obj = d
    if form == 1:
        obj = pd.Series(d, index=rng.permutation(len(d)))
    elif form == 2:
        d = np.round(d)
        obj = d.astype(int)
    elif form == 3:
        d = d[:1]
        obj = float(d[0])
    keep = np.array(obj, dtype=float, copy=True)
    case.describe(lo=lo, hi=hi, values=d, form=int(form))
    out = convert_delta_range(obj, lo, hi)
    case.event("ranges")
    case.event("edge values", 6)
    case.check(np.array_equal(np.asarray(obj, float), keep), "the given delta values were changed")
    if form == 1:
        case.check(isinstance(out, pd.Series) and list(out.index) == list(obj.index), "index of the series changed")
    congruent(case, np.atleast_1d(np.asarray(out)), d, lo, hi, "converted delta", tol=1e-9)
    lo2, hi2 = a_range(rng)
    if (0, 180) not in ((lo, hi), (lo2, hi2)):
        back = convert_delta_range(convert_delta_range(obj, lo2, hi2), lo, hi)
        case.close(wrap(np.asarray(back) - np.asarray(out)), 0 * np.asarray(out, float), "round trip", rtol=0, atol=1e-9)
    again = convert_delta_range(out, lo, hi)
    case.close(wrap(np.asarray(again) - np.asarray(out)), 0 * np.asarray(out, float), "converting twice", rtol=0, atol=1e-9)


def s_reject(case):
    rng = case.rng
    u = rng.integers(6)
    if u == 0:
        pair = (int(rng.integers(-360, 1)), int(rng.integers(0, 361)))
        if pair == (0, 180) or pair[1] - pair[0] == 360:
            pair = (pair[0], 17 if pair[0] != -343 else 18)
    elif u == 1:
        pair = (int(rng.integers(1, 400)), int(rng.integers(361, 800)))
    elif u == 2:
        lo = -int(rng.integers(361, 720))
        pair = (lo, lo + 360)
    elif u == 3:
        lo = int(rng.integers(1, 300))
        pair = (lo, lo + 360)
    elif u == 4:
        lo = -int(rng.integers(0, 361))
        pair = (float(lo), lo + 360) if rng.random() < 0.5 else (lo, float(lo + 360))
    else:
        bad = [("0", "360"), (None, 180), (0, None), (-180.5, 179.5), (180, 0), (360, 0), (-180, "180"), (0, 90)]
        pair = bad[rng.integers(len(bad))]
    case.describe(pair=list(pair))
    case.event("rejected", 3)
    exc = (ValueError, TypeError)
    case.raises(exc, lambda: convert_delta_range(np.array([10.0, -20.0]), *pair), f"delta range {pair}")
    st = elli.Structure(elli.AIR, [], elli.ConstantRefractiveIndex(complex(1.5, 0.4)).get_mat())
    r = st.evaluate([500.0], 60).as_delta_range(0, 360)
    before = r.delta
    case.raises(exc, lambda: r.as_delta_range(*pair), f"delta range {pair}")
    case.check(np.array_equal(before, r.delta), "a rejected range changed the result")


SUITES = [Suite("result", s_result, 4500, 45000), Suite("convert", s_convert, 6000, 60000),
          Suite("reject", s_reject, 3750, 37500)]
