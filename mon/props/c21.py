"""C21: the parameter history records and restores every state."""
import copy

import lmfit
import numpy as np

from elli.fitting import ParamsHist
from ..core import Suite

PROPERTY = "C21"
RULE = (
    "random histories of 5-150 operations (tracked and untracked changes, additions, removals, commits, reverts, pops, "
    "length changes, clearing, changes of foreign and returned objects, rejected calls) on a ParamsHist in lockstep with "
    "a plain lmfit.Parameters and a list of snapshots; full comparison after every operation"
)
ASSUMPTIONS = ["lmfit.Parameters itself is trusted", "the history after a rejected change is not judged"]
REACH = {"operations": 10000, "comparisons": 10000, "pop": 500, "revert": 500, "commit": 500, "length": 300, "overflow": 300, "expressions": 100,
         "truncated": 50, "foreign": 500, "unchanged value": 100, "small step": 50}

FIELDS = ("value", "vary", "min", "max", "expr", "brute_step", "user_data", "stderr", "init_value")


def state(p):
    return [(k, *(getattr(p[k], f) for f in FIELDS)) for k in p]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        for u, v in zip(x, y):
            if u is v or u == v:
                continue
            if isinstance(u, float) and isinstance(v, float) and np.isnan(u) and np.isnan(v):
                continue
            return False
    return True


NAMES = ["d", "n0", "thickness", "k_1", "A", "E0", "gamma", "angle"]


def random_par(rng, names, expr_ok=True):
    """keyword arguments of a parameter"""
    kw = dict(value=float(np.round(rng.uniform(-5, 5), 3)), vary=bool(rng.random() < 0.6))
    if rng.random() < 0.5:
        kw["min"] = float(np.round(kw["value"] - rng.uniform(0, 3), 3)) if rng.random() < 0.9 else -np.inf
    if rng.random() < 0.5:
        kw["max"] = float(np.round(kw["value"] + rng.uniform(0.5, 3), 3))
    if rng.random() < 0.1:
        kw["brute_step"] = 0.25
    if expr_ok and names and rng.random() < 0.15:
        kw = dict(expr=f"2 * {names[rng.integers(len(names))]} + 1")
    return kw


class World:
    """The object under test and its reference."""

    def __init__(self, case):
        self.case = case
        self.real = ParamsHist()
        self.ref = lmfit.Parameters()
        self.hist = []
        self.cap = 50

    def commit(self):
        if len(self.hist) >= self.cap:
            self.case.event("overflow")
        self.hist.append(state(self.ref))
        self.copies.append(copy.deepcopy(self.ref))
        self.trim()

    copies = None

    def trim(self):
        self.hist = self.hist[-self.cap:]
        self.copies = self.copies[-self.cap:]

    def restore(self, i):
        self.ref = copy.deepcopy(self.copies[i])

    def free(self):
        """names other parameters do not depend on"""
        used = " ".join(p.expr or "" for p in self.ref.values())
        return [k for k in self.ref if k not in used]

    def judge(self, what):
        c = self.case
        c.event("comparisons")
        got, want = state(self.real), state(self.ref)
        c.check(same(got, want), f"parameters after {what}", got=got, want=want)
        c.check(self.real.history_len == len(self.hist) == len(self.real.history), f"history length after {what}",
                got=self.real.history_len, want=len(self.hist))
        c.check(self.real.history_len <= self.real.max_history_len == self.cap, f"maximum history length after {what}",
                got=[self.real.history_len, self.real.max_history_len], want=self.cap)
        for i, (h, w) in enumerate(zip(self.real.history, self.hist)):
            c.check(same(state(h), w), f"history entry {i} after {what}", got=state(h), want=w)


def s_history(case):
    rng = case.rng
    w = World(case)
    w.copies = []
    log = []
    case.describe(operations=log)
    foreign = []
    n = rng.size_of([5, 15, 40, 150], 400)
    if rng.random() < 0.5:
        m = rng.size_of([1, 2, 3, 5, 8], 200)
        w.real.max_history_len = m
        w.cap = m
        log.append(f"max_history_len = {m}")
    exprs = rng.random() < 0.3
    pushy = rng.random() < 0.4   # mostly tracked changes, so that the history overflows
    for _ in range(n):
        case.event("operations")
        names = list(w.ref)
        u = rng.random()
        if pushy and rng.random() < 0.6:
            u = rng.uniform(0, 0.37)
        if u < 0.12 or not names:
            name = NAMES[rng.integers(len(NAMES))]
            kw = random_par(rng, [x for x in names if x != name and not w.ref[x].expr], exprs and name in (w.free() or [name]) and name not in names)
            if w.ref.get(name) is not None and w.ref[name].expr:
                kw.pop("value", None)
                continue
            if "expr" in kw:
                case.event("expressions")
            form = rng.integers(3)
            w.commit()
            if form == 0 and "expr" not in kw:
                pos = [name, kw.pop("value"), kw.pop("vary")]
                w.real.tracked_add(*pos, **kw)
                w.ref.add(*pos, **kw)
            elif form == 1:
                p = lmfit.Parameter(name, **kw)
                w.real.tracked_add(p)
                q = lmfit.Parameter(name, **kw)
                w.ref.add(q)
            else:
                w.real.tracked_add(name, **kw)
                w.ref.add(name, **kw)
            what = f"tracked_add {name} {kw}"
        elif u < 0.25:
            name = names[rng.integers(len(names))]
            v = float(np.round(rng.uniform(-8, 8), 3))
            if w.ref[name].expr:
                continue
            now = w.ref[name].value
            s = rng.random()
            if s < 0.2:   # a change to the value it has is a change all the same
                v = now
                case.event("unchanged value")
            elif s < 0.3:   # nor may a small step be lost
                v = now * (1 + rng.choice([1e-12, 1e-9, 1e-7, -1e-6])) if now else float(rng.choice([1e-12, -1e-9]))
                case.event("small step")
            elif s < 0.36:
                v = float(rng.choice([0.0, 1.0, -1.0, 1e-6]))
            w.commit()
            w.real.update_value(name, v)
            w.ref[name].value = v
            what = f"update_value {name} {v}"
        elif u < 0.33:
            other = lmfit.Parameters() if rng.random() < 0.6 else ParamsHist()
            for k in rng.permutation(NAMES)[: int(rng.integers(1, 4))]:
                if k in w.ref and (w.ref[k].expr or k not in w.free()):
                    continue
                other.add(str(k), **random_par(rng, [], False))
                if k in w.ref and rng.random() < 0.2:
                    other[str(k)].value = w.ref[k].value
            w.commit()
            w.real.update_params(other)
            w.ref.update(copy.deepcopy(other))
            foreign.append(other)
            what = f"update_params {list(other)}"
        elif u < 0.40:
            w.real.commit()
            w.commit()
            case.event("commit")
            what = "commit"
        elif u < 0.60:
            # a change which is not tracked
            name = names[rng.integers(len(names))]
            if w.ref[name].expr:
                continue
            k = rng.integers(5)
            v = float(np.round(rng.uniform(-8, 8), 3))
            for p in (w.real, w.ref):
                if k == 0:
                    p[name].value = v
                elif k == 1:
                    p[name].vary = v > 0
                elif k == 2:
                    p[name].set(min=-20 + v, max=20 + v)
                elif k == 3:
                    p.add(name if v < 0 else "extra", value=v)
                elif k == 4 and name in w.free() and len(names) > 1:
                    pass
            if k == 4 and name in w.free() and len(names) > 1:
                del w.real[name]
                del w.ref[name]
            what = f"untracked change {k} of {name} {v}"
        elif u < 0.72:
            i = int(rng.integers(-len(w.hist) - 2, len(w.hist) + 2))
            case.event("revert")
            w.real.revert(i)
            if -len(w.hist) <= i < len(w.hist):
                w.restore(i)
            what = f"revert {i}"
        elif u < 0.86:
            case.event("pop")
            before = state(w.ref)
            got = w.real.pop()
            if w.hist:
                case.check(got is not None and same(state(got), before), "pop does not return the state it left",
                           got=None if got is None else state(got), want=before)
                w.restore(-1)
                w.hist, w.copies = w.hist[:-1], w.copies[:-1]
                foreign.append(got)
            else:
                case.check(got is None, "pop of an empty history returns something", got=got)
            what = "pop"
        elif u < 0.92:
            case.event("length")
            m = [1, 2, 3, 4, 7, 50, 60, 0, -1, -5, 2.0, "3", None, 1.5][rng.integers(14)]
            if isinstance(m, int) and m >= 1:
                if m < len(w.hist):
                    case.event("truncated")
                w.real.max_history_len = m
                w.cap = m
                w.trim()
            else:
                case.raises(ValueError, lambda m=m: setattr(w.real, "max_history_len", m), f"max_history_len = {m!r}")
            what = f"max_history_len = {m!r}"
        elif u < 0.94:
            w.real.clear_history()
            w.hist, w.copies = [], []
            what = "clear_history"
        else:
            what = "nothing"
        # whatever happens to objects handed in or out
        if foreign and rng.random() < 0.4:
            f = foreign[rng.integers(len(foreign))]
            case.event("foreign")
            for k in list(f):
                if not f[k].expr:
                    f[k].set(value=77.0, vary=not f[k].vary, min=-np.inf, max=np.inf)
            what += ", change of a foreign object"
        log.append(what)
        if len(log) > 40:
            del log[0]
        w.judge(what)
    # unwinding the whole history
    while w.hist:
        w.restore(-1)
        w.hist, w.copies = w.hist[:-1], w.copies[:-1]
        w.real.pop()
        w.judge("unwinding")
    case.check(w.real.pop() is None, "pop of an empty history")


def s_roundtrip(case):
    """n tracked changes and n pops give the start; every history position can be restored."""
    rng = case.rng
    p = ParamsHist()
    for k in NAMES[: int(rng.integers(2, 8))]:
        p.add(k, **random_par(rng, [], False))
    if rng.random() < 0.4:
        p.add("dep", expr=f"{NAMES[0]} + 3")
        case.event("expressions")
    n = int(rng.choice([1, 3, 10, 49, 50, 51, 80]))
    cap = int(rng.choice([50, 50, 5, 100]))
    p.max_history_len = cap
    states = [state(p)]
    for i in range(n):
        k = NAMES[rng.integers(2)]
        if rng.random() < 0.3:
            p.tracked_add(f"p{i}", value=float(i))
        else:
            p.update_value(k, float(rng.uniform(-4, 4)))
        states.append(state(p))
        case.event("operations")
    case.describe(changes=n, cap=cap)
    keep = min(n, cap)
    if n > cap:
        case.event("overflow", n - cap)
    case.check(p.history_len == keep, f"history length {p.history_len}, expected {keep}")
    for i in rng.permutation(keep)[:10]:
        case.event("revert")
        j = int(i) - (keep if rng.random() < 0.5 else 0)
        p.revert(j)
        case.check(same(state(p), states[n - keep + int(i)]), f"revert({j})", got=state(p), want=states[n - keep + int(i)])
        case.check(p.history_len == keep, "revert changes the history length")
        for q in p.values():
            if not q.expr:
                q.set(value=55.0, min=-np.inf, max=np.inf)
    for i in range(keep):
        case.event("pop")
        p.pop()
        case.event("comparisons")
        case.check(same(state(p), states[n - 1 - i]), f"pop {i + 1}", got=state(p), want=states[n - 1 - i])
    case.check(p.pop() is None and same(state(p), states[n - keep]), "pop of an empty history")


SUITES = [
    Suite("history", s_history, 1300, 18000),
    Suite("roundtrip", s_roundtrip, 300, 5000),
]
