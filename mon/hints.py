"""Random streams with a dictionary: numbers the code under test compares with.

A threshold in the code (64 divisions, 0.5 degrees, 1e-3 nm) splits its inputs into classes that uniform
sampling meets rarely or never. As fuzzers do with a dictionary, the streams of the workloads place some of
their draws around the numeric literals of /repo's working tree, the ones the recorded tree does not have
first. The draws stay inside the range the workload asked for, so they choose among inputs it may make
anyhow; what is right stays the oracles' decision.
"""

from __future__ import annotations

import ast
import json
import math
import os
from collections import Counter
from pathlib import Path

import numpy as np

SRC = Path("/repo/src/elli")
BASE = Path(__file__).resolve().parent / "literals.json"


def literals(src=SRC):
    """file -> Counter of numeric literals"""
    out = {}
    for f in sorted(src.rglob("*.py")):
        try:
            tree = ast.parse(f.read_text(encoding="utf8"))
        except (SyntaxError, UnicodeDecodeError):
            continue
        c = Counter()
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                if math.isfinite(n.value):
                    c[repr(float(n.value))] += 1
        out[str(f.relative_to(src))] = dict(c)
    return out


def novel():
    if os.environ.get("VERIF_HINTS"):  # for trying the workloads with chosen numbers
        return [float(x) for x in os.environ["VERIF_HINTS"].split(",")]
    try:
        base = json.loads(BASE.read_text())
    except OSError:
        return []
    out = set()
    for f, c in literals().items():
        old = base.get(f, {})
        out |= {float(v) for v, n in c.items() if n > old.get(v, 0)}
    return sorted(out)[:40]


_novel = None


def pool():
    global _novel
    if _novel is None:
        _novel = novel()
    return _novel


def related(v):
    """Numbers of other quantities that the literal may stand for."""
    v = abs(v)
    out = [v, v, v, math.degrees(v), v * v, math.sqrt(v)]
    if v:
        out += [1239.8419843320028 / v, 1 / v]
    return out


class Rng(np.random.Generator):
    """A generator whose scalar uniform draws and sizes may fall near a literal, few times per case."""

    def __init__(self, seed, budget=None):
        super().__init__(np.random.PCG64(seed))
        self._budget = 0
        self._h = None
        if pool():
            self._h = np.random.Generator(np.random.PCG64([7, *(seed if isinstance(seed, (list, tuple)) else [seed])]))
            self._budget = int(self._h.integers(0, 4)) if budget is None else budget

    def _hint(self, lo, hi):
        h = self._h
        v = pool()[h.integers(len(pool()))]
        v = related(v)[h.integers(8 if v else 6)] * (-1 if lo < 0 and h.random() < 0.5 else 1)
        u = h.random()
        if u < 0.35:
            v *= 1 + h.uniform(0, 0.3)
        elif u < 0.7:
            v *= 1 - h.uniform(0, 0.3)
        elif u < 0.8:
            v *= h.uniform(0, 1)
        elif u < 0.9:
            v *= 1 + h.uniform(0, 3)
        else:
            v *= 1 + 1e-6 * h.normal()
        return v if lo < v < hi else None

    def uniform(self, low=0.0, high=1.0, size=None):
        x = super().uniform(low, high, size)
        if self._budget > 0 and np.ndim(low) == 0 and np.ndim(high) == 0 and self._h.random() < 0.15:
            v = self._hint(float(low), float(high))
            if v is not None:
                self._budget -= 1
                if np.ndim(x) == 0:
                    return v
                if np.size(x):
                    x.flat[self._h.integers(x.size)] = v
        return x

    def size_of(self, options, hi, lo=1, tail=0.04):
        """A count: one of the options, sometimes anything up to hi."""
        x = int(self.choice(options))
        u = super().random()
        big = int(round(math.exp(super().uniform(math.log(max(lo, 1)), math.log(hi)))))
        if u < tail:
            x = min(max(big, lo), hi)
        if self._h is not None and self._h.random() < 0.2:
            ok = [int(v) + d for v in pool() if v == int(v) for d in (0, 1, 2, -1) if lo <= int(v) + d <= hi]
            ok += [min(hi, int(v * f)) for v in pool() for f in (1.3, 2) if lo <= v <= hi]
            if ok:
                return ok[self._h.integers(len(ok))]
        return x


if __name__ == "__main__":
    BASE.write_text(json.dumps(literals(), indent=0, sort_keys=True) + "\n")
