"""Runner, event counters, verdicts, replay and evidence for the runtime monitors.

A property module (mon/props/cXX.py) defines

    PROPERTY = "C01"
    RULE = "how cases are made, what makes one non-trivial"
    SUITES = [Suite(name, func, quick=N, thorough=M), ...]
    REACH = {"event name": minimum count, ...}      # per run, else inconclusive

and every `func(case)` draws one workload from `case.rng`, drives the real code through
its public interface, and lets oracles judge the recorded events through `case.*`.

Verdicts are three-valued: 0 held on what was observed, 1 violated (with replay file),
2 inconclusive (monitor not reached, environment trouble) -- never folded together.
"""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import zlib
from collections import Counter
from dataclasses import dataclass, field
from pathlib import Path
from typing import Callable

import numpy as np

from . import hints

ROOT = Path(__file__).resolve().parent.parent
OUT = ROOT / "out"
REPO = Path("/repo")


class Violation(Exception):
    """The observed execution refutes the property."""

    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}


class Skip(Exception):
    """The generated case is outside the domain the oracle can judge."""


class Inconclusive(Exception):
    """The monitor could not observe what it needs (environment, not the code)."""


@dataclass
class Suite:
    name: str
    func: Callable
    quick: int
    thorough: int


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:80]
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return f"{x.real:.17g}{x.imag:+.17g}j"
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return {
                "array": list(x.shape),
                "head": [jsonable(v, depth + 1) for v in x.ravel()[:6]],
            }
        return [jsonable(v, depth + 1) for v in x] if x.ndim else jsonable(x.item())
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:200]


class Known:
    """known_findings.txt: `known: property=C14 key=<mechanism> <text>` lines suppress
    exactly the mechanism a classifier names; `fixed:` lines suppress nothing."""

    def __init__(self, prop):
        self.listed = {}
        path = ROOT / "known_findings.txt"
        if path.exists():
            for line in path.read_text().splitlines():
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                parts = line[len("known: "):].split(" ", 2)
                if len(parts) == 3 and parts[0] == f"property={prop}":
                    self.listed[parts[1].removeprefix("key=")] = parts[2]


class Case:
    """One workload: its own random stream, its recorded events and its verdict."""

    def __init__(self, prop, suite, index, seed, tier, known):
        self.prop, self.suite, self.index, self.seed = prop, suite, index, seed
        self.tier = tier
        self.rng = hints.Rng([seed & 0xFFFFFFFF, zlib.crc32(f"{prop}/{suite}".encode()), index])
        self.events = Counter()
        self.desc = {}
        self.known_hits = Counter()
        self._known = known
        self.nontrivial = False
        self.worst = 0.0

    # -- recording ---------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def describe(self, **kw):
        self.desc.update(kw)
        self.nontrivial = True

    # -- judging -----------------------------------------------------------
    def fail(self, what, **detail):
        raise Violation(what, detail)

    def known(self, key, what, **detail):
        """A classifier recognised the mechanism `key`: listed -> known finding."""
        if key in self._known.listed:
            self.known_hits[key] += 1
            return
        raise Violation(f"[{key}] {what}", detail)

    def check(self, cond, what, **detail):
        self.event("oracle decisions")
        if not cond:
            raise Violation(what, detail)

    def close(self, got, want, what, rtol=1e-9, atol=1e-11, **detail):
        """got == want within atol + rtol*max|want| (elementwise against a scale)."""
        self.event("oracle decisions")
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            try:
                g, w = np.broadcast_arrays(g, w)
                same = False
            except ValueError:
                same = None
            if same is None or "shape" in detail:
                raise Violation(
                    f"{what}: shape {np.shape(got)} instead of {np.shape(want)}", detail
                )
        if g.dtype == object:
            g = g.astype(complex)
        scale = np.abs(w)
        err = np.abs(g - w)
        bad = ~(err <= atol + rtol * scale)
        if bad.any():
            k = np.unravel_index(
                int(np.argmax(np.where(np.isfinite(err), err, np.inf))), err.shape
            )
            raise Violation(
                f"{what}: got {jsonable(g[k])} expected {jsonable(w[k])} at index {list(map(int, k))}",
                {**detail, "abs_err": jsonable(err[k]), "rtol": rtol, "atol": atol},
            )
        with np.errstate(all="ignore"):
            if err.size:
                self.worst = max(self.worst, float(np.max(err / (atol + rtol * scale))))

    def shape(self, arr, shape, what):
        self.event("oracle decisions")
        if tuple(np.shape(arr)) != tuple(shape):
            raise Violation(f"{what}: shape {np.shape(arr)} instead of {tuple(shape)}")

    def raises(self, exc, func, what):
        """func() must raise one of exc."""
        self.event("oracle decisions")
        try:
            got = func()
        except exc:
            return
        except Exception as e:  # pylint: disable=broad-except
            raise Violation(
                f"{what}: raised {type(e).__name__} ({e}) instead of {exc}"
            ) from e
        raise Violation(f"{what}: accepted, returned {repr(got)[:200]}")


def run_case(prop, suite, index, seed, tier, known):
    case = Case(prop, suite.name, index, seed, tier, known)
    rec = {"suite": suite.name, "index": index}
    state = np.geterr()
    try:
        suite.func(case)
        rec["verdict"] = "held"
    except Skip:
        rec["verdict"] = "skip"
    except Inconclusive as e:
        rec["verdict"] = "inconclusive"
        rec["what"] = str(e)
    except Violation as e:
        rec["verdict"] = "violated"
        rec["what"] = e.what
        rec["detail"] = jsonable(e.detail)
    except MemoryError as e:
        rec["verdict"] = "inconclusive"
        rec["what"] = f"MemoryError {e}"
    except (Exception, RecursionError) as e:  # pylint: disable=broad-except
        tb = traceback.format_exc()
        from_repo = str(REPO) in tb or "/elli/" in tb
        if isinstance(e, OSError) and not from_repo:
            rec["verdict"] = "inconclusive"
        else:
            # A workload of valid operations ended in an exception, or what the code
            # returned could not be interpreted by the oracle.
            rec["verdict"] = "violated"
        rec["what"] = f"unexpected {type(e).__name__}: {str(e)[:300]}"
        rec["detail"] = {"traceback": tb[-3000:]}
    finally:
        np.seterr(**state)
    rec["events"] = dict(case.events)
    rec["known"] = dict(case.known_hits)
    rec["desc"] = jsonable(case.desc)
    rec["nontrivial"] = case.nontrivial
    rec["worst"] = case.worst
    rec["sig"] = hashlib.sha1(
        json.dumps([suite.name, rec["desc"]], sort_keys=True).encode()
    ).hexdigest()[:16]
    return rec


def _shard(args):
    module, plan, seed, tier, deadline = args
    known = Known(module.PROPERTY)
    out = []
    suites = {s.name: s for s in module.SUITES}
    for name, idx in plan:
        if time.monotonic() > deadline:
            out.append({"verdict": "unrun"})
            continue
        out.append(run_case(module.PROPERTY, suites[name], idx, seed, tier, known))
    return out


_MODULE = None


def _shard_entry(args):
    return _shard((_MODULE, *args))


def interleave(suites, tier):
    """Round-robin over suites so that an early stop still touches every one."""
    counts = {s.name: (s.quick if tier == "quick" else s.thorough) for s in suites}
    plan = []
    for name, n in counts.items():
        plan += [((i + 0.5) / n, name, i) for i in range(n)]
    plan.sort()
    return [(name, i) for _, name, i in plan]


def run(module, tier, seed, jobs=None):
    global _MODULE
    t0 = time.monotonic()
    prop = module.PROPERTY
    plan = interleave(module.SUITES, tier)
    budget = float(os.environ.get("VERIF_BUDGET", "400" if tier == "quick" else "780"))
    deadline = t0 + budget
    if jobs is None:
        jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(
            getattr(module, "JOBS", 6), os.cpu_count() or 1
        )
    records = []
    if jobs <= 1:
        records = _shard((module, plan, seed, tier, deadline))
    else:
        _MODULE = module
        chunks = [plan[i::jobs] for i in range(jobs)]
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs) as pool:
            res = pool.map_async(
                _shard_entry, [(c, seed, tier, deadline) for c in chunks], chunksize=1
            )
            try:
                parts = res.get(timeout=budget + 120)
            except mp.TimeoutError:
                pool.terminate()
                print("INCONCLUSIVE: watchdog expired", file=sys.stderr)
                return 2
        for p in parts:
            records += p
    return finish(module, tier, seed, records, len(plan), time.monotonic() - t0)


def finish(module, tier, seed, records, planned, wall):
    prop = module.PROPERTY
    known = Known(prop)
    events, verdicts, khits = Counter(), Counter(), Counter()
    sigs, samples, violations = set(), [], []
    suites = Counter()
    worst = 0.0
    order = {"violated": 0}
    for r in sorted(records, key=lambda r: order.get(r["verdict"], 1)):
        verdicts[r["verdict"]] += 1
        if r["verdict"] == "unrun":
            continue
        events.update(r["events"])
        khits.update(r["known"])
        suites[r["suite"]] += 1
        if r["verdict"] == "violated":
            violations.append(r)
        elif r["verdict"] == "held":
            worst = max(worst, r["worst"])
            if r["nontrivial"]:
                sigs.add(r["sig"])
                if len([s for s in samples if s["suite"] == r["suite"]]) < 2:
                    samples.append({"suite": r["suite"], "index": r["index"], **r["desc"]})
    ran = sum(suites.values())

    OUT.mkdir(exist_ok=True)
    seen, printed = set(), 0
    for v in violations:
        key = (v["suite"], v["what"][:60])
        if key in seen:
            continue
        seen.add(key)
        if printed >= 5:
            break
        printed += 1
        path = OUT / f"replay-{prop}-{v['suite']}-{v['index']}-{seed}.json"
        path.write_text(
            json.dumps(
                {
                    "property": prop, "suite": v["suite"], "index": v["index"],
                    "seed": seed, "tier": tier, "what": v["what"],
                    "detail": v.get("detail"), "case": v["desc"],
                },
                indent=1, ensure_ascii=False,
            )
        )
        print(f"  {v['suite']}[{v['index']}]: {v['what']}")
        print(f"VIOLATION property={prop} replay={path}")

    for key, n in sorted(khits.items()):
        print(f"KNOWN-FINDING: property={prop} {known.listed.get(key, key)} (observed {n}x)")

    short = {
        k: (events.get(k, 0), n)
        for k, n in getattr(module, "REACH", {}).items()
        if events.get(k, 0) < n
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(sigs),
            "rule": module.RULE,
            "samples": samples[:12],
            "planned": planned,
            "cases_per_suite": dict(suites),
            "verdicts": dict(verdicts),
            "events_observed": dict(sorted(events.items())),
            "known_findings_observed": dict(khits),
            "worst_error_over_tolerance": worst,
            "reach_shortfall": {k: list(v) for k, v in short.items()},
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    ev = ROOT / "evidence"
    ev.mkdir(exist_ok=True)
    (ev / f"{prop}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False))
    print(
        f"{prop} {tier} seed={seed}: {ran}/{planned} workloads, "
        f"{events.get('oracle decisions', 0)} oracle decisions, {len(sigs)} distinct, "
        f"{len(violations)} violated, skipped {verdicts.get('skip', 0)}, "
        f"worst err/tol {worst:.3g}, {wall:.1f}s"
    )
    if violations:
        return 1
    inconclusive = [r for r in records if r["verdict"] == "inconclusive"]
    if inconclusive:
        print("INCONCLUSIVE:", inconclusive[0].get("what"), file=sys.stderr)
        return 2
    if ran < 0.5 * planned or short or not sigs:
        print(f"INCONCLUSIVE: monitor not reached often enough: {short}", file=sys.stderr)
        return 2
    return 0


def replay(module, path):
    info = json.loads(Path(path).read_text())
    suites = {s.name: s for s in module.SUITES}
    rec = run_case(
        module.PROPERTY, suites[info["suite"]], info["index"], info["seed"],
        info.get("tier", "quick"), Known(module.PROPERTY),
    )
    print(json.dumps(rec, indent=1, ensure_ascii=False))
    if rec["verdict"] == "violated":
        print(f"VIOLATION property={module.PROPERTY} replay={path}")
        return 1
    return 0 if rec["verdict"] in ("held", "skip") else 2
