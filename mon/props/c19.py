"""C19: NeXus measurements and materials are imported faithfully."""
import gc

import h5py
import numpy as np
import pandas as pd

import elli
from elli.importer.nexus import NexusGroupNames
from ..core import Skip, Suite
from ..ref import disp as rd
from . import c17
from .c18 import Scratch, same_angle, judge_rho

PROPERTY = "C19"
RULE = (
    "NeXus files of both definitions written from random ledgers (1-6 angles, 1-200 wavelengths in any order, length "
    "units, data types, group names) and read back value by value; material files with 1-3 entries of 1-3 axes, each "
    "a sum of random formulas (own evaluator) and a table over wavelength or energy, evaluated after the file is gone; "
    "unsupported contents must raise"
)
ASSUMPTIONS = ["wavelengths of measurements without a unit are in angstrom", "the unit of a formula axis is given as one unit",
               "sums of index terms add the indices"]
REACH = {"files": 300, "records": 10000, "formula terms": 300, "table terms": 100, "tensors": 300, "refused": 150,
         "axes 1": 30, "axes 2": 30, "axes 3": 30}

LENGTH = {"angstrom": 0.1, "Angstroms": 0.1, "nm": 1.0, "nanometer": 1.0, "micrometer": 1e3, "m": 1e9, "um": 1e3, "Å": 0.1, "meter": 1e9}


def text(g, name, value):
    g.create_dataset(name, data=value)


def s_measure(case):
    rng = case.rng
    legacy = bool(case.index % 2)
    nang, n = rng.size_of([1, 2, 3, 6], 20), rng.size_of([1, 2, 7, 60, 200], 1500)
    aois = rng.permutation(np.arange(10, 90))[:nang].astype(float)
    if rng.random() < 0.6:
        aois = np.sort(aois)
    if rng.random() < 0.4:
        aois = aois + 0.05
    wl = np.unique(np.round(rng.uniform(190, 2500, n), 2))
    wl = [wl, wl[::-1], rng.permutation(wl)][rng.choice(3, p=[0.6, 0.25, 0.15])]
    n = len(wl)
    unit = None if rng.random() < 0.3 else list(LENGTH)[rng.integers(len(LENGTH))]
    stored = wl / (0.1 if unit is None else LENGTH[unit])
    psi = rng.uniform(0, 90, (nang, n))
    delta = rng.uniform(*[(-180, 180), (0, 360), (-90, 270)][rng.integers(3)], (nang, n))
    if rng.random() < 0.1:
        psi, delta = np.round(psi), np.round(delta)
    data = np.stack([psi, delta], axis=1)
    kind = [float, float, np.float32, ">f8"][rng.integers(4)]
    data = data.astype(kind)
    data64 = data.astype(float)
    entry, sample, inst = ["entry", "sample", "instrument"] if rng.random() < 0.4 else [
        ["entry", "entry1", "my entry", "Messung"][rng.integers(4)], ["sample", "sample_2", "Probe"][rng.integers(3)],
        ["instrument", "ellipsometer", "RC2"][rng.integers(3)]]
    case.describe(legacy=legacy, angles=aois, wavelengths=n, unit=unit, dtype=str(kind), names=[entry, sample, inst])
    case.event("files")
    with Scratch() as tmp:
        f = tmp / "m.nxs"
        with h5py.File(f, "w") as h:
            e = h.create_group(entry)
            i = e.create_group(inst)
            e.create_group(sample).create_dataset("name", data="x")
            i.create_dataset("angle_of_incidence", data=aois.astype(int) if (aois == aois.astype(int)).all() and rng.random() < 0.5 else aois)
            if legacy:
                w = i.create_group("spectrometer").create_dataset("wavelength", data=stored)
                text(e[sample], "data_type", "psi/delta")
                e[sample].create_dataset("measured_data", data=data[None, None])
            else:
                c = e.create_group("data_collection")
                w = c.create_dataset("wavelength_spectrum", data=stored)
                text(c, "data_type", "Psi/Delta")
                c.create_dataset("measured_data", data=data)
                c.create_dataset("data_error", data=data * 0.01)
            if unit is not None:
                w.attrs["units"] = unit if rng.random() < 0.8 else np.bytes_(unit.encode("utf-8"))
            elif rng.random() < 0.3:
                w.attrs["units"] = "NOT_PROVIDED"
            if rng.random() < 0.3:  # an unrelated second entry
                h.create_group("zz").create_dataset("data_type", data="mueller")
        default = [entry, sample, inst] == ["entry", "sample", "instrument"]
        gn = None if default and rng.random() < 0.5 else NexusGroupNames(entry=entry, sample=sample, instrument=inst)
        args = (f if rng.random() < 0.5 else str(f),) + ((gn,) if gn is not None or rng.random() < 0.3 else ())
        df = elli.read_nexus_psi_delta(*args)
        rho = elli.read_nexus_rho(str(f)) if default else None
        gc.collect()
        with h5py.File(f, "w") as h:  # the file is free again, and its new content has no effect
            h.create_group("other")
    case.check(isinstance(df, pd.DataFrame) and list(df.columns) == ["Ψ", "Δ"], "columns")
    case.check(list(df.index.names) == ["Angle of Incidence", "Wavelength"], "index names")
    case.check(len(df) == nang * n, f"{len(df)} records of {nang * n}")
    a = np.asarray(df.index.get_level_values(0), dtype=float)
    x = np.asarray(df.index.get_level_values(1), dtype=float)
    P, D = df["Ψ"].to_numpy(dtype=float), df["Δ"].to_numpy(dtype=float)
    for j in range(nang):
        s = np.flatnonzero(np.abs(a - aois[j]) < 1e-9)
        case.check(len(s) == n, f"records of angle {aois[j]}: {len(s)}")
        o, k = np.argsort(x[s]), np.argsort(wl)
        case.close(x[s][o], wl[k], "wavelengths", rtol=1e-10)
        case.close(P[s][o], data64[j, 0][k], "psi", rtol=1e-13)
        case.check(bool((same_angle(D[s][o], data64[j, 1][k]) < 1e-9).all()), "delta", got=D[s][o], want=data64[j, 1][k])
        case.event("records", n)
    if rho is not None:
        judge_rho(case, rho, df, "read_nexus_rho")


def env_for(rng):
    env = c17.environment(rng)
    return env


def write_formula(case, rng, g, rep, lb, kinds):
    """Writes a formula term, returns (values, tolerance)."""
    for _ in range(20):
        env = env_for(rng)
        unit = [*c17.UNITS, *c17.ENERGY][1 + rng.integers(len(c17.UNITS) + len(c17.ENERGY) - 1)]
        try:
            t, unit, _, want, _ = c17.make(case, rng, env, int(rng.integers(1, 4)), unit=unit, at=lb)
        except Skip:
            continue
        v = np.array([x for x, _ in want])
        if np.abs(v).max() < 1e5:
            break
    else:
        raise Skip
    text(g, "formula", f"{rep} = {t}")
    text(g, "representation", rep)
    text(g, "wavelength_identifier", env["axis"])
    g.create_dataset("wavelength_unit", data=[1, 1.0][rng.integers(2)]).attrs["units"] = unit
    if rng.random() < 0.3:
        text(g, "convention", "n + ik")
    for k, x in env["single"].items():
        p = g.create_group(k if rng.random() < 0.7 else f"param_{k}")
        p.attrs["NX_class"] = "NXdispersion_single_parameter"
        text(p, "name", k)
        p.create_dataset("value", data=x).attrs["units"] = ""
    for k, x in env["rep"].items():
        p = g.create_group(k if rng.random() < 0.7 else f"param_{k}")
        p.attrs["NX_class"] = "NXdispersion_repeated_parameter"
        text(p, "name", k)
        p.create_dataset("values", data=np.array(x))
    tol = 4 * np.array([e for _, e in want]) + 1e-13 * np.abs(v) + 1e-15
    case.event("formula terms")
    kinds.append(f"{rep}={t} [{unit}] {env}")
    return v, tol


def write_table(case, rng, g, rep, lb, kinds, unit=None):
    """Writes a table with nodes at the even wavelengths of lb and others linearly between them."""
    energy = rng.random() < 0.3
    lo, hi = lb.min(), lb.max()
    extra = rng.uniform(lo - 40, hi + 40, rng.size_of([0, 3, 40], 1000, 0))
    nodes = np.unique(np.concatenate([[lo - 50, hi + 50], extra, lb] if energy else [[lo - 50, hi + 50], extra, lb[::2]]))
    vals = rng.uniform(1, 4, len(nodes)) + (1j * rng.uniform(0, 3, len(nodes)) if rng.random() < 0.7 else 0)
    want = np.interp(lb, nodes, np.real(vals)) + 1j * np.interp(lb, nodes, np.imag(vals))
    scale = {None: 1, "nanometer": 1, "micrometer": 1e-3, "angstrom": 10}[unit]
    axis, o = (rd.HC / nodes, slice(None)) if energy else (nodes * scale, slice(None))
    order = rng.permutation(len(nodes)) if rng.random() < 0.15 else np.arange(len(nodes))[:: -1 if rng.random() < 0.3 else 1]
    d = g.create_dataset("energy" if energy else "wavelength", data=axis[order])
    if energy:
        d.attrs["units"] = "eV"
    elif unit is not None:
        d.attrs["units"] = unit
    g.create_dataset("refractive_index" if rep == "n" else "dielectric_function", data=vals[order])
    case.event("table terms")
    kinds.append(f"table {rep} over {'energy' if energy else 'wavelength'}, {len(nodes)} rows, unit {unit}")
    # the table over energies: own hc, interpolated over a slope
    slope = np.max(np.abs(np.diff(vals)) / np.diff(nodes))
    return want, 1e-12 * np.abs(want) + (slope * lb * 2e-9 if energy else slope * lb * 1e-14) + 1e-14, energy


def distract(rng, g):
    if rng.random() < 0.5:
        p = g.create_group("plot")
        p.attrs["NX_class"] = "NXdata"
        p.create_dataset("wavelength", data=np.ones(4))
        p.create_dataset("refractive_index", data=np.ones(4))
    if rng.random() < 0.4:
        text(g, "model_name", "Table")
        g.create_group("reference")["text"] = "x"


def write_axis(case, rng, g, lb, kinds, table_unit=None):
    """A dispersion group; returns the permittivity at lb with its tolerance."""
    rep = ["eps", "n"][rng.integers(2)]
    g.attrs["NX_class"] = "NXdispersion"
    n = rng.size_of([1, 1, 2, 3], 6)
    at = int(rng.integers(n)) if (rng.random() < 0.5 or table_unit) else -1
    names = [["sellmeier", "a_term", "z_term", "dispersion_table_nk", "M1", "cauchy"][i] for i in rng.permutation(6)[:n]]
    tot, tol = 0, 0
    energy = False
    raw = []
    for k in range(n):
        c = g.create_group(names[k])
        if k == at:
            c.attrs["NX_class"] = "NXdispersion_table"
            v, t, energy = write_table(case, rng, c, rep, lb, kinds, table_unit)
        else:
            c.attrs["NX_class"] = "NXdispersion_function"
            v, t = write_formula(case, rng, c, rep, lb, kinds)
        tot, tol = tot + v, tol + t
    distract(rng, g)
    return finish(rep, tot, tol)


def sibling(rng, h, src, dst, last, kinds):
    """The axis dst as a copy of src which differs in one place, or not at all."""
    h.copy(src, dst, h)
    g = h[dst]
    terms = [c for c in g.values() if c.attrs.get("NX_class") in ("NXdispersion_table", "NXdispersion_function")]
    c = terms[rng.integers(len(terms))]
    shift = float(rng.uniform(0.05, 0.8))
    how = "copied"
    if rng.random() < 0.8:
        if c.attrs["NX_class"] == "NXdispersion_table":
            k = "refractive_index" if "refractive_index" in c else "dielectric_function"
            c[k][...] = c[k][()] + shift
            how = "table values"
        else:
            rep, t = c["formula"][()].decode().split(" = ")
            del c["formula"]
            if "offset_1" in c or rng.random() < 0.5:
                text(c, "formula", f"{rep} = ({t}) + {shift!r}")
                how = "formula"
            else:
                text(c, "formula", f"{rep} = ({t}) + offset_1")
                p = c.create_group("offset_1")
                p.attrs["NX_class"] = "NXdispersion_single_parameter"
                text(p, "name", "offset_1")
                p.create_dataset("value", data=shift)
                how = "parameter"
    else:
        shift = 0.0
    kinds.append(f"{dst[-1]} copied from {src[-1]}, other {how} {shift}")
    _, _, rep, tot, t0 = last
    return finish(rep, tot + shift, t0)


def finish(rep, tot, tol0):
    big = np.abs(tot)
    tol = tol0 + 1e-14 * big
    tail = (rep, tot, tol0)
    if rep == "n":
        return (tot**2, tol * (2 * big + tol) + 1e-13 * big**2, *tail)
    return (tot, tol, *tail)


def s_material(case):
    rng = case.rng
    lb = np.sort(rng.uniform(250, 1200, 3))
    if np.diff(lb).min() < 1:
        raise Skip
    kinds, want = [], {}
    with Scratch() as tmp:
        f = tmp / "mat.nxs"
        with h5py.File(f, "w") as h:
            for e in [["entry", "entry1", "a", "Zinc oxide", "SiO2"][i] for i in rng.permutation(5)[: int(rng.choice([1, 1, 2, 3]))]]:
                g = h.create_group(e)
                g.attrs["NX_class"] = "NXentry"
                axes = ["x", "xz", "xyz"][(case.index + len(want)) % 3]
                case.event(f"axes {len(axes)}")
                want[e] = {}
                for a in axes:
                    if want[e] and rng.random() < 0.35:
                        b = list(want[e])[rng.integers(len(want[e]))]
                        want[e][a] = sibling(rng, h, f"{e}/dispersion_{b}", f"{e}/dispersion_{a}", want[e][b], kinds)
                        case.event("axes alike")
                    else:
                        want[e][a] = write_axis(case, rng, g.create_group(f"dispersion_{a}"), lb, kinds,
                                                None if rng.random() < 0.6 else "nanometer")
                if rng.random() < 0.4:
                    s = g.create_group("sample")
                    s.attrs["NX_class"] = "NXsample"
                    text(s, "chemical_formula", "Si")
        case.event("files")
        case.describe(lbda=lb, terms=kinds)
        mats = elli.read_nexus_materials(str(f) if rng.random() < 0.5 else f)
        gc.collect()
        with h5py.File(f, "w") as h:
            h.create_group("other")
    case.check(set(mats) == set(want), f"entries {list(mats)}")
    for e in rng.permutation(list(want)):
        w, m = want[e], mats[e]
        kind = {1: elli.IsotropicMaterial, 2: elli.UniaxialMaterial, 3: elli.BiaxialMaterial}[len(w)]
        case.check(type(m) is kind, f"{e} is a {type(m).__name__}")
        vx, vy, vz = {1: "xxx", 2: "xxz", 3: "xyz"}[len(w)]
        p = rng.permutation(3)
        t = m.get_tensor(lb[p])
        case.check(t.shape == (3, 3, 3), f"shape {t.shape}")
        ref = np.zeros((3, 3, 3), dtype=complex)
        tol = np.full((3, 3, 3), 1e-300)
        for j, a in enumerate((vx, vy, vz)):
            ref[:, j, j], tol[:, j, j] = w[a][0][p], w[a][1][p]
        case.event("tensors", 3)
        r = np.abs(t - ref) / tol
        case.worst = max(case.worst, float(r.max()))
        case.check(bool((r <= 1).all()), f"tensor of {e}", got=t, want=ref, tolerance=tol)
        i = int(rng.integers(3))
        t1 = np.reshape(m.get_tensor(float(lb[i])), (3, 3))
        k = int(np.flatnonzero(p == i)[0])
        case.check(bool((np.abs(t1 - ref[k]) <= tol[k]).all()), f"tensor of {e} at one wavelength", got=t1, want=ref[k])


def s_table_units(case):
    """Tables over wavelengths in other units than nm."""
    rng = case.rng
    lb = np.sort(rng.uniform(250, 1200, 3))
    if np.diff(lb).min() < 1:
        raise Skip
    unit = ["micrometer", "angstrom"][rng.integers(2)]
    rep = ["eps", "n"][rng.integers(2)]
    kinds = []
    with Scratch() as tmp:
        f = tmp / "mat.nxs"
        with h5py.File(f, "w") as h:
            g = h.create_group("entry").create_group("dispersion_x")
            c = g.create_group("table")
            c.attrs["NX_class"] = "NXdispersion_table"
            want, tol, energy = write_table(case, rng, c, rep, lb, kinds, unit)
        case.event("files")
        case.describe(lbda=lb, terms=kinds)
        m = elli.read_nexus_materials(f)["entry"]
    scale = {"micrometer": 1e-3, "angstrom": 10}[unit]
    w, tol = (want**2, tol * (2 * np.abs(want) + tol) + 1e-13 * np.abs(want) ** 2) if rep == "n" else (want, tol)

    def matches(x):
        try:
            return bool((np.abs(m.get_tensor(x)[:, 0, 0] - w) <= 1.5 * tol).all())
        except ValueError:
            return False
    case.event("tensors", 3)
    if matches(lb):
        return
    if not energy and matches(lb * scale):
        case.known("table-units", "wavelengths of a material table are taken as nm whatever their unit attribute says")
        return
    case.fail("table in another unit", got=m.get_tensor(lb * scale)[:, 0, 0], want=w)


def s_refuse(case):
    rng = case.rng
    lb = np.array([400.0, 500.0, 600.0])

    def func(g, rep="eps", formula=None, **kw):
        g.attrs["NX_class"] = "NXdispersion_function"
        d = {"formula": formula or f"{rep} = 2 + 0 * lbda", "representation": rep, "wavelength_identifier": "lbda", **kw}
        for k, v in d.items():
            if v is not None:
                text(g, k, v)
        g.create_dataset("wavelength_unit", data=1).attrs["units"] = "nanometer"
        return g

    def table(g, **kw):
        g.attrs["NX_class"] = "NXdispersion_table"
        d = {"wavelength": np.linspace(300, 800, 6), "refractive_index": np.ones(6) * 1.5, **kw}
        for k, v in d.items():
            if v is not None:
                g.create_dataset(k, data=v)

    def rep_par(g, name, n):
        p = g.create_group(name)
        p.attrs["NX_class"] = "NXdispersion_repeated_parameter"
        text(p, "name", name)
        p.create_dataset("values", data=np.ones(n))

    def ax(e, a="x"):
        return e.create_group(f"dispersion_{a}")

    def two_rep(e):
        g = func(ax(e).create_group("f"), formula="eps = sum[A * B]")
        rep_par(g, "A", 2)
        rep_par(g, "B", 3)

    def mixed(e):
        g = ax(e)
        func(g.create_group("a"))
        func(g.create_group("b"), rep="n")

    def mixed_table(e):
        g = ax(e)
        names = ["a", "b"] if rng.random() < 0.5 else ["b", "a"]
        func(g.create_group(names[0]))
        table(g.create_group(names[1]))

    def two_tables(e):
        g = ax(e)
        table(g.create_group("a"))
        table(g.create_group("b"))

    def energy_id(e):
        g = func(ax(e).create_group("a"))
        text(g, "energy_identifier", "E")

    cases = {
        "energy formula": (energy_id, NotImplementedError),
        "two tables": (two_tables, NotImplementedError),
        "eps and n terms": (mixed, TypeError),
        "eps formula and n table": (mixed_table, TypeError),
        "no x dispersion": (lambda e: func(ax(e, "z").create_group("a")), ValueError),
        "no dispersion at all": (lambda e: text(e, "title", "x"), ValueError),
        "x and y only": (lambda e: (func(ax(e).create_group("a")), func(ax(e, "y").create_group("a"))), Exception),
        "unknown representation": (lambda e: func(ax(e).create_group("a"), rep="mu"), ValueError),
        "representation of another formula": (lambda e: func(ax(e).create_group("a"), rep="eps", formula="n = 2"), ValueError),
        "unknown parameter": (lambda e: func(ax(e).create_group("a"), formula="eps = 2 * unknown"), Exception),
        "malformed formula": (lambda e: func(ax(e).create_group("a"), formula="eps = 2 * ("), Exception),
        "no formula": (lambda e: func(ax(e).create_group("a"), formula="eps = 1").__delitem__("formula"), Exception),
        "unequal repeated parameters": (two_rep, ValueError),
        "table without axis": (lambda e: table(ax(e).create_group("a"), wavelength=None), ValueError),
        "table without values": (lambda e: table(ax(e).create_group("a"), refractive_index=None), ValueError),
        "unequal table": (lambda e: table(ax(e).create_group("a"), refractive_index=np.ones(5)), Exception),
        "empty dispersion": (lambda e: text(ax(e), "model_name", "x"), Exception),
        "unknown class": (lambda e: func(ax(e).create_group("a")).attrs.__setitem__("NX_class", "NXdispersion_magic"), Exception),
    }
    name = list(cases)[case.index % len(cases)]
    build, exc = cases[name]
    case.describe(content=name)
    with Scratch() as tmp:
        f = tmp / "m.nxs"
        with h5py.File(f, "w") as h:
            if rng.random() < 0.4:
                func(ax(h.create_group("good")).create_group("a"))
            build(h.create_group("entry"))
        case.event("files")
        case.event("refused")

        def use():
            m = elli.read_nexus_materials(f)
            return {k: v.get_tensor(lb) for k, v in m.items()}
        case.raises(exc, use, f"material file with {name}")

        # measurements
        kinds = ["Mueller matrix", "psi / delta", "PSI/DELTA", "Jones matrix", "rho", "", None]
        kind = kinds[case.index % len(kinds)]
        where = ["sample", "data_collection"][rng.integers(2)]
        f = tmp / "d.nxs"
        data = rng.uniform(0, 90, (1, 2, 3))
        with h5py.File(f, "w") as h:
            e = h.create_group("entry")
            i = e.create_group("instrument")
            i.create_dataset("angle_of_incidence", data=[70.0])
            i.create_group("spectrometer").create_dataset("wavelength", data=[4000.0, 5000.0, 6000.0])
            c = e.create_group("data_collection")
            s = e.create_group("sample")
            c.create_dataset("wavelength_spectrum", data=[4000.0, 5000.0, 6000.0])
            c.create_dataset("measured_data", data=data)
            s.create_dataset("measured_data", data=data[None, None])
            if kind is not None:
                text(e[where], "data_type", kind)
        case.event("files")
        for fn in (elli.read_nexus_psi_delta, elli.read_nexus_rho):
            case.event("refused")
            case.raises(ValueError if kind is None else NotImplementedError, lambda fn=fn: fn(f), f"{fn.__name__} of data type {kind}")
        with h5py.File(f, "a") as h:
            for w in ("sample", "data_collection"):
                if "data_type" in h["entry"][w]:
                    del h["entry"][w]["data_type"]
            text(h["entry/data_collection"], "data_type", "Psi/Delta")
        df = elli.read_nexus_psi_delta(f)
        case.close(df["Ψ"].to_numpy(), data[0, 0], "psi", rtol=1e-13)
        for g in ("entry", {"entry": "entry"}, ("entry", "sample", "instrument"), 1):
            case.event("refused")
            case.raises(ValueError, lambda g=g: elli.read_nexus_psi_delta(f, g), f"group names {g!r}")
        case.event("refused")
        case.raises(ValueError, lambda: elli.read_nexus_psi_delta(f, NexusGroupNames(entry="no_entry")), "an entry which does not exist")
        case.raises(OSError, lambda: elli.read_nexus_psi_delta(tmp / "none.nxs"), "a missing file")


SUITES = [
    Suite("measure", s_measure, 600, 9000),
    Suite("material", s_material, 900, 12000),
    Suite("table_units", s_table_units, 60, 2000),
    Suite("refuse", s_refuse, 126, 2520),
]
