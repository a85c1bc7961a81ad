"""C18: instrument files are imported without altering the data."""
import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

import elli
from ..core import Suite
from ..ref import disp as rd

PROPERTY = "C18"
RULE = (
    "files of every supported format written from a ledger of records (1-6 angles, 1-200 wavelengths, any row "
    "order, units, number formats, line endings, encodings, header texts, extra record types and columns), read "
    "back and compared record by record; rho readers against psi/delta readers; foreign and damaged files"
)
ASSUMPTIONS = ["one value per angle and wavelength; header texts in UTF-8 or Latin-1"]
REACH = {"files": 500, "records": 10000, "refused files": 150, "format wvase": 60, "format complete ease": 60, "format spectraray": 60,
         "format accurion": 60, "format mueller": 40, "format table": 40}

HEADERS = ["2nm SiO2 on Si on RC2", "sample no. 12, 3.5 V", "Probe Übergröße 25 µm, 20 °C", "", "E1", "Zeit 12:30", "VASEmethod[EllipsometerType=4 , x=6.37]",
           "Original[glas_e1.dat]", "a\tb\tc", "1.0", "nm", "#comment; 5", "dpolE", "12 34"]


def num(rng, x, style=None):
    """(text, value the text stands for)"""
    s = rng.integers(6) if style is None else style
    t = [f"{x:.6f}", f"{x:.6g}", f"{x:.3f}", f"{x:.7f}", f"{x:.2f}", f"{x:.9g}"][s]
    return t, float(t)


def records(rng, unit_range):
    """aoi, spectral value texts and a grid or scattered set of (aoi, x)."""
    nang, nx = rng.size_of([1, 1, 2, 3, 6], 20), rng.size_of([1, 2, 3, 5, 20, 120], 1500)
    aois = []
    while len(aois) < nang:
        a = round(float(rng.uniform(15, 89)), int(rng.integers(0, 5)))
        if all(abs(a - b) > 1e-3 for b in aois):
            aois.append(a)
    lo, hi = unit_range
    dec = 6 if hi < 20 else 4 if hi < 100 else 3
    xs = np.unique(np.round(rng.uniform(lo, hi, nx), dec))
    keys = [(a, float(x)) for a in aois for x in xs]
    return aois, xs, keys


def values(rng):
    psi = float(rng.uniform(-5, 90) if rng.random() < 0.1 else rng.uniform(0, 90))
    u = rng.integers(5)
    delta = float([rng.uniform(-180, 180), rng.uniform(0, 360), rng.uniform(-90, 270), rng.uniform(-0.01, 0.01), rng.choice([-180, 180, 0, 90])][u])
    return psi, delta


def same_angle(a, b):
    d = (np.asarray(a) - np.asarray(b)) / 360
    return np.abs(d - np.round(d)) * 360


class Scratch:
    def __enter__(self):
        base = os.environ.get("ELLI_MON_SCRATCH")
        self.t = tempfile.TemporaryDirectory(dir=base)
        return Path(self.t.name)

    def __exit__(self, *a):
        self.t.cleanup()


def put(case, path, text, encoding, crlf=False):
    if crlf:
        text = text.replace("\n", "\r\n")
    path.write_bytes(text.encode(encoding))
    return path.read_bytes()


def judge(case, df, want, what, wl_tol=1e-9):
    """df indexed by (angle, wavelength) holds exactly the records of `want`."""
    case.check(isinstance(df, pd.DataFrame), f"{what}: not a DataFrame")
    case.check(list(df.index.names) == ["Angle of Incidence", "Wavelength"], f"{what}: index {df.index.names}")
    case.check(set(df.columns) == {"Ψ", "Δ"} and df.shape == (len(want), 2), f"{what}: shape {df.shape}, columns {list(df.columns)}")
    ang = df.index.get_level_values(0).to_numpy()
    wl = df.index.get_level_values(1).to_numpy()
    case.check(ang.dtype.kind in "if" and wl.dtype.kind in "if", f"{what}: index of type {ang.dtype}, {wl.dtype}")
    psi, delta = df["Ψ"].to_numpy(), df["Δ"].to_numpy()
    case.check(psi.dtype.kind in "if" and delta.dtype.kind in "if", f"{what}: data of type {psi.dtype}, {delta.dtype}")
    pairs = want.items() if isinstance(want, dict) else want
    k = np.array([(a, w, p, d) for (a, w), (p, d) in pairs])
    # repeated measurements of a point (regions of interest) stay records of their own, in any order
    if isinstance(want, dict):
        o1, o2 = np.lexsort((np.round(wl, 7), ang)), np.lexsort((np.round(k[:, 1], 7), k[:, 0]))
    else:
        o1, o2 = np.lexsort((psi, np.round(wl, 7), ang)), np.lexsort((k[:, 2], np.round(k[:, 1], 7), k[:, 0]))
    case.event("records", len(want))
    case.check(np.array_equal(ang[o1], k[o2, 0]), f"{what}: angles", got=ang[o1], want=k[o2, 0])
    case.close(wl[o1] / k[o2, 1], np.ones(len(k)), f"{what}: wavelengths", rtol=0, atol=wl_tol, got_wl=wl[o1], want_wl=k[o2, 1])
    case.check(np.array_equal(psi[o1], k[o2, 2]), f"{what}: psi", got=psi[o1], want=k[o2, 2], angles=ang[o1], wl=wl[o1])
    bad = same_angle(delta[o1], k[o2, 3]) > 1e-9
    case.check(not bad.any(), f"{what}: delta", got=delta[o1][bad], want=k[o2, 3][bad])


def judge_rho(case, rho, df, what):
    case.check(rho.index.equals(df.index), f"{what}: index of rho")
    want = np.tan(np.deg2rad(df["Ψ"].to_numpy())) * np.exp(-1j * np.deg2rad(df["Δ"].to_numpy()))
    case.event("records", len(want))
    case.close(np.asarray(rho, complex).ravel(), want, f"{what}: rho", rtol=1e-12)


UNITS = {"nm": (lambda x: x, (190, 2500)), "Angstroms": (lambda x: x / 10, (1900, 25000)), "angstrom": (lambda x: x / 10, (1900, 25000)),
         "um": (lambda x: x * 1000, (0.2, 30)), "eV": (lambda x: rd.HC / x, (0.4, 6.5)), "1/cm": (lambda x: 1e7 / x, (300, 7000)),
         "micrometer": (lambda x: x * 1000, (0.2, 30)), "meV": (lambda x: rd.HC / x * 1000, (400, 6500))}


def encoding_of(rng, header):
    ascii_only = all(ord(c) < 128 for c in header)
    return ["utf-8", "utf-8-sig", "ascii" if ascii_only else "latin-1"][rng.integers(3)]


def s_woollam(case):
    rng = case.rng
    ease = bool(case.index % 2)
    unit = ["nm", "Angstroms", "eV", *UNITS][rng.integers(3 + len(UNITS))]
    conv, span = UNITS[unit]
    _, _, keys = records(rng, span)
    if rng.random() < 0.3:
        keys = [keys[i] for i in rng.permutation(len(keys))]
    elif rng.random() < 0.3:
        keys = keys[::-1]
    style = None if rng.random() < 0.5 else int(rng.integers(6))
    lines, want = [], {}
    extra = rng.random() < 0.5
    scattered = rng.random() < 0.3
    tail = []
    kinds = ["dpolE"] if not ease else ["dpolE", "Ts", "uRp", "dpolS", "AnE", "Asp"]
    for a, x in keys:
        p, d = values(rng)
        if ease and rng.random() < 0.8:
            style = 0
        (tp, p), (td, d) = num(rng, p, style), num(rng, d, style)
        te = [num(rng, float(10 ** rng.uniform(-6, 1)), style if rng.random() < 0.5 else 1)[0] for _ in range(2)]
        ta = f"{a:.6f}"
        tx = f"{x:.6f}"
        want[(float(ta), conv(float(tx)))] = (p, d)
        lines.append("\t".join((["E"] if ease else []) + [tx, ta, tp, td, *te]))
        if extra:
            k = kinds[rng.integers(len(kinds))]
            row = "\t".join([k, tx, ta] + [num(rng, float(rng.normal()), 0)[0] for _ in range(4 if ease else 2)])
            if scattered and len(lines) > 1:
                lines.append(row)
            else:
                tail.append(row)
    header = [HEADERS[rng.integers(len(HEADERS))] for _ in range(int(rng.integers(1, 4)))]
    text = "\n".join(header + [unit] + lines + tail) + ("\n" if rng.random() < 0.9 else "")
    enc = encoding_of(rng, text)
    crlf = rng.random() < 0.4
    what = "CompleteEASE file" if ease else "WVASE file"
    case.describe(format=what, unit=unit, header=header, first=lines[0], rows=len(keys), encoding=enc, crlf=crlf, extra=extra)
    case.event("format complete ease" if ease else "format wvase")
    case.event("files")
    with Scratch() as tmp:
        f = tmp / "data.dat"
        raw = put(case, f, text, enc, crlf)
        name = str(f) if rng.random() < 0.5 else f
        df = elli.read_woollam_psi_delta(name)
        judge(case, df, want, what)
        judge_rho(case, elli.read_woollam_rho(name), df, what)
        case.check(f.read_bytes() == raw, "the file was changed")


def s_spectraray(case):
    rng = case.rng
    aois, xs, _ = records(rng, (190, 2500))
    if rng.random() < 0.5:
        xs = xs[::-1] if rng.random() < 0.5 else xs[rng.permutation(len(xs))]
    sep, arg = [(" ", None), ("  ", r"\s+"), ("\t", "\t"), (" ", r"\s+"), (";", ";")][rng.integers(5)]
    dec = "," if rng.random() < 0.25 else "."
    trailing = rng.random() < 0.5
    head_sep = sep
    first = "; WAVELENGTH" if arg in (None, r"\s+") else f";{sep}WAVELENGTH" if sep == "\t" else f"#{sep}WAVELENGTH"
    header = first + "".join(head_sep + f"{a:.5f}" + head_sep + f"{a:.5f}" for a in aois)
    if trailing and arg is None:
        header += " "
    want, rows = {}, []
    style = int(rng.choice([0, 3, 2]))
    for x in xs:
        tx = f"{x:.5f}"
        row = [tx]
        for a in aois:
            p, d = values(rng)
            (tp, p), (td, d) = num(rng, p, style), num(rng, d, style)
            want[(float(f"{a:.5f}"), float(tx))] = (p, d)
            row += [tp, td]
        line = sep.join(row)
        rows.append(line.replace(".", dec) + (sep if trailing else ""))
    text = "\n".join([header, *rows]) + ("\n" if rng.random() < 0.9 else "")
    case.describe(format="SpectraRay", aois=aois, rows=len(xs), sep=sep, decimal=dec, trailing=trailing, header=header, first=rows[0])
    case.event("format spectraray")
    case.event("files")
    kw = {}
    if arg is not None:
        kw["sep"] = arg
    if dec != ".":
        kw["decimal"] = dec
    with Scratch() as tmp:
        f = tmp / "data.txt"
        raw = put(case, f, text, "utf-8", rng.random() < 0.4)
        name = str(f) if rng.random() < 0.5 else f
        args = (name,) if rng.random() < 0.7 or "sep" not in kw else (name, kw.pop("sep"))
        df = elli.read_spectraray_psi_delta(*args, **kw)
        judge(case, df, want, "SpectraRay file")
        d = df["Δ"].to_numpy()
        case.check(bool((d >= -180 - 1e-9).all() and (d <= 180 + 1e-9).all()), "delta outside -180..180")
        judge_rho(case, elli.read_spectraray_rho(*args, **kw), df, "SpectraRay file")
        case.check(f.read_bytes() == raw, "the file was changed")
        if len(xs) > 1 and len(set(xs)) == len(xs) and rng.random() < 0.15:
            # one value could not be measured: only this value is missing
            case.event("missing values")
            k, c = int(rng.integers(len(xs))), 1 + int(rng.integers(2 * len(aois)))
            cells = rows[k].split(sep)
            cells[c] = "NaN"
            rows[k] = sep.join(cells)
            put(case, f, "\n".join([header, *rows]) + "\n", "utf-8", False)
            got = elli.read_spectraray_psi_delta(*([str(f), *args[1:]]), **kw)
            ref = df.copy()
            at = (float(f"{aois[(c - 1) // 2]:.5f}"), float(f"{xs[k]:.5f}"))
            if df.index.is_unique and at in df.index:
                ref.loc[at, "Ψ" if c % 2 else "Δ"] = np.nan
                case.check(got.index.equals(ref.index) and list(got.columns) == list(ref.columns), "SpectraRay file with a missing value: rows", got=len(got), want=len(ref))
                case.check(np.array_equal(got.to_numpy(float), ref.to_numpy(float), equal_nan=True), "SpectraRay file with a missing value: values", at=at)


def s_accurion(case):
    rng = case.rng
    _, _, keys = records(rng, (190, 1100))
    keys = [keys[i] for i in rng.permutation(len(keys))] if rng.random() < 0.5 else keys
    cols = ["#ROIidx", "AOI", "Lambda", "Bandwidth", "ExposureTime", "ROI_x", "ROI_y", "Delta", "Psi"]
    units = ["#-", "deg", "nm", "nm", "us", "µm", "µm", "deg", "deg"]
    # the column units are read as one row of text, whatever their order
    perm = np.arange(len(cols)) if rng.random() < 0.6 else rng.permutation(len(cols))
    keep = [i for i in perm if cols[i] in ("AOI", "Lambda", "Delta", "Psi") or rng.random() < 0.9]
    want, rows = [], []
    # a measurement has one record per region of interest
    rois = int(rng.choice([1, 1, 1, 2, 3]))
    by_roi = rng.random() < 0.5
    points = [(r, a, x) for r in range(rois) for a, x in keys] if by_roi else [(r, a, x) for a, x in keys for r in range(rois)]
    case.event("regions of interest", rois)
    for r, a, x in points:
        p, d = values(rng)
        (ta, a), (tx, x) = num(rng, a, 0), num(rng, x, 2)
        (tp, p), (td, d) = num(rng, p, 0), num(rng, d, 0)
        want.append(((a, x), (p, d)))
        full = [str(r), ta, tx, "6.1", str(int(rng.integers(1000, 99999))), "417.6", "409.8", td, tp]
        rows.append("\t".join(full[i] for i in keep))
    text = "\n".join(["\t".join(cols[i] for i in keep), "\t".join(units[i] for i in keep), *rows]) + "\n"
    enc = ["latin-1", "utf-8", "utf-8-sig"][rng.integers(3)]
    case.describe(format="Accurion", rows=len(keys), columns=[cols[i] for i in keep], encoding=enc, first=rows[0])
    case.event("format accurion")
    case.event("files")
    with Scratch() as tmp:
        f = tmp / "m.ds.dat"
        raw = put(case, f, text, enc, rng.random() < 0.4)
        df = elli.read_accurion_psi_delta(str(f) if rng.random() < 0.5 else f)
        judge(case, df, want, "Accurion file")
        d = df["Δ"].to_numpy()
        case.check(bool((d >= -180 - 1e-9).all() and (d <= 180 + 1e-9).all()), "delta outside -180..180")
        case.check(f.read_bytes() == raw, "the file was changed")


def s_mueller(case):
    rng = case.rng
    n = rng.size_of([1, 2, 5, 60], 1500)
    lead = int(rng.integers(0, 6))
    sep, arg = [(" ", None), ("\t", "\t"), (" ", r"\s+"), (";", ";")][rng.integers(4)]
    dec = "," if rng.random() < 0.25 else "."
    wl = rng.permutation(np.round(rng.uniform(190, 2500, n), 4)) if rng.random() < 0.5 else np.sort(np.round(rng.uniform(190, 2500, n), 4))
    head = ["WAVELENGTH"] + [f"X{i}" for i in range(lead)] + [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)] + ["Depol"]
    data = np.round(rng.uniform(-1, 1, (n, lead + 17)), int(rng.choice([3, 5, 9])))
    rows = [sep.join([f"{w:.4f}"] + [repr(float(v)) for v in r]).replace(".", dec) for w, r in zip(wl, data)]
    case.describe(format="SpectraRay Mueller matrix", rows=n, leading=lead, sep=sep, decimal=dec)
    case.event("format mueller")
    case.event("files")
    kw = ({"sep": arg} if arg else {}) | ({"decimal": dec} if dec != "." else {})
    with Scratch() as tmp:
        f = tmp / "mm.txt"
        raw = put(case, f, "\n".join([sep.join(head), *rows]) + "\n", ["utf-8", "latin-1"][rng.integers(2)], rng.random() < 0.4)
        df = elli.read_spectraray_mmatrix(str(f) if rng.random() < 0.5 else f, **kw)
        case.check(list(df.columns) == [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)], f"columns {list(df.columns)}")
        case.check(df.index.name == "Wavelength", "index name")
        case.check(np.array_equal(df.index.to_numpy(float), [float(f"{w:.4f}") for w in wl]), "wavelengths of a Mueller matrix file")
        case.event("records", n * 16)
        case.check(np.array_equal(df.to_numpy(), data[:, lead:lead + 16]), "Mueller matrix elements", got=df.to_numpy(), want=data[:, lead:lead + 16])
        case.check(f.read_bytes() == raw, "the file was changed")


def s_table(case):
    rng = case.rng
    n = rng.size_of([2, 3, 10, 80], 1500, 2)
    energy = bool(case.index % 2)
    x = np.unique(np.round(rng.uniform(*((0.5, 6.5) if energy else (190, 2500)), n), 2 if energy else 1))
    if len(x) < 2:
        x = np.array([1.0, 2.0]) if energy else np.array([300.0, 400.0])
    x = x[::-1] if rng.random() < 0.4 else x
    n = len(x)
    e1, e2 = np.round(rng.uniform(-20, 30, n), 5), np.round(rng.uniform(0, 30, n), 5)
    gap = ["  ", " ", "\t"][rng.integers(3)]
    pre = [["Name=a-Si", "Comment=x=1"], ["[General]", "Title=Übung"], []][rng.integers(3)]
    unit = ["Energy", "PhotonEnergy", "eV"][rng.integers(3)] if energy else "Wavelength"
    rest = [",Dielectric", ", nm, eps", ","][rng.integers(3)]
    post = ["", "End of file\nUnused=1"][rng.integers(2)]
    more = gap + "0.5" if rng.random() < 0.2 else ""
    text = "\n".join(["SpectraRay material", *pre, f"Units={unit}{rest}", "Begin of array",
                      *[f"{a:.4f}{gap}{b:.5f}{gap}{c:.5f}{more}" for a, b, c in zip(x, e1, e2)], "End of array", post]) + "\n"
    case.describe(format="SpectraRay table", rows=n, unit=unit, x=x)
    case.event("format table")
    case.event("files")
    with Scratch() as tmp:
        f = tmp / "t.mat"
        raw = put(case, f, text, "utf-8", rng.random() < 0.4)
        path, name = (str(tmp) + "/", "t.mat") if rng.random() < 0.7 else ("", str(f))
        d = elli.dispersions.TableSpectraRay(path).load_dispersion_table(name) if hasattr(elli.dispersions, "TableSpectraRay") \
            else elli.TableSpectraRay(path).load_dispersion_table(name)
    case.check(f.exists() is False and bool(raw), "scratch file")
    wl = rd.HC / x if energy else x
    o = np.argsort(wl)
    want = e1 + 1j * e2
    case.event("records", n)
    inner = wl[o][1:-1] if n > 2 else np.array([])
    case.close(d.get_dielectric(inner), want[o][1:-1], "SpectraRay table at its points", rtol=1e-6, atol=1e-6 * 30) if len(inner) else None
    # The own value of hc differs in the tenth digit, the ends of an energy table are moved inwards by more than that.
    shift = 3e-9 if energy else 0
    ends = np.array([wl.min() * (1 + shift), wl.max() * (1 - shift)])
    case.close(d.get_dielectric(ends), want[o][[0, -1]], "SpectraRay table at its ends", rtol=1e-5, atol=1e-5 * 30)
    mid = wl[o][:-1] * 0.37 + wl[o][1:] * 0.63
    case.close(d.get_dielectric(mid), want[o][:-1] * 0.37 + want[o][1:] * 0.63, "SpectraRay table between its points", rtol=1e-6, atol=1e-6 * 30)
    case.raises(ValueError, lambda: d.get_dielectric(wl.max() * 1.001), "above the range of the table")
    case.raises(ValueError, lambda: d.get_dielectric(wl.min() * 0.999), "below the range of the table")


def s_refuse(case):
    """Files of another format raise; they never give data."""
    rng = case.rng
    junk = [
        ("nm TRIG", "sample\nmethod\nnm TRIG\n300.0 70.0 .245 .123\n400.0 70.0 .283 -.034\n"),
        ("empty", ""),
        ("text", "hello\nworld\n"),
        ("header only", "sample\nVASEmethod[x]\nnm\n"),
        ("few columns", "sample\nmethod\nnm\n300.0\t65.0\t12.1\n305.0\t65.0\t12.0\n"),
        ("csv", "wavelength,angle,psi,delta\n300.0,65.0,12.1,100.0\n"),
        ("spectraray", "; WAVELENGTH 50.2 50.2\n190.1 45.7 168.3\n190.5 47.5 187.3\n"),
        ("accurion", "#ROIidx\tAOI\tLambda\tDelta\tPsi\n#-\tdeg\tnm\tdeg\tdeg\n0\t40.0\t365.0\t179.7\t32.5\n"),
    ]
    name, text = junk[case.index % len(junk)]
    case.describe(content=name)
    with Scratch() as tmp:
        f = tmp / "x.dat"
        put(case, f, text, "utf-8", rng.random() < 0.3)
        for fn in (elli.read_woollam_psi_delta, elli.read_woollam_rho):
            case.event("refused files")
            case.raises(NotImplementedError if "TRIG" in name else (ValueError, TypeError), lambda fn=fn: fn(f), f"{fn.__name__} of {name}")
        if name in ("empty", "text", "header only", "csv"):
            for fn in (elli.read_spectraray_psi_delta, elli.read_accurion_psi_delta, elli.read_spectraray_rho):
                case.event("refused files")
                case.raises(Exception, lambda fn=fn: fn(f), f"{fn.__name__} of {name}")
        if name in ("accurion", "few columns"):
            case.event("refused files")
            case.raises(Exception, lambda: elli.read_spectraray_psi_delta(f), f"read_spectraray_psi_delta of {name}")
        for fn in (elli.read_woollam_psi_delta, elli.read_spectraray_psi_delta, elli.read_accurion_psi_delta, elli.read_spectraray_mmatrix):
            case.event("refused files")
            case.raises(Exception, lambda fn=fn: fn(tmp / "missing.dat"), f"{fn.__name__} of a missing file")
        # an Accurion file that lacks a column
        cols = ["#ROIidx", "AOI", "Lambda", "Delta", "Psi"]
        rows = [["#-", "deg", "nm", "deg", "deg"], ["0", "40.0", "365.0", "179.7", "32.5"], ["0", "40.0", "375.0", "179.1", "32.1"]]
        drop = int(rng.integers(1, 5))
        put(case, f, "\n".join("\t".join(c for i, c in enumerate(r) if i != drop) for r in [cols, *rows]) + "\n", "utf-8")
        case.event("refused files")
        case.raises(Exception, lambda: elli.read_accurion_psi_delta(f), f"read_accurion_psi_delta without {cols[drop]}")
    units = [("TRIG variants", u) for u in ("nm\tTRIG", "Angstroms TRIG", "eV  TRIG")]
    for _, u in units:
        with Scratch() as tmp:
            f = tmp / "x.dat"
            put(case, f, f"s\nm\n{u}\n300.0\t70.0\t0.2\t0.1\t0.01\t0.01\n", "utf-8")
            case.event("refused files")
            case.raises(NotImplementedError, lambda: elli.read_woollam_psi_delta(f), f"unit line {u!r}")


SUITES = [
    Suite("woollam", s_woollam, 5000, 60000),
    Suite("spectraray", s_spectraray, 3000, 40000),
    Suite("accurion", s_accurion, 1800, 30000),
    Suite("mueller", s_mueller, 1000, 15000),
    Suite("table", s_table, 1200, 15000),
    Suite("refuse", s_refuse, 128, 1280),
]
