"""A synthetic refractiveindex.info database with a ledger of what it holds."""
import os

import numpy as np
import yaml

from .. import hints

LEDGER = []

SHELVES = [("main", "MAIN - simple inorganic materials"), ("organic", "ORGANIC - organic materials"), ("glass", "GLASS - glasses"),
           ("other", "OTHER - miscellaneous materials"), ("3d", "3D - selected data for 3D artists")]
BOOKS = ["Ag", "Au", "SiO2", "TiO2", "BK7", "C", "NaCl", "HOYA-optical", "Ta2O5", "Xe", "methanol", "air", "NO", "AgCl", "water", "Si", "GaAs", "Al2O3",
         "poly(methyl methacrylate)", "C2H6O", "SF6", "on", "1", "ZnO", "Si3N4", "MoS2", "YVO4", "null", "Y", "BaB2O4", "Co", "CO", "CO2", "Cu", "KBr"]
AUTHORS = ["Johnson and Christy", "Malitson", "Aspnes", "Franta et al.", "Rakić et al.", "SCHOTT", "Ciddor", "J. Doe, A. B. Roe, and C. Poe", "Babar and Weaver",
           "Müller", "Chandler-Horowitz and Amirtharaj", "Beal and Hughes", "Ohara", "Šimek", "Li", "Dodge", "Vukovic et al.", "O'Brien", "von Rottkay"]
COMMENTS = ["Brendel-Bormann model", "Sample 1", "20 °C", "film 35 nm thick", "thin film", "α-phase", "Nd:YAG", "300 K", "x=0.25", "ordinary ray", "5 ppm"]
TYPES = ["n,k", "n", "k", "n,k", "n(o)", "n(e)", "n, k"]
DIVS = ["Experimental data", "Experimental data: bulk, thick film", "Models and simulations", "Thin film", "Glasses - optical", "Zinc compounds"]


def fmt(rng, x, style=None):
    s = int(rng.integers(5)) if style is None else style
    return [f"{x:.4f}", f"{x:.6g}", f"{x:.3e}", f"{x:.8f}", f"{x:.3f}"][s]


def table(rng, kind, lo, hi):
    n = rng.size_of([2, 3, 10, 50], 1000, 2)
    x = np.unique(np.round(rng.uniform(lo, hi, n), 3))
    if len(x) < 2:
        x = np.array([round(lo, 3), round(lo, 3) + 0.5])
    if rng.random() < 0.2:
        x = x[::-1]
    elif rng.random() < 0.1:
        x = rng.permutation(x)
    sep = [" ", "\t", "  ", " \t"][rng.integers(4)]
    style = int(rng.integers(5)) if rng.random() < 0.5 else None
    rows, data = [], []
    for v in x:
        t = [f"{v:.3f}" if rng.random() < 0.5 else repr(float(v))]
        if "n" in kind:
            t.append(fmt(rng, rng.uniform(0.05, 5), style))
        if "k" in kind:
            t.append(fmt(rng, rng.uniform(0, 5) * 10.0 ** -rng.integers(0, 3), style))
        if rng.random() < 0.02:
            t[1:] = [str(int(rng.integers(1, 5))) for _ in t[1:]]
        rows.append(sep.join(t) + (" " if rng.random() < 0.05 else ""))
        f = [float(s) for s in t]
        data.append((f[0], (f[1] if "n" in kind else 0) + 1j * (f[-1] if "k" in kind else 0)))
    indent = " " if rng.random() < 0.2 else ""
    body = "\n".join(indent + r for r in rows) + ("\n" if rng.random() < 0.8 else "")
    return {"type": f"tabulated {kind}", "data": body}, {"table": sorted(data)}


def formula(rng, number):
    def c(lo, hi):
        return float(fmt(rng, rng.uniform(lo, hi), int(rng.integers(2))))
    if number in (1, 2):
        out = [[0.0, 0, c(0, 2), c(0, 1)][rng.integers(4)]]
        for _ in range(int(rng.integers(1, 5))):
            b = c(0.01, 0.18) if rng.random() < 0.6 else c(9, 40)
            out += [c(0.1, 1.5), b if number == 1 else (float(f"{b * b:.8g}"))]
    elif number == 3:
        out = [c(1.5, 6)]
        for _ in range(int(rng.integers(1, 6))):
            e = int(rng.choice([2, 4, -2, -4, -6, -8, 1])) if rng.random() < 0.8 else c(-3, 2)
            out += [c(-1, 1) * 10.0 ** (-2 if e > 0 else -3), e]
    elif number == 4:
        out = [c(1, 4)]
        for _ in range(2 if rng.random() < 0.7 else 1):
            if rng.random() < 0.15:
                out += [0, 0, 0, 1]
            else:
                out += [c(0.01, 1), int(rng.choice([0, 1, 2])), c(0.05, 0.15), int(rng.choice([1, 2]))]
        if len(out) == 9:
            for _ in range(int(rng.integers(0, 4))):
                out += [c(-0.01, 0.01), int(rng.choice([2, 4, -2, -4]))]
    else:
        out = [c(1, 2)]
        for _ in range(int(rng.integers(1, 5))):
            e = int(rng.choice([-2, -4, 2, -6])) if rng.random() < 0.8 else c(-3, 1)
            out += [c(-0.02, 0.04), e]
    style = rng.integers(3)
    text = [" ".join(repr(x) for x in out), "  ".join(repr(x) for x in out), "\n".join(repr(x) for x in out)][style]
    if rng.random() < 0.1:
        text = "\t".join(repr(x) for x in out)
    return {"type": f"formula {number}", "wavelength_range": "0.25 3.5", "coefficients": text}, {"formula": number, "c": [float(x) for x in out]}


def page_blocks(rng, index):
    """(yaml blocks, ledger blocks or None when the page must be refused)"""
    lo = float(rng.uniform(0.19, 0.5))
    hi = lo + float(rng.uniform(0.4, 3))
    kind = index % 14
    if kind == 0:
        b = [table(rng, "nk", lo, hi)]
    elif kind == 1:
        b = [table(rng, "n", lo, hi)]
    elif kind == 2:
        b = [table(rng, "k", lo, hi)]
    elif kind <= 7:
        b = [formula(rng, kind - 2)]
    elif kind <= 11:
        b = [formula(rng, int(rng.integers(1, 6))), table(rng, "k", lo, hi)]
    elif kind == 12:
        b = [table(rng, "n", lo, hi), table(rng, "k", lo, hi)]
    else:
        t = ["formula 6", "formula 7", "formula 8", "formula 9", "tabulated", "formula", "tabulated kn", "formula 12", "tabulated n2"][rng.integers(9)]
        b = [({"type": t, "coefficients": "0 1 2 3 4", "data": "0.3 1 0\n0.9 1 0\n"}, None)]
        if rng.random() < 0.3:
            b.insert(0, table(rng, "nk", lo, hi))
    if len(b) == 2 and b[-1][1] is not None and rng.random() < 0.15:
        b = b[::-1]
    return [x for x, _ in b], None if any(y is None for _, y in b) else [y for _, y in b]


def page_name(rng):
    """(name, author, year, comments, [ranges] or None)"""
    def rg():
        a = float(rng.uniform(0.1, 5)) if rng.random() < 0.8 else float(rng.integers(1, 30))
        b = a + float(rng.uniform(0.1, 20))
        s = rng.integers(4)
        t = [(f"{a:.3f}", f"{b:.3f}"), (f"{a:.2f}", f"{b:.1f}"), (f"{int(a) + 1}", f"{int(b) + 2}"), (f"{a:.2g}", f"{b:.3g}")][s]
        if rng.random() < 0.05:
            t = (f"{a:.1e}".replace("e+0", "e").replace("e-0", "e-"), t[1])
        return t
    if rng.random() < 0.12:
        return ["n 0.35–2.5", "Zemax catalogue", "SCHOTT", "Koch", "n,k", "-"][rng.integers(6)], None, None, None, None
    author = AUTHORS[rng.integers(len(AUTHORS))]
    year = int(rng.integers(1900, 2025))
    suffix = ["", "", "", "a", "b", "-1", " (film)"][rng.integers(7)]
    dash = ["–", "–", "-"][rng.integers(3)]
    c = [COMMENTS[i] for i in rng.permutation(len(COMMENTS))[:2]]
    w = rng.integers(4)
    r = [rg()]
    text = f"{TYPES[rng.integers(len(TYPES))]} {r[0][0]}{dash}{r[0][1]} µm"
    if rng.random() < 0.15:
        r.append(rg())
        text += f", k {r[1][0]}{dash}{r[1][1]} µm"
    pre, post = (c[0] if w in (1, 3) else None), (c[1] if w in (2, 3) else None)
    name = f"{author} {year}{suffix}: " + (f"{pre}; " if pre else "") + text + (f"; {post}" if post else "")
    return name, author, year, [x for x in (pre, post) if x], [(float(a), float(b)) for a, b in r]


def build(path):
    seed = int(os.environ.get("VERIF_SEED") or "1")
    pages = 1500 if (os.environ.get("VERIF_TIER") or "quick") == "quick" else 9000
    rng = hints.Rng([seed, 20], 20)
    root = os.path.join(path, "refractiveindexinfo-database", "database")
    os.makedirs(os.path.join(root, "data"), exist_ok=True)
    LEDGER.clear()
    catalog, index, used = [], 0, set()
    per = pages // len(SHELVES)
    for shelf, shelf_name in SHELVES:
        books, b_div, done, order, k = [], None, 0, rng.permutation(len(BOOKS)), 0
        while done < per:
            if rng.random() < 0.2:
                b_div = DIVS[rng.integers(len(DIVS))]
                books.append({"DIVIDER": b_div})
            book = BOOKS[order[k % len(order)]] + ("" if k < len(order) else f"-{k // len(order)}")
            k += 1
            book_name = f"{book} (" + ["Silver", "Titanium dioxide, TiO2", "Glass", "Gas, 20 °C"][rng.integers(4)] + ")"
            content, p_div = [], None
            for _ in range(rng.size_of([1, 2, 5, 9, 15], 60)):
                if rng.random() < 0.2:
                    p_div = DIVS[rng.integers(len(DIVS))]
                    content.append({"DIVIDER": p_div})
                name, author, year, comments, ranges = page_name(rng)
                base = (author or "Page").split()[0].strip(".,")
                page = base
                n = 0
                while (book, page) in used:
                    n += 1
                    page = f"{base}-{n}" if n > 1 else f"{base}{year or ''}"
                if rng.random() < 0.01 and used:  # the same book and page on another shelf
                    same = [u for u in used if u[0] == book]
                    page = sorted(same)[0][1] if same else page
                used.add((book, page))
                blocks, ledger = page_blocks(rng, index)
                ascii_ref = rng.random() < 0.5
                reference = f"{author or 'N. N.'}, J. Appl. Phys. 1, {index} (1999)"
                if ascii_ref:
                    reference = reference.encode("ascii", "ignore").decode()
                doc = {"REFERENCES": reference}
                if rng.random() < 0.7:
                    doc["COMMENTS"] = f"Sample {index}" + ("" if rng.random() < 0.6 else ", 25 °C, 3 µm")
                doc["DATA"] = blocks
                rel = f"{shelf}/{book}/{page}-{index}.yml".replace("(", "").replace(")", "")
                full = os.path.join(root, "data", rel)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                body = yaml.safe_dump(doc, allow_unicode=True, sort_keys=False)
                encoding = ["utf-8", "utf-8", "utf-8", "latin-1", "utf-8-sig"][rng.integers(5)]
                try:
                    raw = body.encode(encoding)
                except UnicodeEncodeError:
                    raw = body.encode("utf-8")
                with open(full, "wb") as f:
                    f.write(raw)
                content.append({"PAGE": page, "name": name, "data": rel})
                LEDGER.append(dict(shelf=shelf, shelf_longname=shelf_name, book_divider=b_div, book=book, book_longname=book_name, page=page, page_type=p_div,
                                   author=author, year=year, comments=comments, name=name, ranges=ranges, path=rel, blocks=ledger,
                                   reference=reference if ascii_ref and raw.isascii() else None,
                                   comment_text=doc.get("COMMENTS") if raw.isascii() else None))
                index += 1
                done += 1
            books.append({"BOOK": book, "name": book_name, "content": content})
        catalog.append({"SHELF": shelf, "name": shelf_name, "content": books})
        if rng.random() < 0.5:
            catalog.append({"DIVIDER": "more"})
    with open(os.path.join(root, "catalog-nk.yml"), "w", encoding="utf8") as f:
        yaml.safe_dump(catalog, f, allow_unicode=True, sort_keys=False)
