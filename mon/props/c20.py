"""C20: database entries load the stored optical constants."""
import numpy as np
import pandas as pd

import elli
from rapidfuzz import fuzz

from ..core import Suite
from . import c20_db

PROPERTY = "C20"
RULE = (
    "a synthetic refractiveindex.info database written in the real layout from a ledger (hundreds of pages, every data "
    "block type and combination, number formats, encodings, page name styles), read by the real code in a copy of the "
    "working tree; every entry and random queries against the ledger"
)
ASSUMPTIONS = ["the database itself is absent here and replaced by a synthetic one of the same layout",
               "a page naming two ranges may report the first or their union", "formulas away from their poles"]
REACH = {"entries": 400, "values": 20000, "catalogue rows": 1000, "queries": 300, "refused": 150, "fuzzy queries": 100, "wavelength filters": 100,
         "formula 1": 20, "formula 2": 20, "formula 3": 20, "formula 4": 20, "formula 5": 20, "combined": 60, "tabulated nk": 20, "tabulated n": 20,
         "tabulated k": 20}
DB = None


def db():
    global DB
    if DB is None:
        DB = elli.db.RII()
    return DB


def ledger():
    return c20_db.LEDGER


def same(a, b):
    return (a is None or a is pd.NA or (isinstance(a, float) and np.isnan(a))) if b is None else (a is not pd.NA and a == b)


def s_catalog(case):
    rii = elli.db.RII()
    cat = rii.catalog
    case.describe(pages=len(ledger()))
    case.check(len(cat) == len(ledger()), f"{len(cat)} rows for {len(ledger())} pages")
    for (_, row), want in zip(cat.iterrows(), ledger()):
        case.event("catalogue rows")
        what = f"{want['shelf']}/{want['book']}/{want['page']}: {want['name']}"
        for k in ("shelf", "shelf_longname", "book_divider", "book", "book_longname", "page", "page_type", "author", "year"):
            case.check(same(row[k], want[k]), f"{k} of {what}", got=str(row[k]), want=want[k])
        lo, hi = row["lower_range"], row["upper_range"]
        if want["ranges"] is None:
            case.check(same(lo, None) and same(hi, None), f"range of {what}", got=(str(lo), str(hi)))
            case.check(want["name"] in str(row["comment"]), f"comment of {what}")
        else:
            r = np.array(want["ranges"]) * 1000
            for got, ok in ((lo, [r[0, 0], r[:, 0].min()]), (hi, [r[0, 1], r[:, 1].max()])):
                case.check(any(abs(float(got) - x) <= 1e-9 * x for x in ok), f"range of {what}", got=float(got), want=ok)
            for c in want["comments"]:
                case.check(c in str(row["comment"]), f"comment of {what}", got=str(row["comment"]), want=want["comments"])
            if not want["comments"]:
                case.check(row["comment"] is pd.NA or row["comment"] == "", f"comment of {what}", got=str(row["comment"]))


def model(block, w):
    """(value, is index, scale) of a ledger block at wavelengths w in nm."""
    x = w / 1000
    if "table" in block:
        t = np.array([p for p, _ in block["table"]]) * 1000
        v = np.array([p for _, p in block["table"]])
        return np.interp(w, t, v.real) + 1j * np.interp(w, t, v.imag), True, np.abs(v).max() * np.ones_like(w)
    c = block["c"]
    n = block["formula"]
    terms = [np.full_like(x, c[0])]
    if n in (1, 2):
        terms.append(np.ones_like(x))
        for a, b in zip(c[1::2], c[2::2]):
            terms.append(a * x**2 / (x**2 - (b**2 if n == 1 else b)))
    elif n == 4:
        for i in range(1, min(len(c), 9), 4):
            a, e1, b, e2 = c[i:i + 4]
            terms.append(a * x**e1 / (x**2 - b**e2))
        for a, e in zip(c[9::2], c[10::2]):
            terms.append(a * x**e)
    else:
        for a, e in zip(c[1::2], c[2::2]):
            terms.append(a * x**e)
    return sum(terms).astype(complex), n == 5, sum(np.abs(t) for t in terms)


def distinct(rows):
    seen = {}
    for r in rows:
        seen.setdefault((r["book"], r["page"]), []).append(r)
    return seen


def s_entry(case):
    rng = case.rng
    want = ledger()[case.index % len(ledger())]
    rii = db()
    book, page = want["book"], want["page"]
    case.describe(**{k: want[k] for k in ("shelf", "book", "page", "path", "blocks")})
    twins = [r for r in ledger() if (r["book"], r["page"]) == (book, page)]
    if len(twins) > 1:
        case.event("refused")
        case.raises(ValueError, lambda: rii.get_dispersion(book, page), "an ambiguous entry")
        case.raises(ValueError, lambda: rii.get_mat(book, page), "an ambiguous entry")
        return
    if want["blocks"] is None:
        case.event("refused")
        case.raises(ValueError, lambda: rii.get_dispersion(book, page), "an unimplemented format")
        case.raises(ValueError, lambda: rii.get_mat(book, page), "an unimplemented format")
        return
    case.event("entries")
    blocks = want["blocks"]
    if len(blocks) > 1:
        case.event("combined")
    for b in blocks:
        if "formula" in b:
            case.event(f"formula {b['formula']}")
        elif len(blocks) == 1:
            v = np.array([p for _, p in b["table"]])
            case.event("tabulated " + ("nk" if v.imag.any() and v.real.any() else "n" if v.real.any() else "k"))
    lo, hi = 260.0, 3400.0
    nodes = []
    for b in blocks:
        if "table" in b:
            t = np.array([p for p, _ in b["table"]]) * 1000
            lo, hi = max(lo if len(nodes) else 0, t.min()), min(hi if len(nodes) else np.inf, t.max())
            nodes += list(t)
    if hi <= lo:
        return  # tables which do not overlap
    inner = [t for t in nodes if lo < t < hi]
    w = np.concatenate([rng.uniform(lo, hi, 6), rng.permutation(inner)[:20], [lo * (1 + 1e-12), hi * (1 - 1e-12)]])
    d = rii.get_dispersion(book, page)
    m = rii.get_mat(book, page)
    case.check(type(m) is elli.IsotropicMaterial, f"material is a {type(m).__name__}")
    index = len(blocks) > 1 or model(blocks[0], w)[1]
    total, scale, slope = 0, 0, 0
    for b in blocks:
        v, is_index, s = model(b, w)
        s = s + np.abs(v)
        if "table" in b:
            t = np.array([p for p, _ in b["table"]]) * 1000
            y = np.array([p for _, p in b["table"]])
            slope = slope + np.max(np.abs(np.diff(y) / np.diff(t)))
        if index and not is_index:
            s = s / np.maximum(np.abs(v), 1e-12) ** 0.5
            v = np.emath.sqrt(v)
        total, scale = total + v, scale + s
    tol = 1e-11 * scale + slope * w * 1e-14 + 1e-15
    if index:
        n, ntol = total, tol
        e, etol = total**2, tol * (2 * np.abs(total) + tol)
    else:
        e, etol = total, tol
        n, ntol = np.emath.sqrt(total), tol / np.maximum(np.abs(total), 1e-12) ** 0.5

    def judge(got, ref, t, what):
        got = np.asarray(got)
        r = np.abs(got - ref) / t
        case.event("values", got.size)
        case.worst = max(case.worst, float(np.max(r)))
        case.check(bool((r <= 1).all()), f"{what} of {book}/{page}", got=got, want=ref, wavelengths=w)
    # the sign of a square root of a negative number is not judged
    judge(d.get_dielectric(w), e, etol, "permittivity")
    got = d.get_refractive_index(w)
    judge(np.where(np.abs(e.imag) < 1e-9 * np.abs(e), np.where(got.imag < 0, -got, got), got) if not index else got, n, ntol, "index")
    judge(m.get_tensor(w)[:, 0, 0], e, etol, "material tensor")
    judge(m.get_tensor(w)[:, 2, 2], e, etol, "material tensor")
    i = int(rng.integers(len(w)))
    judge(np.reshape(d.get_dielectric(float(w[i])), ()), e[i], etol[i], "permittivity at one wavelength")
    if nodes:
        for x in (min(nodes) * 0.99 - 1, max(nodes) * 1.01 + 1):
            case.raises(ValueError, lambda x=x: d.get_dielectric(x), "outside the table")
    if want["reference"] is not None:
        case.check(rii.get_reference(book, page) == want["reference"], "reference")
    if want["comment_text"] is not None:
        case.check(rii.get_comment(book, page) == want["comment_text"], "comment")
    # loading again gives independent equal dispersions
    d2 = rii.get_dispersion(book, page)
    case.check(d2 is not d, "the dispersion is shared")
    judge(d2.get_dielectric(w[::-1]), e[::-1], etol[::-1], "permittivity of a second dispersion")


TEXT = ["shelf", "shelf_longname", "book_divider", "book", "book_longname", "page", "page_type", "author", "path"]
FUZZY = ["book_divider", "book", "book_longname", "page", "author"]


def field(r, col):
    return r[col] if col != "path" else None


def query_text(rng):
    r = ledger()[rng.integers(len(ledger()))]
    u = rng.random()
    col = FUZZY[rng.integers(len(FUZZY))]
    q = r[col] or r["book"]
    if u < 0.55:
        return q
    if u < 0.7:
        return q[: max(1, len(q) - 1)]
    if u < 0.8:
        return q.lower()
    return ["", "Johnson", "Rakic", "zzzzzz", "Si", "TiO2 film", "Ag", "  Au", "1", "gold"][rng.integers(10)]


def s_search(case):
    rng = case.rng
    rii = db()
    cat0 = rii.catalog.copy()
    rows = ledger()
    nq = int(rng.choice([1, 1, 1, 2, 3]))
    qs = [query_text(rng) for _ in range(nq)]
    arg = qs[0] if nq == 1 and rng.random() < 0.8 else qs
    fuzzy = bool(case.index % 2)
    u = rng.random()
    cols = FUZZY if fuzzy else TEXT[:-1]
    if u < 0.35:
        column, used = "all", cols
    elif u < 0.7:
        column = cols[rng.integers(len(cols))]
        used = [column]
    else:
        used = [cols[i] for i in rng.permutation(len(cols))[: int(rng.integers(1, 4))]]
        column = list(used)
    # wavelength filter
    wf, wl = None, []
    if rng.random() < 0.5:
        some = [r for r in rows if r["ranges"] and len(r["ranges"]) == 1]
        lo, hi = np.array(some[rng.integers(len(some))]["ranges"][0]) * 1000
        pool = [lo, hi, (lo + hi) / 2, lo * (1 - 1e-9) - 1e-6, hi * (1 + 1e-9) + 1e-6, float(rng.uniform(100, 5000)), int(rng.integers(200, 3000))]
        wl = [pool[i] for i in rng.integers(0, len(pool), int(rng.choice([1, 1, 2, 3])))]
        wl = [float(x) if not isinstance(x, int) else x for x in wl]
        wf = wl[0] if len(wl) == 1 and rng.random() < 0.7 else [list, tuple, np.array][rng.integers(3)](wl)
        case.event("wavelength filters")
    case.describe(query=arg, column=column, fuzzy=fuzzy, filter=wf)
    case.event("queries")
    if fuzzy:
        case.event("fuzzy queries")
    args, kw = (arg,), {}
    if column != "all" or rng.random() < 0.3:
        kw["column"] = column
    if wf is not None:
        kw["wavelength_filter"] = wf
    if not fuzzy or rng.random() < 0.3:
        kw["fuzzy"] = fuzzy
    got = rii.search(*args, **kw)
    case.check(rii.catalog.equals(cat0), "the search changed the catalogue")
    ids = list(got.index)
    case.check(len(set(ids)) == len(ids) and all(0 <= i < len(rows) for i in ids), "row numbers", got=ids[:20])
    case.check(list(got.columns) == list(cat0.columns), "columns of the result")
    for i in ids[:10]:
        case.check(got.loc[i].equals(cat0.loc[i]), f"row {i} of the result differs from the catalogue")

    def in_range(r):
        """True, False or None (undecided) for the wavelength filter"""
        if wf is None:
            return True
        if not r["ranges"]:
            return False
        if len(r["ranges"]) > 1:
            return None
        lo, hi = np.array(r["ranges"][0]) * 1000
        if any(min(abs(x - lo), abs(x - hi)) < 1e-9 * x and x not in (lo, hi) for x in wl):
            return None
        return all(lo <= x <= hi for x in wl)

    def comment(r):
        return " ".join(r["comments"]) if r["comments"] is not None else r["name"]
    found = set(ids)
    if not fuzzy:
        for i, r in enumerate(rows):
            hit = any(field(r, c) == q for c in used for q in qs)
            if column == "all":
                hit = hit or any(comment(r) == q for q in qs)
            f = in_range(r)
            if f is None and hit:
                continue
            case.check((i in found) == bool(hit and f), f"search for {qs}: row {i}", row=r["name"], hit=hit, in_range=f, found=i in found)
        return
    use = list(used) + (["comment"] if column == "all" else [])
    values = {c: list(dict.fromkeys(v for v in ((comment(r) if c == "comment" else r[c]) for r in rows) if v is not None)) for c in use}
    good = {}
    for c in use:
        for q in qs:
            scored = [(fuzz.WRatio(q, v), v) for v in values[c]]
            near = [v for s, v in scored if s >= 80]
            for s, v in scored:
                if s >= 80:
                    must = len(near) <= 10 or v == q
                    good[(c, v)] = good.get((c, v), False) or must
    for i, r in enumerate(rows):
        keys = [(c, comment(r) if c == "comment" else r[c]) for c in use]
        may, must = any(k in good for k in keys), any(good.get(k, False) for k in keys)
        f = in_range(r)
        if i in found:
            case.check(may and f is not False, f"fuzzy search for {qs} returned row {i}", row=r["name"], in_range=f)
        elif f is not None:
            case.check(not (must and f), f"fuzzy search for {qs} misses row {i}", row=r["name"])


def s_refuse(case):
    rng = case.rng
    rii = db()
    keys = distinct(ledger())
    r = ledger()[rng.integers(len(ledger()))]
    book, page = r["book"], r["page"]
    other = ledger()[rng.integers(len(ledger()))]
    for b, p in ((book, "no such page"), ("no such book", page), (book, page + " "), (book + "x", page), ("", ""), (page, book), (book.upper() + "_", page),
                 (book, other["page"]), (book, page[:-1]), (book, ""), ("", page), (r["book_longname"], page), (book, r["name"] + "!")):
        if (b, p) in keys:
            continue
        case.describe(book=b, page=p)
        for f in (rii.get_dispersion, rii.get_mat, rii.get_reference, rii.get_comment):
            case.event("refused")
            case.raises(ValueError, lambda f=f, b=b, p=p: f(b, p), f"{f.__name__}({b!r}, {p!r})")
    for wf in ("500", {"a": 1}, object(), "500 nm"):
        case.event("refused")
        case.raises(ValueError, lambda wf=wf: rii.search(book, wavelength_filter=wf), f"wavelength filter {wf!r}")
    for col in ("no column", ["book", "none"]):
        for fuzzy in (True, False):
            case.event("refused")
            case.raises(Exception, lambda col=col, fuzzy=fuzzy: rii.search(book, column=col, fuzzy=fuzzy), f"column {col!r}")


SUITES = [
    Suite("catalog", s_catalog, 4, 40),
    Suite("entry", s_entry, 3000, 30000),
    Suite("search", s_search, 3000, 30000),
    Suite("refuse", s_refuse, 120, 1200),
]
