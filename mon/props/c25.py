"""C25: drawings and plots show exactly the structure and the data."""
import numpy as np
import pandas as pd
import matplotlib.pyplot as plt

import elli
from elli import plot as elli_plot
from elli.plot import structure as draw
from elli.plot.mueller_matrix import plot_mmatrix

from ..core import Suite
from ..wide import wide_structure

PROPERTY = "C25"
RULE = (
    "random structures (layers, repetitions, twisted, graded, up to about 150 slices) drawn as graph and section; their "
    "permittivity and index profiles for several directions and wavelengths; Mueller matrix plots of 1-4 frames "
    "with 1-16 columns in any order as single plot and grid"
)
REACH = {"profiles": 200, "drawings": 100, "traces": 2000}
E = np.eye(3)


def slices(st, lb):
    """Front, every slice from front to back, back; straight from the description of the structure."""
    out = []
    for L in st.layers:
        out += L.get_permittivity_profile(lb)
    return out


def s_profile(case):
    rng = case.rng
    st = wide_structure(rng)
    if rng.random() < 0.3:
        st.set_layers([*st.layers[:1], elli.RepeatedLayers(
            [elli.Layer(elli.ConstantRefractiveIndex(1.7).get_mat(), 30)], 3, 0, 1), *st.layers])
    if rng.random() < 0.1:
        st.set_layers([])
    lb = float(rng.uniform(350, 1500))
    arg = lb if rng.random() < 0.5 else np.array([lb, *rng.uniform(350, 1500, rng.integers(1, 4))])
    want = slices(st, arg)
    case.describe(lbda=arg, slices=len(want))
    got = draw.get_permittivity_profile(st, arg)
    case.event("profiles")
    case.check(len(got) == len(want) + 2, f"{len(got)} entries in the profile of {len(want)} slices")
    case.check(got[0][0] == np.inf and got[-1][0] == np.inf, "half-spaces are not infinite")
    exp = [(np.inf, st.front_material.get_tensor(arg)), *want, (np.inf, st.back_material.get_tensor(arg))]
    for i, (g, w) in enumerate(zip(got, exp)):
        case.check(g[0] == w[0], f"thickness of slice {i}")
        case.check(np.array_equal(g[1], w[1]), f"permittivity of slice {i}")
    # the profile the solver uses is the same
    for g, w in zip(got, st.get_permittivity_profile(arg)):
        case.check(np.array_equal(g[1], w[1]), "profile differs from the one of the structure")
    v = [E[0], E[1], E[2], None][rng.integers(4)]
    if v is None:
        v = rng.normal(size=3)
        v /= np.linalg.norm(v)
    idx = draw.get_index_profile(st, arg, v) if not np.array_equal(v, E[0]) else draw.get_index_profile(st, arg)
    case.check(len(idx) == len(exp), "length of the index profile")
    for i, (g, w) in enumerate(zip(idx, exp)):
        e = v @ w[1][0] @ v
        case.check(g[0] == w[0], f"thickness {i} in the index profile")
        case.close(g[1] ** 2, e, f"index of slice {i} squared", rtol=1e-10, atol=1e-12)
        case.check(np.real(g[1]) >= 0, f"index of slice {i} is on the negative branch")


def s_draw(case):
    rng = case.rng
    st = wide_structure(rng)
    if rng.random() < 0.1:
        st.set_layers([])
    lb = float(rng.uniform(350, 1500))
    margin = float(rng.uniform(0.05, 0.5))
    prof = slices(st, lb)
    d = np.array([float(p[0]) for p in prof])
    n = np.sqrt(np.array([st.front_material.get_tensor(lb)[0, 0, 0], *[p[1][0, 0, 0] for p in prof],
                          st.back_material.get_tensor(lb)[0, 0, 0]]).astype(complex)).real
    edges = np.concatenate([[0.0], np.cumsum(d)])
    case.describe(lbda=lb, slices=len(d))
    for method in ("graph", "section"):
        plt.close("all")
        if method == "graph" and rng.random() < 0.3:
            ax = elli_plot.draw_structure(st, lb, margin=margin)
        else:
            ax = elli_plot.draw_structure(st, lbda=lb, method=method, margin=margin)
        case.event("drawings")
        if method == "graph":
            case.check(len(ax.lines) == 1, "the graph is not one line")
            x, y = ax.lines[0].get_data()
            x, y = np.asarray(x), np.asarray(y)
            # the index in the middle of every slice and in the half-spaces
            ds = ax.lines[0].get_drawstyle()
            case.check(ds == "steps-post", f"drawn as {ds}")
            val = y[:-1]
            case.check(abs(y[-1] - n[-1]) <= 1e-9 * abs(n[-1]), "graph: the back half-space does not end with its index", got=y[-1], want=n[-1])
            low, high = ax.get_ylim()
            case.check(low <= np.min(n) and np.max(n) <= high, "graph: slices are outside of the drawing", got=[low, high], want=n)
        else:
            mesh = ax.collections[0]
            xy = mesh.get_coordinates()
            x = np.asarray(xy[0, :, 0])
            case.check(np.allclose(xy[:, :, 0], x), "cells are not vertical")
            val = np.asarray(mesh.get_array()).ravel()
        case.check(len(x) == len(edges) + 2, f"{method}: {len(x)} edges for {len(d)} slices")
        case.close(x[1:-1], edges, f"{method}: positions of the interfaces", rtol=1e-9, atol=1e-9)
        case.check(x[0] < 0 and x[-1] > edges[-1], f"{method}: half-spaces are not drawn")
        if edges[-1] > 0:
            case.close(np.array([-x[0], x[-1] - edges[-1]]), np.full(2, margin * edges[-1]), f"{method}: margin",
                       rtol=1e-7)
        case.close(np.asarray(val, float), n, f"{method}: index of the slices", rtol=1e-9, atol=1e-12)
        lim = ax.get_xlim()
        case.check(abs(lim[0] - x[0]) <= 1e-9 * (1 + edges[-1]) and abs(lim[1] - x[-1]) <= 1e-9 * (1 + edges[-1]),
                   f"{method}: the drawing is cut off")
    plt.close("all")
    plt.close("all")


def s_mueller(case):
    rng = case.rng
    k = int(rng.integers(1, 5))
    cols = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]
    u = rng.integers(4)
    if u == 1:
        cols = list(rng.permutation(cols))
    elif u == 2:
        cols = cols[:int(rng.integers(1, 16))]
    frames = []
    for i in range(k):
        n = rng.size_of(range(1, 8), 300)
        c = cols if i == 0 or rng.random() < 0.6 else list(rng.permutation(cols))
        lb = rng.uniform(300, 900, n)
        frames.append(pd.DataFrame(rng.uniform(-1, 1, (n, len(c))), index=pd.Index(lb, name="Wavelength"), columns=c))
    keep = [f.copy() for f in frames]
    single, full, share = (bool(x) for x in rng.integers(0, 2, 3))
    kw = {}
    if rng.random() < 0.4:
        kw["colors"] = ["#111111", "#222222", "#333333"][:rng.integers(1, 4)]
    if rng.random() < 0.4:
        kw["dashes"] = ["dot", "solid", "dashdot"][:rng.integers(1, 4)]
    if rng.random() < 0.4:
        kw["names"] = ["a", "b", "c"][:rng.integers(1, 4)]
    case.describe(frames=[f.shape for f in frames], columns=cols, single=single, **kw)
    arg = frames[0] if k == 1 and rng.random() < 0.5 else frames
    fig = plot_mmatrix(arg, single=single, full_scale=full, sharex=share, **kw)
    case.check(len(fig.data) == k * len(cols), f"{len(fig.data)} traces for {k} frames of {len(cols)} columns")
    colours, dashes = kw.get("colors"), kw.get("dashes", ["solid", "dash", "dot"])
    names = kw.get("names", ["", "theory"])
    it = iter(fig.data)
    seen = {}
    for i, c in enumerate(cols):
        for j, f in enumerate(keep):
            t = next(it)
            case.event("traces")
            case.check(np.array_equal(np.asarray(t.x, float), f.index.to_numpy()), f"x of {c} of frame {j}")
            case.check(np.array_equal(np.asarray(t.y, float), f[c].to_numpy()), f"y of {c} of frame {j}")
            case.check(t.name == f"{c} {names[j % len(names)]}", f"{c} of frame {j} is called {t.name}")
            case.check(t.line.dash == dashes[j % len(dashes)], f"dash of frame {j}")
            if colours is not None:
                case.check(t.line.color == colours[i % len(colours)], f"colour of {c}")
            seen.setdefault(c, set()).add(t.line.color)
            if not single:
                row, col = divmod(i, 4)
                a = "" if i == 0 else str(i + 1)
                case.check((t.xaxis or "x") == "x" + a and (t.yaxis or "y") == "y" + a,
                           f"{c} is drawn in {t.xaxis} {t.yaxis}, not at row {row} column {col}")
            else:
                case.check((t.xaxis or "x") == "x" and (t.yaxis or "y") == "y", "single plot on several axes")
    case.check(all(len(s) == 1 for s in seen.values()), "one element has several colours")
    if not single and full:
        case.check(all(tuple(fig.layout[a].range or ()) == (-1, 1) for a in fig.layout if str(a).startswith("yaxis")),
                   "full scale")
    for f, w in zip(frames, keep):
        case.check(f.equals(w) and list(f.columns) == list(w.columns), "plotting changed a frame")


SUITES = [Suite("profile", s_profile, 1500, 15000), Suite("draw", s_draw, 250, 4000), Suite("mueller", s_mueller, 350, 5000)]
