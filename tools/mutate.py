#!/opt/venv/bin/python
"""Development aid, run by no check: which small changes to the package do the monitors overlook?

mutate.py OUT.jsonl [--per-file N] [--seed S] [--jobs J] [--scale X] [FILE ...]
Every mutant is a copy of src/elli with one edit; the mapped monitors run on it until the first violation.
"""
import argparse
import ast
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
from pathlib import Path

ENV = {"PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore", "TZ": "UTC",
       "LC_ALL": "C.UTF-8", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__), *sys.argv[1:]])
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))

SRC = Path("/repo/src/elli")
MAP = [
    ("plot/", "C25"), ("solver2x2", "C01 C03 C04 C11 C10"), ("solver4x4", "C02 C01 C04 C03 C05 C10"), ("solver.py", "C01 C10 C24"),
    ("structure", "C04 C24 C13 C10 C02 C01 C11"), ("experiment", "C10 C09 C24 C01 C06 C07 C11"),
    ("result", "C06 C07 C08 C09 C03 C10"), ("materials.py", "C12 C13 C24 C10 C05 C11"), ("utils", "C23 C05 C07 C18 C06"),
    ("formula_parser", "C17 C20"), ("dispersions/formula", "C17 C24 C11 C20"),
    ("table_spectraray", "C14 C18 C24"), ("base_dispersion", "C14 C16 C24 C11 C10"), ("dispersions/", "C14 C15 C24 C11 C16"), ("nexus", "C19"),
    ("importer/", "C18"), ("database/", "C20"), ("params_hist", "C21"), ("fitting/", "C22"), ("kkr", "C15"),
    ("units", "C23 C17"),
]
CMP = {"Lt": ["<=", ">"], "LtE": ["<", ">"], "Gt": [">=", "<"], "GtE": [">", "<"], "Eq": ["!="], "NotEq": ["=="],
       "Is": ["is not"], "IsNot": ["is"], "In": ["not in"], "NotIn": ["in"]}
BIN = {"Add": ["-"], "Sub": ["+"], "Mult": ["/"], "Div": ["*"], "Pow": ["*"], "MatMult": ["*"], "Mod": ["//"],
       "FloorDiv": ["%"]}
DROP_CALL = {"copy", "deepcopy", "conj", "conjugate", "abs", "sqrt", "real", "lower", "strip", "upper", "transpose",
             "sort_index", "sorted", "sort", "flatten", "ravel", "atleast_1d", "asarray", "array", "list", "float",
             "int", "str", "reversed", "squeeze", "swaplevel", "deg2rad", "rad2deg", "reset_index", "set_index",
             "dropna", "drop_duplicates", "rename", "swapaxes", "round"}
DROP_ATTR = {"T", "real", "values"}


class Text:
    def __init__(self, src):
        self.b = src.encode()
        self.off = [0]
        for line in self.b.splitlines(keepends=True):
            self.off.append(self.off[-1] + len(line))

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def get(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()


def mutants(src):
    """(description, line, new source)"""
    tree = ast.parse(src)
    t = Text(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
        if isinstance(n, ast.FunctionDef):      # annotations mean nothing
            for a in [*n.args.args, *n.args.kwonlyargs]:
                if a.annotation:
                    doc.update(id(x) for x in ast.walk(a.annotation))
            if n.returns:
                doc.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            doc.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.Raise):            # neither do messages
            doc.update(id(x) for x in ast.walk(n) if isinstance(x, ast.Constant))
        if isinstance(n, ast.Call) and "warn" in ast.unparse(n.func):
            doc.update(id(x) for x in ast.walk(n))
    out = []

    def rep(n, new, what):
        a, b = t.span(n)
        out.append((what, n.lineno, (t.b[:a] + new.encode() + t.b[b:]).decode()))

    def between(l, r, new, what):
        _, a = t.span(l)
        b, _ = t.span(r)
        old = t.b[a:b].decode()
        # keep parentheses around the operator
        core = old.strip("() \n")
        out.append((what, l.lineno, (t.b[:a] + old.replace(core, f" {new} ", 1).encode() + t.b[b:]).decode()))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare):
            items = [n.left, *n.comparators]
            for i, op in enumerate(n.ops):
                for new in CMP[type(op).__name__]:
                    between(items[i], items[i + 1], new, f"{type(op).__name__} -> {new}")
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op).__name__, []):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                between(n.left, n.right, new, f"{type(n.op).__name__} -> {new}")
        elif isinstance(n, ast.BoolOp):
            new = "or" if isinstance(n.op, ast.And) else "and"
            for a, b in zip(n.values, n.values[1:]):
                between(a, b, new, f"-> {new}")
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                rep(n, t.get(n.operand), "unary dropped")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, f"not ({t.get(n.test)})", "condition negated")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), f"{v} -> {not v}")
            elif isinstance(v, int):
                rep(n, str(v + 1), f"{v} -> {v + 1}")
                if v > 0:
                    rep(n, str(v - 1), f"{v} -> {v - 1}")
            elif isinstance(v, float):
                rep(n, repr(v * 1.01 if v else 0.01), f"{v} * 1.01")
            elif isinstance(v, complex):
                rep(n, f"({-v!r})", f"{v} negated")
            elif isinstance(v, str) and v:
                if len(v) < 40 and not t.get(n).startswith(("f", "F")) and "\n" not in t.get(n):
                    rep(n, repr(v + "X" if len(v) > 2 else v[::-1] + v), f"string {v!r}")
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if name in DROP_CALL:
                if isinstance(n.func, ast.Attribute) and not (
                        isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "copy", "pd", "sc")):
                    rep(n, t.get(n.func.value), f".{name}() dropped")
                elif n.args:
                    rep(n, f"({t.get(n.args[0])})", f"{name}() dropped")
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args
                (x, y), (u, w) = t.span(a), t.span(b)
                s = t.b[:x] + t.b[u:w] + t.b[y:u] + t.b[x:y] + t.b[w:]
                out.append((f"{name}: arguments swapped", n.lineno, s.decode()))
            for k in n.keywords:
                if k.arg:
                    x, _ = t.span(k)
                    _, y = t.span(k)
                    s = t.b[:x] + t.b[y:].lstrip(b" \n").removeprefix(b",")
                    out.append((f"{name}: keyword {k.arg} dropped", n.lineno, s.decode()))
        elif isinstance(n, ast.Attribute) and n.attr in DROP_ATTR and isinstance(n.ctx, ast.Load):
            rep(n, t.get(n.value), f".{n.attr} dropped")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            for part in ("lower", "upper", "step"):
                if getattr(s, part) is not None and part == "step":
                    rep(getattr(s, part), "1", "slice step dropped")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            rep(n, "pass", "statement dropped")
        elif isinstance(n, ast.Assign) and n.targets and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "assignment dropped")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "raise dropped")
        elif isinstance(n, ast.Return) and n.value is not None and t.get(n.value) != "None" and False:
            rep(n, "return None", "return None")
    good = []
    for what, line, s in out:
        try:
            if ast.dump(ast.parse(s)) != ast.dump(tree):
                good.append((what, line, s))
        except SyntaxError:
            pass
    return good


def one(prop, src, scale):
    """In a forked child: 'killed suite what' or 'survived'."""
    from mon import boot
    boot.SRC = str(src)
    from mon import hints
    hints.SRC = Path(src) / "elli"
    try:
        boot.load(prop)
    except SystemExit:
        return "killed", "import"
    except Exception as e:  # pylint: disable=broad-except
        return "killed", f"import {e}"
    from mon import core
    module = importlib.import_module(f"mon.props.{prop.lower()}")
    known = core.Known(prop)
    suites = {s.name: s for s in module.SUITES}
    plan = core.interleave(module.SUITES, "quick")
    step = max(1, round(1 / scale))
    if len(plan) < 400:
        step = 1 if len(plan) < 150 else max(1, step // 2)
    plan = plan[::step] if step > 1 else plan
    for name, i in plan:
        r = core.run_case(prop, suites[name], i, 1, "quick", known)
        if r["verdict"] == "violated":
            return "killed", f"{name}: {r['what'][:120]}"
    return "survived", ""


def child(conn, prop, src, scale):
    os.setsid()
    try:
        conn.send(one(prop, src, scale))
    except BaseException as e:  # pylint: disable=broad-except
        conn.send(("killed", f"crash {type(e).__name__} {e}"))
    shutil.rmtree(os.environ.get("ELLI_MON_SCRATCH", "/nonexistent"), ignore_errors=True)
    os._exit(0)


def job(args):
    fname, what, line, text, scale = args
    rel = fname.relative_to(SRC)
    props = next((p for k, p in MAP if k in str(rel)), "").split()
    d = Path(tempfile.mkdtemp(prefix="mutant-"))
    res = []
    try:
        shutil.copytree(SRC, d / "elli", ignore=shutil.ignore_patterns("__pycache__"))
        (d / "elli" / rel).write_text(text, encoding="utf8")
        for p in props:
            a, b = mp.Pipe(False)
            pid = mp.get_context("fork").Process(target=child, args=(b, p, d, scale))
            t0 = time.monotonic()
            pid.start()
            r = a.recv() if a.poll(600) else ("timeout", "")
            if pid.is_alive():
                try:
                    if r[0] == "timeout":
                        os.killpg(pid.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            pid.join(10)
            res.append([p, *r, round(time.monotonic() - t0, 1)])
            if r[0] != "survived":
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lines = (SRC / rel).read_text(encoding="utf8").splitlines()
    return {"file": str(rel), "line": line, "what": what, "source": lines[line - 1].strip(), "result": res,
            "survived": all(r[1] == "survived" for r in res)}


def worker(q, out):
    for args in iter(q.get, None):
        out.put(job(args))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--per-file", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--scale", type=float, default=0.15)
    ap.add_argument("--rerun", help="only what survived in this earlier OUT.jsonl")
    ap.add_argument("files", nargs="*")
    a = ap.parse_intermixed_args()
    files = [SRC / f for f in a.files] or [
        f for f in sorted(SRC.rglob("*.py")) if any(k in str(f.relative_to(SRC)) for k, _ in MAP)]
    rng = random.Random(a.seed)
    todo = []
    for f in files:
        ms = mutants(f.read_text(encoding="utf8"))
        rng.shuffle(ms)
        todo += [(f, *m, a.scale) for m in ms[:a.per_file]]
    rng.shuffle(todo)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out, encoding="utf8"):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["what"]))
    todo = [t for t in todo if (str(t[0].relative_to(SRC)), t[2], t[1]) not in done]
    if a.rerun:
        old = {(r["file"], r["what"], r["source"]) for r in map(json.loads, open(a.rerun, encoding="utf8")) if r["survived"]}
        todo = [t for t in todo if (str(t[0].relative_to(SRC)), t[1], t[0].read_text(encoding="utf8").splitlines()[t[2] - 1].strip()) in old]
    print(len(todo), "mutants", flush=True)
    # third-party packages are loaded once, in the parent
    from mon import boot
    for name in ("numpy", "scipy.linalg", "scipy.interpolate", "scipy.special", "pandas", "lark", "pint", "h5py",
                 "yaml", "chardet", "torch", "rapidfuzz", "importlib_resources", "lmfit", "plotly", "ipywidgets",
                 "numpy.lib.scimath", "scipy.constants", "scipy.optimize", "scipy.integrate", "matplotlib.pyplot"):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    sys.modules["torch"].set_num_threads(1)
    del boot
    ctx = mp.get_context("fork")
    q, out = ctx.Queue(), ctx.Queue()
    ws = [ctx.Process(target=worker, args=(q, out)) for _ in range(a.jobs)]
    for w in ws:
        w.start()
    for t in todo:
        q.put(t)
    for _ in ws:
        q.put(None)
    n = 0
    with open(a.out, "a", encoding="utf8") as f:
        for i in range(len(todo)):
            r = out.get()
            n += r["survived"]
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
            f.flush()
            if i % 50 == 0:
                print(i, "done", n, "survived", flush=True)
    for w in ws:
        w.join()


if __name__ == "__main__":
    main()
