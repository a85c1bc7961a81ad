"""Import the real code from /repo's working tree, never from stale bytecode."""
import importlib
import os
import shutil
import sys
import tempfile
import atexit

SRC = "/repo/src"


def load(prop):
    # third-party packages first, with their normal bytecode caches
    for name in ("numpy", "scipy.linalg", "scipy.interpolate", "scipy.special", "pandas",
                 "lark", "pint", "h5py", "yaml", "chardet", "torch", "rapidfuzz",
                 "importlib_resources"):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    try:
        sys.modules["torch"].set_num_threads(1)
    except Exception:  # pylint: disable=broad-except
        pass
    import warnings
    warnings.simplefilter("ignore")
    scratch = tempfile.mkdtemp(prefix="elli-mon-")
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(cleanup)
    os.environ["ELLI_MON_SCRATCH"] = scratch
    sys.pycache_prefix = os.path.join(scratch, "pyc")   # ignore bytecode left in /repo
    sys.dont_write_bytecode = True
    src = SRC
    if prop == "C20":
        # the database is a git submodule that is absent here: run the code from a copy of
        # the working tree with a synthetic database in the place the submodule has
        src = os.path.join(scratch, "src")
        shutil.copytree(os.path.join(SRC, "elli"), os.path.join(src, "elli"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        from mon.props import c20_db
        c20_db.build(os.path.join(src, "elli", "database"))
    sys.path.insert(0, src)
    elli = importlib.import_module("elli")
    where = os.path.realpath(elli.__file__)
    if not where.startswith(os.path.realpath(src) + os.sep):
        sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in repr(f).lower()]
        for k in [k for k in sys.modules if k == "elli" or k.startswith("elli.")]:
            del sys.modules[k]
        elli = importlib.import_module("elli")
        where = os.path.realpath(elli.__file__)
    if not where.startswith(os.path.realpath(src) + os.sep):
        print(f"INCONCLUSIVE: elli imported from {where}", file=sys.stderr)
        sys.exit(2)
    return elli
