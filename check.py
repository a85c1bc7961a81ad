#!/opt/venv/bin/python
"""check.py Cxx [--replay FILE] [--jobs N]   (tier and seed from VERIF_TIER, VERIF_SEED)"""
import argparse
import importlib
import json
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONWARNINGS": "ignore", "TZ": "UTC", "LC_ALL": "C.UTF-8",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__), *sys.argv[1:]])

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if a.replay:  # inputs built before the cases follow the recorded run
        with open(a.replay, encoding="utf-8") as f:
            info = json.load(f)
        os.environ.update(VERIF_SEED=str(info["seed"]), VERIF_TIER=info.get("tier", "quick"))
    else:
        os.environ.update(VERIF_SEED=str(seed), VERIF_TIER=a.tier)
    from mon import boot
    boot.load(a.property)
    from mon import core
    module = importlib.import_module(f"mon.props.{a.property.lower()}")
    if a.replay:
        return core.replay(module, a.replay)
    return core.run(module, a.tier, seed, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
