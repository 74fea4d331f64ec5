#!/opt/venv/bin/python
"""Run the check of one property:  check.py P01 [--tier quick|thorough] [--replay FILE | --case N] [--count N]"""
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore", "VERIF_CHILD": "1"}

if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

import warnings  # noqa: E402
warnings.simplefilter("ignore")

sys.path.insert(0, os.path.join(HERE, "harness"))
import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--count", type=int)
    args = ap.parse_args()
    core.install_importer()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    try:
        import compas_cem  # noqa: F401
    except Exception as e:
        print("ERROR: compas_cem cannot be imported from {}: {!r}".format(core.SRC, e))
        return 2
    if args.selftest:
        import glob
        import importlib
        names = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, "harness", "props", "p[0-9]*.py")))
        for name in names:
            importlib.import_module("props." + name)
        print("{} checks load against {}".format(len(names), core.SRC))
        return 0
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        return core.run(r["property"], r["tier"], r["seed"], only=r["index"])
    return core.run(args.property, args.tier, seed, only=args.case, count=args.count)


if __name__ == "__main__":
    sys.exit(main())
