#!/usr/bin/env python3
"""Usage: run.py <PROPERTY> [--replay FILE].  See DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RV_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def _env():
    want = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED") or os.environ.get("VERIF_SEED", "0"),
            "PYTHONPATH": REPO + os.pathsep + HERE, "RV_ENV": "1"}
    os.environ.update(want)
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])


if __name__ == "__main__":
    if os.environ.get("RV_ENV") != "1":
        _env()
    import importlib
    import warnings
    warnings.filterwarnings("ignore")
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    import finat
    src = os.path.realpath(os.path.dirname(finat.__file__))
    if src != os.path.realpath(os.path.join(REPO, "finat")):
        print("ERROR finat imported from %s, not from %s" % (src, REPO))
        sys.exit(2)
    from rv import core
    if prop == "--selftest":
        from rv import gemeval, model, points, tabcheck, dualcheck  # noqa: F401
        print("framework imports, finat from", src)
        sys.exit(0)
    mod = importlib.import_module("rv.checks." + prop)
    sys.exit(core.main(mod, replay))
