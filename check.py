#!/usr/bin/env python3
"""check.py Cxx: decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER from the environment)."""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def environment():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"), MPLBACKEND="Agg",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1", VERIF_CHILD="1", PYTHONWARNINGS="ignore")
    e.setdefault("MPLCONFIGDIR", "/opt/vp/mplconfig" if os.access("/opt/vp/mplconfig", os.W_OK) else "/tmp/mplconfig-verif")
    e.pop("SPICE", None)
    return e


def reexec():
    if os.environ.get("VERIF_CHILD") != "1":
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-W", "ignore"] + sys.argv, environment())


def main():
    reexec()
    sys.path.insert(0, HERE)
    from dst import engine
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    runs = int(os.environ["VERIF_RUNS"]) if os.environ.get("VERIF_RUNS") else None
    return engine.check(prop, tier, seed, runs)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
