#!/usr/bin/env python
"""check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE       replay a violation
   check.py --setup             build the framework
   check.py --selftest [PROP]   determinism: event logs must agree between processes and worker counts
"""
import json
import os
import resource
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(PYTHONHASHSEED=os.environ.get("FPSIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore", TZ="UTC",
           HDF5_USE_FILE_LOCKING="FALSE")


def reexec(extra):
    """a fresh interpreter with the environment the simulation needs"""
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    env.update(extra)
    env["FPSIM_CHILD"] = "1"
    os.execve(PY, [PY, "-s", os.path.abspath(__file__)] + sys.argv[1:], env)


def main(argv):
    sys.path.insert(0, VERIF)
    from fpsim import driver
    if os.environ.get("FPSIM_CHILD") != "1":
        reexec(driver.environment(argv))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if argv and argv[0] == "--setup":
        return driver.setup()
    return driver.main(argv)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
