"""Entry point:  check.py P07 [--tier quick|thorough] [--seed N] [--replay F]

Runs the check of one property against /repo's current working tree."""

import argparse
import importlib
import os
import shutil
import sys
import tempfile

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
ap.add_argument("--only", nargs="*")
ap.add_argument("--procs", type=int)
ap.add_argument("--scale", type=float, default=1.0)
ap.add_argument("-v", action="store_true")
args = ap.parse_args()

REPO = os.environ.get("RTM_REPO", "/repo")
scratch = tempfile.mkdtemp(prefix="rtm_")
os.environ["RTM_SCRATCH"] = scratch
for k, v in {
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "2",
    "NUMBA_CACHE_DIR": os.path.join(scratch, "numba"),
    "MPLCONFIGDIR": os.environ.get("MPLCONFIGDIR", "/opt/cache/mpl" if os.access("/opt/cache/mpl", os.R_OK) else os.path.join(scratch, "mpl")),
}.items():
    os.environ[k] = v
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
code = 2
try:
    modname = "rtm.checks." + args.prop.lower()
    # numba is switched off unless the check is about the compiled backends
    if "p36" not in modname:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    import numpy, scipy.signal, scipy.stats, scipy.optimize, matplotlib.pyplot  # noqa
    import numba, soundfile, seaborn  # noqa

    # no stale byte code of the repository is ever used, and none is written
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    import dsptoolbox

    assert os.path.abspath(dsptoolbox.__file__).startswith(os.path.abspath(REPO) + os.sep), dsptoolbox.__file__
    from rtm import core

    mod = importlib.import_module(modname)
    code = core.main_check(
        mod, args.tier, args.seed, args.replay, args.only, args.procs, args.v, args.scale
    )
finally:
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
sys.exit(code)
