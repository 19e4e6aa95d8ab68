"""Imports the code under test from /repo's working tree."""
import importlib
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

ENV = dict(PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")

SCRATCH = None


def reexec():
    """Restarts the interpreter once with a fixed environment."""
    if os.environ.get("VERIF_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    env["VERIF_BOOTED"] = "1"
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def boot():
    """Creates a scratch directory and imports the package under test."""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="vf-")
    os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hyp")
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")

    # third party modules first, from the project's own environment
    import numpy, scipy.stats, scipy.linalg, scipy.optimize, numdifftools, pandas, tabulate, tqdm  # noqa
    import iminuit, numba, matplotlib  # noqa
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa

    if HYP not in sys.path:
        sys.path.append(HYP)
    import hypothesis, hypothesis.strategies  # noqa
    numpy.seterr(all="ignore")

    # the code under test: never from cached byte code, always from REPO
    sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    sys.path.insert(0, REPO)
    tf = importlib.import_module("templatefitter")
    path = os.path.realpath(tf.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("templatefitter imported from %s, not from %s" % (path, REPO))
    return tf


def cleanup():
    if SCRATCH and os.path.isdir(SCRATCH) and os.path.basename(SCRATCH).startswith("vf-"):
        shutil.rmtree(SCRATCH, ignore_errors=True)
