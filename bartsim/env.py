"""Process environment: must be imported before numpy, joblib or bartpy."""
import os
import sys
import time

real_monotonic = time.monotonic      # the harness's own clock, never seen by the code under test

REPO = os.environ.get("BARTPY_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "BLIS_NUM_THREADS",
           "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/tmp")
os.environ["JOBLIB_MULTIPROCESSING"] = "1"
os.environ["TQDM_DISABLE"] = ""
os.environ.pop("TQDM_DISABLE", None)

# never write into the tree under test and never read byte code left there: always the current source
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"

if REPO not in sys.path:
    sys.path.insert(0, REPO)

BARTPY_DIR = os.path.join(os.path.realpath(REPO), "bartpy") + os.sep


def is_bartpy_file(filename):
    return filename.startswith(BARTPY_DIR) or filename.startswith(os.path.join(REPO, "bartpy") + os.sep)


def load():
    """Import everything a run may need, once, in the zygote."""
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    np.random.seed(20240229)      # anything drawn while modules are imported
    import pandas  # noqa
    import joblib  # noqa
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import sklearn.linear_model  # noqa
    import sklearn.ensemble  # noqa
    import scipy.stats  # noqa
    import bartpy
    got = os.path.realpath(os.path.dirname(bartpy.__file__)) + os.sep
    if got != BARTPY_DIR:
        raise RuntimeError("bartpy imported from %s, not from %s" % (got, BARTPY_DIR))
    import bartpy.sklearnmodel, bartpy.runner  # noqa
    import bartpy.samplers.oblivioustrees.treemutation  # noqa
    import bartpy.features.featureimportance, bartpy.diagnostics.features  # noqa
    import bartpy.extensions.baseestimator, bartpy.extensions.ols  # noqa
    import matplotlib.pyplot, seaborn  # noqa
    import bartpy.features.featureselection  # noqa
    return bartpy
