"""Nothing to build: checks that the interpreter has what the simulator needs."""
import sys

import cloudpickle
import joblib
import numpy
import pandas
import scipy
import sklearn
import tqdm

from joblib.parallel import BACKENDS, ParallelBackendBase, SequentialBackend  # noqa: F401
from joblib.externals.loky.process_executor import TerminatedWorkerError     # noqa: F401

print("python %s, numpy %s, joblib %s, cloudpickle %s, pandas %s, scipy %s, sklearn %s, tqdm %s" % (
    sys.version.split()[0], numpy.__version__, joblib.__version__, cloudpickle.__version__, pandas.__version__,
    scipy.__version__, sklearn.__version__, tqdm.__version__))
