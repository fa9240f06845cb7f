"""Process environment of a check: must be imported before numpy/dorado.

* dorado is imported from REPO's *working tree* (never from a stale bytecode
  cache: a fresh, empty pycache prefix inside the scratch directory is used).
* everything a check writes goes to a scratch directory that is removed at exit.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("DORADO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCRATCH = tempfile.mkdtemp(prefix="mc-")
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(SCRATCH, "pycache")
for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["TQDM_DISABLE"] = "1"
_mpl = os.environ.get("MPLCONFIGDIR") or "/opt/venv/mplconfig"
if not os.path.isdir(_mpl):
    _mpl = os.path.join(SCRATCH, "mpl")
    os.makedirs(_mpl)
os.environ["MPLCONFIGDIR"] = _mpl

os.chdir(SCRATCH)
sys.path.insert(0, REPO)

import warnings  # noqa: E402
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
np.seterr(all="ignore")
import matplotlib  # noqa: E402
matplotlib.use("Agg")
import dorado  # noqa: E402
assert os.path.realpath(dorado.__file__).startswith(
    os.path.realpath(REPO) + os.sep), dorado.__file__
