"""Import stochopy from /repo's working tree and Hypothesis from the installed tooling."""
import glob
import importlib
import os
import sys
import warnings

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

REPO = os.path.realpath(os.environ.get("STOCHOPY_REPO", "/repo"))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, REPO)


def _tooling():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    # numpy must come from /opt/venv, so the tooling goes to the end of the path
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    try:
        importlib.invalidate_caches()
        import hypothesis  # noqa: F401
        return
    except ImportError:
        sys.path.pop()
    import tempfile
    import zipfile

    d = tempfile.mkdtemp()
    for pat in ("hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl"):
        for w in glob.glob("/opt/veriftools/wheels/" + pat):
            zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)
    importlib.invalidate_caches()
    import hypothesis  # noqa: F401


import numpy as np  # noqa: E402

_tooling()

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

import stochopy  # noqa: E402
import stochopy.factory  # noqa: E402,F401
import stochopy.optimize  # noqa: E402,F401
import stochopy.sample  # noqa: E402,F401

assert os.path.realpath(stochopy.__file__).startswith(REPO + os.sep), stochopy.__file__
