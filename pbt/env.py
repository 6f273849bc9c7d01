"""Makes /repo's working tree and Hypothesis importable, without writing into /repo."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(var, "1")
os.environ["MPLBACKEND"] = "Agg"
if not os.path.isdir(os.environ.get("MPLCONFIGDIR", "/nonexistent")):
    os.environ["MPLCONFIGDIR"] = "/opt/mplconfig" if os.path.isdir("/opt/mplconfig") else "/tmp"
# Hypothesis lives in the tools' environment; appended, so numpy, scipy and matplotlib
# stay the ones the repository is tested with.
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYP not in sys.path:
    sys.path.append(HYP)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.simplefilter("ignore")


def load():
    """Import the code under test (called once, before workers fork)."""
    import numpy  # noqa
    import optics3d, general_optics, general  # noqa
    from Shapes import shapes  # noqa
    for m in (optics3d, general_optics, general, shapes):
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("imported %s instead of the code under test" % f)
    numpy.seterr(all="ignore")
    return optics3d, general_optics, general, shapes
