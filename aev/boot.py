"""Process set-up shared by every check: environment, import paths, tier/seed."""
import os
import sys
import tempfile
import warnings

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AEV_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"

# Aesara without its C back end: nothing is compiled, the counterexample replay
# runs the optimised graphs with their Python implementations.
os.environ["AESARA_FLAGS"] = (
    "cxx=,blas__ldflags=-lopenblas,compile__timeout=600,compiledir="
    + os.path.join(tempfile.gettempdir(), f"aev-aesara-{os.getuid()}")
)
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_v] = "1"


def _import_z3():
    # z3 lives in the tooling venv, whose numpy must not shadow aesara's: the
    # path is appended (lowest priority) and removed again.
    sys.path.append(VT)
    try:
        import z3  # noqa: F401
    finally:
        sys.path.remove(VT)


_import_z3()

# aemcmc is installed as an editable install of /repo; put the tree under test
# first so that it is what gets imported whatever the install says.
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
sys.setrecursionlimit(20000)

import logging  # noqa: E402

logging.disable(logging.CRITICAL)
