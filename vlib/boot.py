"""Process set-up shared by every check: deterministic environment, import paths.

gym_anm is always imported from /repo (the tree under test).  Hypothesis is not
part of the project's environment; it is taken from the pre-installed tool
environment without letting that environment shadow the project's own packages.
"""
import os
import sys
import warnings
import logging

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.dont_write_bytecode = True


def setup():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy  # noqa: F401  (the project's numpy, before the tool path is visible)

    sys.path.append(TOOLS)
    try:
        import hypothesis  # noqa: F401
        import hypothesis.strategies  # noqa: F401
        import hypothesis.internal.conjecture.engine as eng

        eng.MAX_SHRINKING_SECONDS = 40
    finally:
        sys.path.remove(TOOLS)
    # Silence gym_anm warnings about e.g. singular Jacobians.
    warnings.simplefilter("ignore")
    return hypothesis
