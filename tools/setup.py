"""Checks that the tools the checks need are present (nothing is installed)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core  # noqa: E402,F401  (finds Hypothesis)
import hypothesis, mpmath, numpy, scipy, torch  # noqa: E401,E402,F401

os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "torch", torch.__version__)
