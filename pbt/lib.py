"""The library under test, and the exceptions checks use."""
import os
import sys
import warnings

REPO = os.path.realpath(os.environ.get("PADASIP_REPO", "/repo"))
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")
import padasip as pa  # noqa: E402

if os.path.realpath(os.path.dirname(os.path.dirname(pa.__file__))) != REPO:
    raise SystemExit("padasip was not imported from %s but from %s" % (REPO, pa.__file__))

LD = np.longdouble


class Violation(Exception):
    """The property does not hold for this case."""


class Known(Exception):
    """The case shows a listed finding (raised only by reproductions)."""
