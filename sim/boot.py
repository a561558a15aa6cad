"""Imports NRWAL from the repository with every seam in place."""
import logging
import os
import random
import sys
import warnings

from . import fsim, sched
from .core import REPO


def boot():
    sched.patch_locks()
    import numpy as np
    import pandas          # noqa: F401  (before the seams are installed)
    import yaml            # noqa: F401
    sys.path.insert(0, REPO)
    import NRWAL
    if not os.path.realpath(NRWAL.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('NRWAL imported from %s' % NRWAL.__file__)
    import NRWAL.handlers.config   # noqa: F401
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    random.seed(0)
    np.random.seed(0)
    fsim.patch()
    sched.install(os.path.join(REPO, 'NRWAL') + os.sep)
