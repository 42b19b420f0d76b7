"""Imports everything third-party and puts the process under the simulator."""
import io
import logging
import os
import sys
import warnings


def start():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    real = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()  # solvers announce themselves at import
    try:
        import pypyfix

        pypyfix.install()
        from cloudpathlib import CloudPath

        # Finalizers run whenever the collector likes, outside every simulated run.
        CloudPath.__del__ = lambda self: None
        import cvxpy  # noqa: F401
        import dill  # noqa: F401
        import google.cloud.storage  # noqa: F401
        import pandas  # noqa: F401
        import pyDOE  # noqa: F401
        import scipy.optimize  # noqa: F401
        import scipy.spatial.distance  # noqa: F401
        import scipy.stats  # noqa: F401
        from absl import app, flags  # noqa: F401

        flags.FLAGS.mark_as_parsed()
        from . import beamsim, fakes, patches

        patches.install()
        fakes.install()
        beamsim.install()
        from . import core, world  # noqa: F401
    finally:
        sys.stdout, sys.stderr = real
    import numpy as np

    np.seterr(all="ignore")


def hard_exit(code):
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
