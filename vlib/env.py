"""Load the real `inflation` package from /repo for symbolic execution.

The package is imported from /repo's working tree, with numba's JIT switched
off so that every function is the plain Python that is written in the source,
and z3 is taken from the verification venv.
"""
import os
import sys
import warnings

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_loaded = False


def load():
    """Import the package (JIT off) and return it."""
    global _loaded
    import numpy as np
    if not _loaded:
        if VT_SITE not in sys.path:
            sys.path.append(VT_SITE)
        # the editable install points at /repo; be explicit all the same
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        if os.environ.get("NUMBA_DISABLE_JIT") == "1":
            # With the JIT off, numba's scalar types are used as dtypes by the
            # undecorated functions: give them their numpy meaning.
            import numba
            import numba.types as nt
            for mod in (numba, nt):
                for name, dt in (("uint8", np.uint8), ("int8", np.int8),
                                 ("uint16", np.uint16), ("int16", np.int16),
                                 ("uint32", np.uint32), ("int32", np.int32),
                                 ("uint64", np.uint64), ("int64", np.int64),
                                 ("intc", np.intc), ("intp", np.intp),
                                 ("int_", np.int_), ("bool_", np.bool_),
                                 ("boolean", np.bool_),
                                 ("float64", np.float64),
                                 ("float32", np.float32)):
                    setattr(mod, name, dt)
        _loaded = True
        import tqdm             # no thread, for the sake of fork()
        tqdm.tqdm.monitor_interval = 0
    import inflation
    assert os.path.realpath(inflation.__file__).startswith(
        os.path.realpath(REPO) + os.sep), inflation.__file__
    return inflation


def mod(name):
    """The module inflation.<name> (some are shadowed by a class)."""
    import importlib
    load()
    return importlib.import_module("inflation." + name)
