"""Process set-up shared by every check: where the code under test and the
property-based-testing library come from, and a private scratch directory."""
import atexit
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, ".lib")
_PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_scratch = None
_owner = None


def setup():
    """Deterministic, quiet, single-threaded numerics; hypothesis importable
    without shadowing the numpy/astropy the code under test runs with."""
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.pop("PHOENIX_PATH", None)
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    global _scratch, _owner
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    _scratch = tempfile.mkdtemp(prefix="exorad_pbt_", dir=base)
    _owner = os.getpid()
    os.environ["MPLCONFIGDIR"] = os.path.join(_scratch, "mpl")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(_scratch, "hyp")
    os.environ["TMPDIR"] = _scratch
    tempfile.tempdir = _scratch
    atexit.register(_cleanup)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa
    except ImportError:
        for p in (LIB, _PYVENV):
            if os.path.isdir(os.path.join(p, "hypothesis")):
                sys.path.append(p)
                break
        import hypothesis  # noqa
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def import_sut():
    """Import the package under test, keeping its start-up chatter out of the
    check's stdout."""
    import contextlib
    import io
    import logging
    import warnings

    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        import exorad  # noqa
        import exorad.tasks  # noqa
    for h in list(logging.getLogger("exorad").handlers):
        # keep the handler (the package drives it) but mute its stream
        try:
            h.setStream(open(os.devnull, "w"))
        except Exception:
            pass
    warnings.simplefilter("ignore")
    path = os.path.realpath(os.path.dirname(exorad.__file__))
    if not path.startswith(os.path.realpath(REPO)):
        raise RuntimeError("exorad imported from %s, not %s" % (path, REPO))


def scratch():
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)
