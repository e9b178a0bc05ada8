"""
Process bootstrap: clean environment, private scratch space, code under test.

Everything the code under test may write (caches, temporary files, index maps)
is redirected to a scratch directory which is removed on exit.  The package is
always compiled from the current sources (no byte code of the code under test
is read or written), so a check sees the working tree as it is.
"""
from __future__ import annotations

import atexit
import os
import shutil
import sys
import tempfile
from importlib.machinery import FileFinder, SourceFileLoader
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


class _SourceOnlyLoader(SourceFileLoader):
    """A loader which never uses cached byte code."""

    def get_data(self, path):
        if str(path).endswith(".pyc"):
            raise OSError("byte code disabled for code under test")
        return super().get_data(path)

    def _cache_bytecode(self, *args, **kwargs):
        return None


def _hook(path):
    real = os.path.realpath(path or os.getcwd())
    if (real == REPO_REAL or real.startswith(REPO_REAL + os.sep)) and os.path.isdir(real):
        return FileFinder(path, (_SourceOnlyLoader, [".py"]))
    raise ImportError


REPO_REAL = os.path.realpath(REPO)


def scrub_and_reexec():
    """Re-execute in the project's interpreter with a fixed environment."""
    if os.environ.get("VF_BOOTED") == "1":
        return
    scratch = tempfile.mkdtemp(prefix="vf_", dir=os.environ.get("VF_TMP", None))
    env = {
        "HOME": scratch, "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "NUMEXPR_MAX_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
        "MPLBACKEND": "Agg", "MPLCONFIGDIR": scratch + "/mpl", "QT_QPA_PLATFORM": "offscreen",
        "HTTP_PROXY": "http://127.0.0.1:9", "HTTPS_PROXY": "http://127.0.0.1:9",
        "http_proxy": "http://127.0.0.1:9", "https_proxy": "http://127.0.0.1:9",
        "XDG_CACHE_HOME": scratch + "/cache", "TMPDIR": scratch + "/tmp",
        "NUMBA_CACHE_DIR": scratch + "/numba", "PYTHONDONTWRITEBYTECODE": "1",
        "VF_BOOTED": "1", "VF_SCRATCH": scratch, "VF_REPO": REPO,
        "PYTHONPATH": str(VERIF), "PYTHONWARNINGS": "ignore",
    }
    for key in ("VERIF_SEED", "VERIF_TIER", "VF_JOBS", "VF_DEBUG", "VF_SCALE", "VF_EVIDENCE", "VF_MAXREP", "VF_DEADLINE"):
        if key in os.environ:
            env[key] = os.environ[key]
    for sub in ("cache", "tmp", "numba", "mpl"):
        os.makedirs(os.path.join(scratch, sub), exist_ok=True)
    mpl = "/opt/venv/mplconfig"
    if os.path.isdir(mpl):
        shutil.copytree(mpl, scratch + "/mpl", dirs_exist_ok=True)
    import subprocess

    code = 1
    try:
        proc = subprocess.Popen([PYTHON, "-X", "faulthandler", "-m", "vf.run", *sys.argv[1:]], env=env, cwd=str(VERIF))
        code = proc.wait()
        if code < 0:
            code = 128 - code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def activate():
    """Make the code under test importable from its sources."""
    sys.dont_write_bytecode = True
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, REPO_REAL)
    import warnings

    warnings.simplefilter("ignore")
    import dascore as dc

    assert os.path.realpath(dc.__file__).startswith(REPO_REAL + os.sep), dc.__file__
    try:  # no progress bars in worker output
        dc._debug = True
    except Exception:
        pass
    return dc


def scratch_dir(prefix="d_"):
    """A new directory within the scratch area."""
    return Path(tempfile.mkdtemp(prefix=prefix, dir=os.environ.get("TMPDIR")))


atexit  # referenced so linters keep the import grouping stable
