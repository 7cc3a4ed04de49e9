"""Process set-up: environment, and import of ModOpt from the working tree.

ModOpt is always compiled from the sources of the tree under test: byte code
caches are neither read nor written for it, so an edit made within the time
stamp resolution of a stale cache can not go unnoticed.
"""

import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv"
VENV_PYTHON = f"{VENV}/bin/python"

# Heavy optional packages are hidden (ModOpt supports their absence) except
# from the checks about them.
HEAVY = ("tensorflow", "torch", "ptwt")
SHOWN = {"C25": ("tensorflow", "torch", "ptwt"), "C17": ("torch", "ptwt")}

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "CUDA_VISIBLE_DEVICES": "",
}


class _SourceOnly(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class _Block(importlib.abc.MetaPathFinder):
    """Hide optional heavy packages (the code supports their absence)."""

    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] in self.names:
            raise ImportError(f"{fullname} is hidden from this check")
        return None


def _hook(path):
    if os.path.realpath(path).startswith(SRC):
        return importlib.machinery.FileFinder(path, (_SourceOnly, [".py"]))
    raise ImportError


def boot(prop=None):
    """Make ``import modopt`` come from the working tree.

    TensorFlow is looked up by ModOpt with ``find_spec``; a ``None`` entry in
    ``sys.modules`` makes that look-up say "not installed".
    """
    os.environ.update(ENV)
    sys.dont_write_bytecode = True
    hide = set(HEAVY) - set(SHOWN.get(prop, ()))
    if "tensorflow" in hide:
        sys.modules["tensorflow"] = None
        hide.remove("tensorflow")
    if hide:
        sys.meta_path.insert(0, _Block(hide))
    sys.path_hooks.insert(0, _hook)
    sys.path.insert(0, SRC)
    sys.path_importer_cache.clear()
    if prop == "C38":  # arrays of a device: CuPy is not installed
        from . import device

        sys.modules["cupy"] = device.module()
    import warnings

    warnings.filterwarnings("ignore")
    import modopt

    where = os.path.realpath(modopt.__file__)
    if not where.startswith(SRC + os.sep):
        raise SystemExit(f"modopt imported from {where}, not from {SRC}")
