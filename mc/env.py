"""Locates the tree under test and makes its Python packages importable."""
import os
import sys
import warnings

warnings.filterwarnings("ignore")
# one thread, and not by torch.set_num_threads: autograd's threads would trip over that in
# forked processes
os.environ["OMP_NUM_THREADS"] = os.environ["MKL_NUM_THREADS"] = "1"
REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATHS = [f"{REPO}/python", f"{REPO}/projects/pt1/python"]
for _p in reversed(PATHS):
    if _p not in sys.path:
        sys.path.insert(0, _p)
# never import the (possibly stale) build tree
sys.path[:] = [p for p in sys.path if "build/python_packages" not in p]


def install_fake_mlir():
    from . import fakemlir

    return fakemlir.install(REPO)


def quiet_torch():
    import logging

    import torch

    logging.disable(logging.CRITICAL)
    return torch
