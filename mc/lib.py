"""Glue to the code under test: environment, builders, output silencing."""
from __future__ import annotations

import contextlib
import io
import os
import sys
import tempfile

REPO = os.environ.get("RF_REPO", "/repo")


def setup_env():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("TQDM_DISABLE", "1")
    sys.dont_write_bytecode = True
    if "MPLCONFIGDIR" not in os.environ:
        os.environ["MPLCONFIGDIR"] = tempfile.mkdtemp(prefix="rfmc_mpl_")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


_rf = None


def rf():
    global _rf
    if _rf is None:
        setup_env()
        import warnings
        warnings.simplefilter("ignore")
        import reservoirflow
        assert os.path.realpath(reservoirflow.__file__).startswith(
            os.path.realpath(REPO) + os.sep), reservoirflow.__file__
        _rf = reservoirflow
    return _rf


@contextlib.contextmanager
def quiet():
    import warnings
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def make_grid(spec, **over):
    """spec: dict(n, d, k, phi, z, comp, unit, unify)"""
    import numpy as np
    s = dict(spec)
    s.update(over)

    def arr(v):
        return np.array(v, dtype=float) if isinstance(v, (list, tuple)) else v

    n, d, k = s["n"], s.get("d", (1, 1, 1)), s.get("k", (None,) * 3)
    with quiet():
        return rf().grids.RegularCartesian(
            nx=n[0], ny=n[1], nz=n[2],
            dx=arr(d[0]), dy=arr(d[1]), dz=arr(d[2]),
            kx=arr(k[0]), ky=arr(k[1]), kz=arr(k[2]),
            phi=arr(s.get("phi")), z=arr(s.get("z", 0)),
            comp=s.get("comp"), unit=s.get("unit", "field"),
            unify=s.get("unify", True), dtype=s.get("dtype", "double"))


def make_fluid(spec):
    with quiet():
        return rf().fluids.SinglePhase(
            mu=spec.get("mu", 1.0), B=spec.get("B", 1.0),
            rho=spec.get("rho"), comp=spec.get("comp"),
            unit=spec.get("unit", "field"), dtype=spec.get("dtype", "double"))
