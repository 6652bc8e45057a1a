"""Boots one process of the simulator: fixes the environment, installs the seams and imports the code under test.

Everything here happens before the first import of the code under test, so that the seams are in place however the
code refers to the functions behind them."""
import os
import sys

REPO = os.environ.get("OSML_REPO", "/repo")
SRC = os.path.join(REPO, "src")

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PROJ_NETWORK": "OFF", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "GDAL_NUM_THREADS": "1", "CPL_DEBUG": "OFF", "GDAL_PAM_PROXY_DIR": "", "TZ": "UTC",
    "GDAL_CACHEMAX": "64",
}


def reexec_environment():
    """Environment of a check process; PYTHONHASHSEED is kept if the caller chose one (determinism test)."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GDAL_", "CPL_", "AWS_", "VSI", "PYTHON"))}
    if os.environ.get("SIM_HASHSEED"):
        env["PYTHONHASHSEED"] = os.environ["SIM_HASHSEED"]
    else:
        env["PYTHONHASHSEED"] = "0"
    env.update({k: v for k, v in ENV.items() if v != ""})
    return env


class BootError(Exception):
    pass


def boot():
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    import logging
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    import warnings
    warnings.simplefilter("ignore")

    # third party libraries are imported with the real primitives
    import numpy, scipy, scipy.interpolate, scipy.optimize, shapely, shapely.geometry, pyproj, geojson, cv2, cachetools  # noqa
    import xsdata.formats.dataclass.parsers, xsdata.formats.dataclass.serializers  # noqa
    import defusedxml.ElementTree, concurrent.futures, queue, secrets, uuid, tempfile, random  # noqa
    import cachetools.keys  # noqa
    from osgeo import gdal, gdal_array, osr, ogr, gdalconst  # noqa
    cv2.setNumThreads(1)
    gdal.DontUseExceptions()
    osr.DontUseExceptions()
    ogr.DontUseExceptions()
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    gdal.SetErrorHandler("CPLQuietErrorHandler")

    from . import sched, inject, env
    env.install()
    sched.install()
    inject.install()

    import importlib
    import pkgutil
    import aws.osml
    import aws.osml.photogrammetry
    f = os.path.realpath(aws.osml.photogrammetry.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise BootError(f"code under test imported from {f}, not from {SRC}")
    for name in ("aws.osml.gdal", "aws.osml.image_processing", "aws.osml.features", "aws.osml.formats"):
        pkg = importlib.import_module(name)
        for m in pkgutil.walk_packages(pkg.__path__, name + "."):
            importlib.import_module(m.name)
    # warm up lazily imported pieces of third party libraries
    import numpy as np
    from scipy.optimize import minimize
    minimize(lambda v: float((v[0] - 1) ** 2 + v[1] ** 2), np.array([0.0, 0.0]), method="Nelder-Mead",
             options={"maxiter": 5})
    scipy.interpolate.RectBivariateSpline([0, 1, 2], [0, 1, 2], np.eye(3), kx=1, ky=1)(0.5, 0.5)
    shapely.Polygon([(0, 0), (1, 0), (1, 1)]).centroid
