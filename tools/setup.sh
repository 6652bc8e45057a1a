#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly. Confirm that everything they need is there.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True
from sim import boot
import numpy, scipy, shapely, geojson, cachetools
from osgeo import gdal
print('ready', gdal.__version__)"
