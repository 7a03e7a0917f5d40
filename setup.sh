#!/bin/bash
# Nothing is compiled: check that the interpreter and the packages the checks use are there.
HERE="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$HERE/evidence"
exec /opt/venv/bin/python -c "import numpy, scipy, pandas, xarray, netCDF4, shapely, pyclipper, sklearn, pyproj; print('ready')"
