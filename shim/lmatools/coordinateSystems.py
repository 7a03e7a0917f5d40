import numpy as np
from pyproj import CRS, Transformer


class _System(object):
    def _transformers(self, crs, r_equator, r_pole):
        ecef = CRS.from_dict(dict(proj='geocent', a=r_equator, b=r_pole))
        self._to = Transformer.from_crs(crs, ecef, always_xy=True)
        self._from = Transformer.from_crs(ecef, crs, always_xy=True)

    @staticmethod
    def _apply(transform, x, y, z, pre, zpre, post, zpost):
        x, y, z = np.broadcast_arrays(*(np.asarray(v, dtype='f8') for v in (x, y, z)))
        shape = x.shape
        a, b, c = transform(x.ravel() * pre, y.ravel() * pre, z.ravel() * zpre)
        return tuple((np.asarray(v) / d).reshape(shape)[()]
                     for v, d in zip((a, b, c), (post, post, zpost)))

    def toECEF(self, x, y, z):
        return self._apply(self._to.transform, x, y, z, self.scale, self.zscale, 1., 1.)

    def fromECEF(self, x, y, z):
        return self._apply(self._from.transform, x, y, z, 1., 1., self.scale, self.zscale)


class GeographicSystem(_System):
    def __init__(self, ellipse='WGS84', datum='WGS84', r_equator=6378137.0,
                 r_pole=6356752.314245):
        self.scale = self.zscale = 1.0
        self._transformers(CRS.from_dict(dict(proj='longlat', a=r_equator, b=r_pole)),
                           r_equator, r_pole)


class GeostationaryFixedGridSystem(_System):
    def __init__(self, subsat_lon=0.0, r_equator=6378137.0, r_pole=6356752.31414,
                 h=35786023.0, sweep_axis='x'):
        self.scale = self.zscale = h
        self._transformers(CRS.from_dict(dict(
            proj='geos', h=h, lon_0=subsat_lon, sweep=sweep_axis, a=r_equator, b=r_pole)),
            r_equator, r_pole)
