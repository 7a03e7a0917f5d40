import numpy as np
from matplotlib.path import Path


class TimeSeriesPolygonLassoFilter(object):
    def __init__(self, coord_names=None, time_key=None, time_edges=(), polys=(), basedate=None):
        self.coord_names, self.time_key, self.polys = coord_names, time_key, polys
        self.edges = np.array([(t - basedate).total_seconds() for t in time_edges])

    def filter_mask(self, a):
        mask = np.zeros(len(a), bool)
        xy = np.column_stack([a[c] for c in self.coord_names])
        for p, t0, t1 in zip(self.polys, self.edges[:-1], self.edges[1:]):
            t = a[self.time_key]
            mask |= (t >= t0) & (t < t1) & Path(p).contains_points(xy)
        return mask
