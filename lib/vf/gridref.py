"""Per-cell sums computed directly from records, independent of the gridding code."""
import os
import pickle

import numpy as np
import shapely
from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator

from vf.core import Skip
from vf import geom

STEP, LOW = 28e-6, -.31      # locations at which events are gathered
SUMS = ('energy', 'mesh_frac', 'count', 'flash_count', 'group_count', 'total_flash_area', 'total_group_area')
_cache = {}


def corner_table():
    if not _cache:
        import glmtools.io
        with open(os.path.join(os.path.dirname(glmtools.io.__file__), 'G16_corner_lut_fixedgrid.pickle'), 'rb') as f:
            x, y, c = pickle.load(f)
        pts = np.column_stack([np.ravel(x), np.ravel(y)]) * 1e-6
        val = np.asarray(c, float).reshape(len(pts), 8) * 1e-6
        _cache['lin'] = LinearNDInterpolator(pts, val)
        _cache['near'] = NearestNDInterpolator(pts, val)
        _cache['table'] = np.asarray(x) * 1e-6, np.asarray(y) * 1e-6, np.asarray(c) * 1e-6
    return _cache


def make_table(rng, path):
    """A corner table of our own, saved as the shipped one is (microradians); the offsets vary linearly."""
    n, m = (int(v) for v in rng.integers(4, 12, 2))
    x, y = np.meshgrid(np.linspace(-160e3, 160e3, n), np.linspace(-160e3, 160e3, m), indexing='ij')
    size = rng.uniform(30, 90)
    c = np.array([[-1, 1], [-1, -1], [1, -1], [1, 1]]) * size * rng.uniform(.7, 1, (4, 2))
    grow = 1 + .12 * (rng.uniform(-1, 1) * x + rng.uniform(-1, 1) * y) / 160e3
    c = grow[..., None, None] * c
    with open(path, 'wb') as f:
        pickle.dump((x, y, c), f)
    pts, val = np.column_stack([x.ravel(), y.ravel()]) * 1e-6, c.reshape(-1, 8) * 1e-6
    return dict(lin=LinearNDInterpolator(pts, val), near=NearestNDInterpolator(pts, val),
                table=(x * 1e-6, y * 1e-6, c * 1e-6))


def footprints(x, y, table=None):
    """Pixel corners (n, 4, 2) at fixed-grid positions."""
    c = table or corner_table()
    p = np.column_stack([x, y])
    off = c['lin'](p)
    miss = np.isnan(off).any(axis=1)
    if miss.any():
        off[miss] = c['near'](p[miss])
    return p[:, None, :] + off.reshape(-1, 4, 2)


def code_footprints(case, x, y, table=None):
    """The footprints the code uses, after checking them against the table."""
    from glmtools.io.ccd import quads_from_corner_lookup
    mine = footprints(x, y, table)
    q = quads_from_corner_lookup(*(table or corner_table())['table'], np.asarray(x, float), np.asarray(y, float))
    # the two diagonals of a table cell differ by less than this
    case.check(bool(np.abs(q - mine).max() < .5e-6) if len(q) else True, 'footprints follow the corner table',
               worst=float(np.abs(q - mine).max()) if len(q) else 0)
    return q


def gather(ex, ey, energy, ev_group, group_ids, group_flash, group_area, flash_ids, flash_area):
    """Events gathered at their locations: list of dicts."""
    ex, ey = np.asarray(ex, float), np.asarray(ey, float)
    fx, fy = (ex - LOW) / STEP, (ey - LOW) / STEP
    if len(fx) and min(np.abs(fx - np.round(fx)).min(), np.abs(fy - np.round(fy)).min()) < 1e-6:
        raise Skip('event on a location edge')
    gf = dict(zip(np.asarray(group_ids).tolist(), np.asarray(group_flash).tolist()))
    ga = dict(zip(np.asarray(group_ids).tolist(), np.asarray(group_area, float).tolist()))
    fa = dict(zip(np.asarray(flash_ids).tolist(), np.asarray(flash_area, float).tolist()))
    members = {}
    for i, c in enumerate(zip(np.floor(fx).astype(int).tolist(), np.floor(fy).astype(int).tolist())):
        members.setdefault(c, []).append(i)
    eg = np.asarray(ev_group).tolist()
    en = np.asarray(energy, float)
    out = []
    for m in members.values():
        g = set(eg[i] for i in m)
        fl = set(gf[k] for k in g)
        out.append(dict(x=ex[m].mean(), y=ey[m].mean(), energy=en[m].sum(), count=len(m), flash_count=len(fl),
                        group_count=len(g), total_flash_area=sum(fa[k] for k in fl),
                        total_group_area=sum(ga[k] for k in g), min_flash_area=min(fa[k] for k in fl), mesh_frac=1.))
    return out


class Cells(object):
    """Sums over the cells between the given ascending edges; arrays are [x cell, y cell]."""

    def __init__(self, xedge, yedge):
        self.xe, self.ye = np.asarray(xedge, float), np.asarray(yedge, float)
        self.shape = (len(self.xe) - 1, len(self.ye) - 1)
        self.sum = {k: np.zeros(self.shape) for k in SUMS}
        self.tol = {k: np.zeros(self.shape) for k in SUMS}
        self.low = np.full(self.shape, np.inf)       # minimum over certain contributions
        self.lowest = np.full(self.shape, np.inf)    # minimum over possible contributions
        self.hit = np.zeros(self.shape, bool)        # certainly overlapped
        self.maybe = np.zeros(self.shape, bool)
        self.inside = 0.                             # energy on the grid

    def add(self, entry, quad):
        x, y = quad[:, 0], quad[:, 1]
        g = 4 * geom.Q
        i0, i1 = np.searchsorted(self.xe, [x.min() - g, x.max() + g])
        j0, j1 = np.searchsorted(self.ye, [y.min() - g, y.max() + g])
        i0, j0 = max(i0 - 1, 0), max(j0 - 1, 0)
        i1, j1 = min(i1, self.shape[0]), min(j1, self.shape[1])
        if i1 <= i0 or j1 <= j0:
            return
        boxes = shapely.box(self.xe[i0:i1, None], self.ye[None, j0:j1], self.xe[i0 + 1:i1 + 1, None],
                            self.ye[None, j0 + 1:j1 + 1])
        poly = shapely.polygons(quad)
        part = shapely.intersection(boxes, poly)
        over, length = shapely.area(part), shapely.length(part)
        cell, total = shapely.area(boxes), float(shapely.area(poly))
        tol = 8 * geom.Q * (length + .1 * shapely.length(boxes)) + 1e-11 * cell + 6e-15 * np.abs(quad).max() ** 2
        sl = (slice(i0, i1), slice(j0, j1))
        for k in SUMS:
            w = entry[k] / (total if k == 'energy' else cell)
            self.sum[k][sl] += w * over
            self.tol[k][sl] += np.abs(w) * tol
        sure = over > tol
        may = shapely.distance(boxes, poly) <= g
        self.hit[sl] |= sure
        self.maybe[sl] |= may
        m = entry['min_flash_area']
        self.low[sl] = np.where(sure, np.minimum(self.low[sl], m), self.low[sl])
        self.lowest[sl] = np.where(may, np.minimum(self.lowest[sl], m), self.lowest[sl])
        self.inside += entry['energy'] * over.sum() / total


def cells_of(case, entries, xedge, yedge, table=None):
    c = Cells(xedge, yedge)
    if entries:
        q = code_footprints(case, [e['x'] for e in entries], [e['y'] for e in entries], table)
        for e, p in zip(entries, q):
            c.add(e, p)
    return c
