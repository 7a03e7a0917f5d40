"""The extent reported for an opened file against the positions of its events."""
import os

import numpy as np

from ..gen import make_file
from .c04 import damage

PROPERTY = 'C42'
RULE = ('one evaluation per opened file; distinct non-trivial when the file has at least two events at different places; '
        'distinct by positions of the events')
ASSUMPTIONS = ['files with at least one event']


def extent(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    kw = {}
    if rng.random() < .6:
        lon, lat = rng.uniform(-50, 50), rng.uniform(-50, 50)
        w = float(rng.choice([.05, .5, 4]))
        kw['box'] = (lon, lon + w, lat, lat + w)
    f = make_file(rng, n_flashes=int(rng.choice([1, 2, 5, 12, 30])), **kw)
    broken = case.index % 4 == 3
    if broken:
        damage(rng, f, case)
        case.count('input: damaged trees')
    if rng.random() < .4:
        # centroids that lie outside the events
        f.flash_lon = f.flash_lon + rng.uniform(-1, 1, len(f.flash_lon))
        f.group_lat = np.clip(f.group_lat + rng.uniform(-1, 1, len(f.group_lat)), -60, 60)
        case.count('input: centroids outside the events')
    opts = {}
    for name in ('check_area_units', 'change_energy_units', 'calculate_parent_child', 'fix_bad_DO07_times', 'check_tree'):
        if rng.random() < .15 and not (broken and name in ('check_tree', 'calculate_parent_child')):
            opts[name] = False
    case.describe(options=opts, broken=broken, **f.style)
    g = GLMDataset(f.write(os.path.join(case.tmp, 'in%d.nc' % case.index)), **opts)
    lons, lats = g.dataset.event_lon.data.astype(float), g.dataset.event_lat.data.astype(float)
    if not broken:
        case.check(len(lons) == f.n('event'), 'all events present')
        case.close(lons, f.event_lon, 'positions as encoded', rtol=0, atol=1e-9)
        case.close(lats, f.event_lat, 'positions as encoded', rtol=0, atol=1e-9)
        lons, lats = np.asarray(f.event_lon, float), np.asarray(f.event_lat, float)
    if not len(lons):
        case.count('input: no event left')
        return
    case.begin('extent of an opened file')
    judge(case, g.fov_bounds, lons, lats)
    if opts.get('calculate_parent_child', True) and rng.random() < .5:
        keep = g.dataset.flash_id.data
        g.get_flashes(keep[rng.random(len(keep)) < .4])
        judge(case, g.fov_bounds, lons, lats)
        case.count('input: asked again after a selection')
    if len(set(zip(lons.tolist(), lats.tolist()))) > 1:
        case.nontrivial(np.round(lons, 6).tolist()[:50], np.round(lats, 6).tolist()[:50])


def judge(case, bounds, lons, lats):
    (w, e), (s, n) = [[float(v) for v in b] for b in bounds]
    for name, got, want in (('west', w, lons.min()), ('east', e, lons.max()), ('south', s, lats.min()), ('north', n, lats.max())):
        case.check(abs(got - want) < 2e-6 * max(1, abs(want)), name + ' bound is that of the events', got=got, want=want)


SCENARIOS = [('extent', extent, 150, 1500)]
REQUIRED = {'west bound is that of the events': (150, 1500), 'north bound is that of the events': (150, 1500),
            'input: damaged trees': (20, 200), 'input: centroids outside the events': (30, 300),
            'input: asked again after a selection': (40, 400)}
