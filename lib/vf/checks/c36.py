"""Point tables made from split records."""
import os
from datetime import timedelta

import numpy as np
import xarray as xr

from vf import gen
from vf.checks import c27

PROPERTY = 'C36'
RULE = ('one evaluation per set of three tables; distinct non-trivial when some record has several shards and some has '
        'none; distinct by shards')
ASSUMPTIONS = ['table columns of IDs hold 32 bits and are compared modulo 2^32',
               'positions and energies are held in single precision',
               'the sign of a cell fraction tells the winding of the piece and is dropped']


def shards(rng, f, level):
    """Random shards of the records of a level, as the splitting functions name them."""
    ids = getattr(f, level + '_id')
    at = rng.integers(0, len(ids), int(rng.integers(1, 4 * len(ids) + 2)))
    if rng.random() < .5:
        at = np.sort(at)
    n = len(at)
    dim = 'number_of_split_%s_children' % level
    p = 'split_%s_' % level
    raw = {'flash': f.flash_first_raw, 'group': f.group_time_raw, 'event': f.event_time_raw}[level]
    time = p + ('time_offset_of_first_event' if level == 'flash' else 'time_offset')
    energy = (10 ** rng.uniform(-8, 3, n)).astype(str(rng.choice(['f4', 'f8'])))
    d = {p + 'lon': rng.uniform(-180, 180, n), p + 'lat': rng.uniform(-60, 60, n),
         p + 'mesh_area_fraction': rng.random(n) * rng.choice([1., 1., 3., -1.], n), p + 'area_fraction': rng.random(n),
         p + 'mesh_x_idx': rng.integers(0, 60000, n), p + 'mesh_y_idx': rng.integers(0, 60000, n),
         p + 'parent_%s_id' % level: ids[at].astype('u8'), time: f.times(raw)[at], p + 'energy': energy}
    return at, raw, xr.Dataset({k: (dim, v) for k, v in d.items()})


def table(case):
    from glmtools.io.glm import GLMDataset
    from glmtools.io.mimic_lma import mimic_lma_dataset
    rng = case.rng
    f = gen.make_file(rng, n_flashes=int(rng.choice([1, 2, 5, 12])))
    if case.index % 3 == 1:
        gen.newer_times(f)
    path = f.write(os.path.join(case.tmp, 'in_%d.nc' % case.index))
    g = GLMDataset(path)
    base = c27.base_date(rng, f)
    made = {k: shards(rng, f, k) for k in ('flash', 'group', 'event')}
    keep = {k: v[2].copy(deep=True) for k, v in made.items()}
    case.describe(file=f.style, base=str(base), shards={k: len(v[0]) for k, v in made.items()})
    case.begin('tables of shards')
    case.trial()
    out = mimic_lma_dataset(g.dataset, base, split_events=made['event'][2], split_groups=made['group'][2],
                            split_flashes=made['flash'][2])
    case.check(set(out) == {'flash', 'group', 'event'}, 'a table for each level')
    for level, (at, raw, ds) in made.items():
        child, parent = out[level]
        p = 'split_%s_' % level
        case.check(len(child) == len(at), 'one row for each shard', level=level, got=len(child), want=len(at))
        sec = (f.times(raw)[at] - np.datetime64(base)) / np.timedelta64(1, 's')
        o = np.lexsort((child['mesh_frac'], child['flash_id'].astype('i8') % 2**32))
        w = np.lexsort((np.abs(keep[level][p + 'mesh_area_fraction'].data), getattr(f, level + '_id')[at] % 2**32))
        case.equal(child['flash_id'][o].astype('i8') % 2**32, getattr(f, level + '_id')[at][w] % 2**32, 'rows name their parent', level=level)
        for col, var, tol in (('lon', 'lon', 2e-5), ('lat', 'lat', 8e-6), ('power', 'energy', 0.), ('mesh_frac', 'mesh_area_fraction', 0.)):
            case.close(child[col][o].astype('f8'), np.abs(ds[p + var].data[w].astype('f8')) if col == 'mesh_frac' else ds[p + var].data[w].astype('f8'), 'shard %s' % col, rtol=3e-7, atol=tol, level=level)
        case.close(child['time'][o], sec[w], 'shard time', rtol=0, atol=2e-6, level=level)
        case.equal(child['mesh_xi'][o], ds[p + 'mesh_x_idx'].data[w], 'shard cell', level=level)
        case.equal(child['mesh_yi'][o], ds[p + 'mesh_y_idx'].data[w], 'shard cell', level=level)
        case.check(bool((child['alt'] == 0).all()), 'shards have no altitude')
        c27.parents(case, f, parent, level, base, np.ones(f.n(level), bool))
        case.check(ds.identical(keep[level]), 'the shards are left as they were', level=level)
        if len(set(at.tolist())) < len(at) and len(set(at.tolist())) < f.n(level):
            case.nontrivial(level, at.tolist()[:40])


SCENARIOS = [('table', table, 60, 500)]
REQUIRED = {'one row for each shard': (180, 1500), 'shard time': (180, 1500)}
