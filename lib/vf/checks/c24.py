"""Sequences of queries on one opened file against the same queries on freshly opened files."""
import os
from datetime import datetime

import numpy as np
import xarray as xr

from vf import gen
from vf.checks.c13 import mesh_for

PROPERTY = 'C24'
RULE = ('one evaluation per query of a sequence; distinct non-trivial when earlier queries were made on the same file and the '
        'answer has rows; distinct by file, position in the sequence and query')
ASSUMPTIONS = ['rows of an answer are compared by ID, their order is not promised']
IDS = dict(number_of_flashes='flash_id', number_of_groups='group_id', number_of_events='event_id', lutevent_id='lutevent_id')


def plain(v):
    """Comparable form of an answer."""
    if isinstance(v, xr.Dataset):
        out = {}
        order = {d: np.argsort(v[i].data, kind='stable') for d, i in IDS.items() if i in v.variables and d in v.dims}
        for name in v.variables:
            a = v[name]
            for ax, d in enumerate(a.dims):
                if d in order:
                    a = a.isel({d: order[d]})
            out[str(name)] = (a.dims, np.asarray(a.data).copy(), a.attrs.get('units'))
        return out
    if isinstance(v, xr.DataArray):
        return np.asarray(v.data).copy()
    if isinstance(v, dict):
        return {k: plain(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    if isinstance(v, np.ndarray) and v.dtype.names:
        # unset columns hold whatever was in memory
        cols = [c for c in v.dtype.names if not c.startswith('mesh_')]
        t = {c: np.asarray(v[c]).copy() for c in cols}
        o = np.lexsort([t[c] for c in sorted(cols)])
        return {c: t[c][o] for c in cols}
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == 'f':
            return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
        if a.dtype.kind == 'O':
            return a.tolist() == b.tolist()
        return bool(np.all(a == b))
    return a == b


def rows(v):
    if isinstance(v, dict):
        return max([rows(w) for w in v.values()] + [0])
    if isinstance(v, (list, tuple)):
        return max([rows(w) for w in v] + [0])
    return v.shape[0] if isinstance(v, np.ndarray) and v.ndim else 0


def snapshot(ds):
    return {str(n): (ds[n].dims, np.asarray(ds[n].data).copy(), dict(ds[n].attrs)) for n in ds.variables}


def unchanged(case, ds, before, after):
    now = set(map(str, ds.variables))
    case.check(now == set(before), 'opened data keep their variables', added=sorted(now - set(before)),
               lost=sorted(set(before) - now), query=after)
    for n, (dims, data, attrs) in before.items():
        v = ds[n]
        case.check(v.dims == dims and same(np.asarray(v.data), data), 'opened data keep their values', variable=n, query=after)
        case.check(same({k: plain(w) for k, w in v.attrs.items()}, {k: plain(w) for k, w in attrs.items()}),
                   'opened data keep their units and attributes', variable=n, query=after)


def pick_ids(rng, ids):
    n = len(ids)
    kind = str(rng.choice(['some', 'one', 'all', 'none', 'repeated']))
    if n == 0 or kind == 'none':
        return ids[:0], kind
    if kind == 'one':
        return ids[[int(rng.integers(n))]], kind
    if kind == 'all':
        return ids[rng.permutation(n)], kind
    if kind == 'repeated':
        return ids[rng.integers(0, n, int(rng.integers(2, 8)))], kind
    return ids[np.flatnonzero(rng.random(n) < rng.random())], kind


def in_order(ds):
    """An answer with the order of its flashes, which follows the list asked for."""
    return [np.asarray(ds.flash_id.data).copy(), ds]


def make_query(rng, f, mesh_at, asked):
    """A query as (label, function of an opened file). All choices are made here."""
    from glmtools.io.glm import get_lutevents
    from glmtools.io.mimic_lma import read_flashes
    from glmtools.grid.split_events import (split_event_dataset_from_props, split_group_dataset_from_props,
                                            split_flash_dataset_from_props, replicate_and_weight_split_child_dataset)
    kind = str(rng.choice(['flashes', 'flashes', 'subset', 'subset', 'reduce', 'parents', 'counts', 'lut', 'lut of part', 'points',
                           'cells', 'weights', 'bounds']))
    dts = dict(flash='u2', group='u4', event='u4')
    if kind in ('flashes', 'lut of part'):
        ids, how = pick_ids(rng, f.flash_id.astype('u2'))
        if asked and rng.random() < .6:
            # an earlier list in another order, or with one flash exchanged
            ids, how = rng.permutation(asked[int(rng.integers(len(asked)))]), 'reordered'
            if len(ids) and rng.random() < .3:
                ids[int(rng.integers(len(ids)))] = rng.choice(f.flash_id.astype('u2'))
                how = 'exchanged'
        asked.append(ids.copy())
        if kind == 'flashes':
            return 'get_flashes ' + how, lambda g: in_order(g.get_flashes(ids.copy()))
        return 'locations of selected flashes, ' + how, lambda g: get_lutevents(g.get_flashes(ids.copy()))
    filters = {}
    if rng.random() < .5:
        filters['min_events'] = int(rng.choice([1, 2, 4, 10**6]))
    if rng.random() < .4:
        filters['min_groups'] = int(rng.choice([1, 2, 3]))
    if rng.random() < .4:
        a, b = sorted(rng.uniform(-50, 50, 2))
        filters['lat_range'] = (float(a), float(b))
    if rng.random() < .3:
        a, b = sorted(rng.uniform(-.13, .13, 2))
        filters['x_range'] = (float(a), float(b))
    if kind == 'subset':
        return 'subset_flashes %s' % filters, lambda g: g.subset_flashes(**filters)
    level = str(rng.choice(['flash', 'group', 'event']))
    if kind == 'reduce':
        ids, how = pick_ids(rng, getattr(f, level + '_id').astype(dts[level]))
        return 'reduce to %s, %s' % (level, how), lambda g: g.reduce_to_entities(level + '_id', ids.copy())
    if kind == 'parents':
        if rng.random() < .5:
            return 'flash of events', lambda g: g.replicate_parent_ids('flash_id', 'event_parent_group_id')
        return 'flash of groups', lambda g: g.replicate_parent_ids('flash_id', 'group_parent_flash_id')
    if kind == 'counts':
        a, b = [('flash_id', 'event_id'), ('flash_id', 'group_id'), ('group_id', 'event_id'), ('flash_id', None)][int(rng.integers(4))]
        return 'count children %s %s' % (a, b), lambda g: [np.asarray(c) for c in g.count_children(a, b)]
    if kind == 'lut':
        return 'event locations', lambda g: get_lutevents(g.dataset)
    if kind == 'bounds':
        return 'field of view', lambda g: g.fov_bounds
    base = datetime(f.start.year, f.start.month, f.start.day)
    if kind == 'points':
        chunk = int(rng.choice([1, 3, 20000]))
        return 'point tables %s' % filters, lambda g: read_flashes(g, None, base_date=base, clip_events=False, chunk_size=chunk,
                                                                   nadir_lon=f.nadir, **filters)
    if kind == 'cells':
        return 'cell tables %s' % filters, lambda g: read_flashes(g, None, base_date=base, clip_events=mesh_at, nadir_lon=f.nadir,
                                                                  **filters)
    # weighting of shards; the shards themselves are made up
    ids, how = pick_ids(rng, getattr(f, level + '_id').astype(dts[level]))
    if len(ids) == 0:
        return make_query(rng, f, mesh_at, asked)
    par = np.repeat(ids, 2)
    w = rng.random(len(par))
    props = np.zeros(len(par), dtype=[('poly_ctr', 'f8', (2,)), ('mesh_frac_area', 'f8'), ('event_frac_area', 'f8'),
                                      ('mesh_idx', 'i8', (2,)), ('event_id', par.dtype)])
    props['event_id'], props['event_frac_area'], props['mesh_frac_area'] = par, w, w
    make = dict(event=split_event_dataset_from_props, group=split_group_dataset_from_props, flash=split_flash_dataset_from_props)[level]
    names = dict(event=['event_energy', 'event_time_offset'], group=['group_area', 'group_energy'],
                 flash=['flash_area', 'flash_energy'])[level]

    def weigh(g):
        return replicate_and_weight_split_child_dataset(
            g, make(props.copy()), parent_id=level + '_id', split_child_parent_id='split_%s_parent_%s_id' % (level, level),
            names=names, weights={level + '_energy': 'split_%s_area_fraction' % level,
                                  names[0]: 'split_%s_area_fraction' % level} if level != 'event' else
            {'event_energy': 'split_event_area_fraction'})
    return 'weights at %s level, %s' % (level, how), weigh


def ask(query, g):
    try:
        return 'answer', plain(query(g))
    except Exception as e:
        return 'exception', type(e).__name__


def sequence(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = gen.make_file(rng, n_flashes=int(rng.choice([0, 1, 3, 8, 20], p=[.06, .14, .3, .3, .2])))
    path = os.path.join(case.tmp, 'q%d.nc' % case.index)
    f.write(path)
    case.begin('queries')
    g = GLMDataset(path)
    if f.n('event') and rng.random() < .5:
        g.dataset.load()
    before = snapshot(g.dataset)
    mesh_at = None
    if f.n('event'):
        c = int(rng.integers(f.n('event')))
        x, y = g.dataset.event_x.data[[c]], g.dataset.event_y.data[[c]]
        xe, ye, mesh_at = mesh_for(x, y, 112e-6, 400e-6)
    log, asked = [], []
    for step in range(int(rng.integers(3, 9))):
        if not f.n('event'):
            a, b = (1, 2)
            label, query = [('subset_flashes', lambda g: g.subset_flashes(min_events=a)), ('field of view', lambda g: g.fov_bounds),
                            ('get_flashes', lambda g: g.get_flashes(np.zeros(0, 'u2')))][int(rng.integers(3))]
        else:
            label, query = make_query(rng, f, mesh_at, asked)
        log.append(label)
        case.describe(file=f.style, queries=list(log))
        case.trial()
        fresh = GLMDataset(path)
        want = ask(query, fresh)
        got = ask(query, g)
        case.check(got[0] == want[0], 'a query answers as on a fresh file', query=label, got=str(got[1])[:80], want=str(want[1])[:80])
        case.check(same(got[1], want[1]), 'a query answers as on a fresh file', query=label, earlier=log[:-1])
        unchanged(case, g.dataset, before, label)
        unchanged(case, fresh.dataset, before, label)
        if rng.random() < .3:
            case.check(same(ask(query, g)[1], want[1]), 'asking again gives the same answer', query=label)
        fresh.dataset.close()
        case.count('input: ' + label.split(',')[0].split(' {')[0] if got[0] == 'answer' else 'input: query refused')
        if step and got[0] == 'answer' and rows(got[1]):
            case.nontrivial(case.index, step, label)


SCENARIOS = [('sequence', sequence, 80, 900)]
REQUIRED = {'opened data keep their values': (2600, 30000), 'asking again gives the same answer': (30, 500),
            'input: event locations': (5, 100), 'input: cell tables': (5, 100), 'input: point tables': (5, 100)}
