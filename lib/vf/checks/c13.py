"""The per-cell table handed to the gridding stage against direct sums."""
import os
from collections import Counter
from datetime import datetime, timedelta

import numpy as np

from vf import gen, gridref
from vf.core import Skip

PROPERTY = 'C13'
RULE = ('one evaluation per table; distinct non-trivial when it has at least two rows and a footprint is cut; '
        'distinct by selection and mesh')
ASSUMPTIONS = ['areas are exact to the resolution of the integer coordinates used for clipping',
               'single-precision columns are compared to relative 4e-6']
SPACINGS = [14e-6, 28e-6, 56e-6, 56e-6, 112e-6, 224e-6, 280e-6]
COLUMN = dict(energy='power', mesh_frac='mesh_frac', count='lutevent_count', flash_count='lutevent_flash_count',
              group_count='lutevent_group_count', total_flash_area='lutevent_total_flash_area',
              total_group_area='lutevent_total_group_area')


class Recorder(object):
    def __init__(self):
        self.got = []

    def send(self, pair):
        self.got.append(tuple(t.copy() for t in pair))


def small_file(rng, **kw):
    lat = float(rng.uniform(-50, 50))
    lon = float(rng.uniform(-45, 45))
    w = float(rng.choice([.3, .8, 1.5]))
    f = gen.make_file(rng, n_flashes=int(rng.choice([1, 2, 4, 9])), box=(lon, lon + w, lat, lat + w), **kw)
    return f


def mesh_for(x, y, d, margin):
    """Cell edges covering positions x, y with a margin (negative: cutting some off)."""
    from glmtools.grid.clipping import QuadMeshSubset
    a, b = x.min() - margin, y.min() - margin
    nx = max(2, int(np.ceil((x.max() + margin - a) / d)))
    ny = max(2, int(np.ceil((y.max() + margin - b) / d)))
    xe, ye = a + d * np.arange(nx + 1), b + d * np.arange(ny + 1)
    X, Y = np.meshgrid(xe, ye)
    return xe, ye, QuadMeshSubset(X, Y, n_neighbors=160, regular=True)


def entries_of(ds):
    return gridref.gather(ds.event_x.data, ds.event_y.data, ds.event_energy.data, ds.event_parent_group_id.data,
                          ds.group_id.data, ds.group_parent_flash_id.data, ds.group_area.data,
                          ds.flash_id.data, ds.flash_area.data)


def judge_rows(case, t, cells, when, base):
    """t: the per-cell table of one selection. Mesh rows run along y, columns along x."""
    j, i = t['mesh_xi'].astype(int), t['mesh_yi'].astype(int)
    nx, ny = cells.shape
    case.check(((i >= 0) & (i < nx) & (j >= 0) & (j < ny)).all(), 'rows address the mesh')
    case.check(len(set(zip(i.tolist(), j.tolist()))) == len(t), 'one row per cell')
    seen = np.zeros(cells.shape, bool)
    seen[i, j] = True
    case.check(not (cells.hit & ~seen).any(), 'every overlapped cell has a row', missing=int((cells.hit & ~seen).sum()),
               cells=int(cells.hit.sum()))
    case.check(not (seen & ~cells.maybe).any(), 'only overlapped cells have rows')
    for k, col in COLUMN.items():
        got = np.zeros(cells.shape)
        got[i, j] = t[col]
        bad = ~(np.abs(got - cells.sum[k]) <= cells.tol[k] + 4e-6 * np.abs(cells.sum[k]))
        case.check(not bad.any(), 'cell ' + k.replace('_', ' '), got=got[bad][:4], want=cells.sum[k][bad][:4],
                   n=int(bad.sum()))
    m = t['lutevent_min_flash_area'].astype(float)
    ok = (m >= cells.lowest[i, j] * (1 - 1e-6)) & (m <= cells.low[i, j] * (1 + 1e-6))
    case.check(ok.all(), 'cell minimum flash area', got=m[~ok][:4], want=cells.low[i, j][~ok][:4])
    sec = (when - base).total_seconds()
    case.check(np.abs(t['time'] - sec).max() < 1e-3 if len(t) else True, 'rows carry the file time', got=t['time'][:3], want=sec)
    cx, cy = t['x'].astype(float), t['y'].astype(float)
    tol = 1e-8 + 1e-7 * np.abs(np.array([cells.xe[[0, -1]], cells.ye[[0, -1]]])).max()
    ok = (cx >= cells.xe[i] - tol) & (cx <= cells.xe[i + 1] + tol) & (cy >= cells.ye[j] - tol) & (cy <= cells.ye[j + 1] + tol)
    case.check(ok.all(), 'row positions are in their cells')


def judge_parents(case, fl, gr, ds, base):
    of_event = ds.event_parent_group_id.data
    flash_of = dict(zip(ds.group_id.data.tolist(), ds.group_parent_flash_id.data.tolist()))
    events = dict(group=Counter(of_event.tolist()), flash=Counter(flash_of[k] for k in of_event.tolist()))
    for level, t, t0, t1 in (('flash', fl, 'flash_time_offset_of_first_event', 'flash_time_offset_of_last_event'),
                             ('group', gr, 'group_time_offset', 'group_time_offset')):
        ids = ds[level + '_id'].data
        case.check(sorted(t['flash_id'].astype('u4').tolist()) == sorted(ids.astype('u4').tolist()),
                   'one row per selected ' + level, got=len(t), want=len(ids))
        o, w = np.argsort(t['flash_id'].astype('u4')), np.argsort(ids.astype('u4'))
        case.equal(t['n_points'][o], np.array([events[level][k] for k in ids[w].tolist()]), level + ' rows carry the number of events')
        start = (ds[t0].data[w] - np.datetime64(base)) / np.timedelta64(1, 's')
        stop = (ds[t1].data[w] - np.datetime64(base)) / np.timedelta64(1, 's')
        for col, want, tol in (('area', ds[level + '_area'].data[w], 0), ('total_energy', ds[level + '_energy'].data[w], 0),
                               ('ctr_x', ds[level + '_x'].data[w], 1e-8), ('ctr_y', ds[level + '_y'].data[w], 1e-8),
                               ('start', start, 1e-5), ('duration', stop - start, 1e-5)):
            case.close(t[col][o].astype(float), want.astype(float), level + ' rows carry ' + col, rtol=3e-7, atol=tol)


def open_file(case, **kw):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = small_file(rng, **kw)
    f.event_energy_raw[f.event_energy_raw == 65535] = 5
    path = os.path.join(case.tmp, 'i%d.nc' % case.index)
    f.write(path)
    return f, GLMDataset(path)


def base_dates(rng, start):
    day = datetime(start.year, start.month, start.day)
    return day + timedelta(days=int(rng.choice([-1, 0, 0, 0, 1])))


def cells(case):
    from glmtools.io.mimic_lma import read_flashes
    rng = case.rng
    f, g = open_file(case)
    ds = g.dataset
    d = float(rng.choice(SPACINGS))
    base = base_dates(rng, f.start)
    cover = rng.random() < .65
    # a footprint reaches at most about 120 microradians from its middle
    margin = 130e-6 + rng.uniform(0, 3) * d if cover else -rng.uniform(0, 200e-6)
    case.describe(file=f.style, spacing=d, cover=cover, margin=margin)
    case.begin('per-cell table')
    xe, ye, mesh = mesh_for(ds.event_x.data, ds.event_y.data, d, margin)
    kw = {}
    sub = ds
    if rng.random() < .4:
        kw = dict(min_events=int(rng.integers(1, 6)), min_groups=int(rng.integers(1, 3)))
        sub = g.subset_flashes(**kw)
        if sub.flash_id.shape[0] == 0:
            case.count('input: empty selection')
            out = read_flashes(g, None, base_date=base, clip_events=mesh, nadir_lon=f.nadir, **kw)
            case.check(sum(len(r['event'][0]) for r in out if r) == 0, 'an empty selection gives no rows')
            return
    before = ds.copy(deep=True)
    table = None
    if rng.random() < .25:
        kw['corner_pickle'] = os.path.join(case.tmp, 'corners%d.pickle' % case.index)
        table = gridref.make_table(rng, kw['corner_pickle'])
        case.count('input: corner table of our own')
    want = gridref.cells_of(case, entries_of(sub), xe, ye, table)
    when = f.start
    if rng.random() < .5:
        case.count('input: into a target')
        rec = {k: Recorder() for k in ('flash', 'group', 'event')}
        read_flashes(g, rec, base_date=base, clip_events=mesh, nadir_lon=f.nadir, **kw)
        n = [len(rec[k].got) for k in ('flash', 'group', 'event')]
        if not want.hit.any() and not sum(n):
            case.count('input: nothing on the mesh')
            return
        case.check(n == [1, 1, 1], 'each target receives the tables once', got=n)
        out = {k: rec[k].got[0] for k in rec}
    else:
        out = read_flashes(g, None, base_date=base, clip_events=mesh, nadir_lon=f.nadir, **kw)
        case.check(len(out) == 1, 'one table for one chunk')
        out = out[0]
    for k in ('flash', 'group', 'event'):
        judge_rows(case, out[k][0], want, when, base)
    judge_parents(case, out['flash'][1], out['group'][1], sub, base)
    total = float(sub.event_energy.data.astype(float).sum())
    if cover:
        case.close(float(out['event'][0]['power'].astype(float).sum()), total, 'energy is conserved', rtol=2e-5, spacing=d)
        case.count('input: %.1f km' % (d / 28e-6))
    else:
        case.close(float(out['event'][0]['power'].astype(float).sum()), want.inside, 'energy on the mesh', rtol=2e-5,
                   atol=1e-5 * total)
        case.count('input: mesh smaller than the data')
    if len(out['event'][0]) > 1:
        case.nontrivial(f.style, d, margin, sorted(kw))
    for v in ('event_energy', 'event_x', 'flash_area', 'flash_id'):
        case.equal(ds[v].data, before[v].data, 'the opened data are not altered')


def chunks(case):
    from glmtools.io.mimic_lma import read_flashes
    rng = case.rng
    f, g = open_file(case)
    ds = g.dataset
    n = ds.flash_id.shape[0]
    d = float(rng.choice([56e-6, 112e-6, 280e-6]))
    size = int(rng.choice([1, 1, 1, 2, 2, 3, n, n + 1, max(1, n // 2), max(1, n - 1)]))
    base = base_dates(rng, f.start)
    case.describe(file=f.style, chunk=size, flashes=n)
    case.begin('chunks')
    xe, ye, mesh = mesh_for(ds.event_x.data, ds.event_y.data, d, 140e-6)
    out = read_flashes(g, None, base_date=base, clip_events=mesh, nadir_lon=f.nadir, chunk_size=size)
    fl = np.concatenate([r['flash'][1] for r in out])
    gr = np.concatenate([r['group'][1] for r in out])
    judge_parents(case, fl, gr, ds, base)
    e = sum(float(r['event'][0]['power'].astype(float).sum()) for r in out)
    case.close(e, float(ds.event_energy.data.astype(float).sum()), 'chunks sum to the same energy', rtol=2e-5)
    for r in out:
        # each chunk is judged on its own flashes
        sub = g.get_flashes(r['flash'][1]['flash_id'])
        judge_rows(case, r['event'][0], gridref.cells_of(case, entries_of(sub), xe, ye), f.start, base)
    if size < f.n('flash'):
        case.nontrivial('chunks', f.style, size)
        case.count('input: fewer flashes in a chunk than in the file')


def off_mesh(case):
    """Nothing of the selection lies on the mesh."""
    from glmtools.io.mimic_lma import read_flashes
    rng = case.rng
    f, g = open_file(case)
    ds = g.dataset
    case.describe(file=f.style)
    case.begin('selection off the mesh')
    far = ds.event_x.data + (.02 if ds.event_x.data.max() < 0 else -.02)
    xe, ye, mesh = mesh_for(far[:5], ds.event_y.data[:5], 56e-6, 200e-6)
    rec = {k: Recorder() for k in ('flash', 'group', 'event')}
    target = rec if rng.random() < .5 else None
    out = read_flashes(g, target, base_date=base_dates(rng, f.start), clip_events=mesh, nadir_lon=f.nadir)
    rows = sum(len(c) for r in rec.values() for c, p in r.got) if target else sum(len(r['event'][0]) for r in out if r)
    case.check(rows == 0, 'no rows off the mesh', rows=rows)
    case.nontrivial('off', f.style)


SCENARIOS = [('cells', cells, 70, 900), ('chunks', chunks, 24, 260), ('off_mesh', off_mesh, 6, 40)]
REQUIRED = {'cell energy': (200, 2500), 'energy is conserved': (25, 400), 'energy on the mesh': (12, 150),
            'input: fewer flashes in a chunk than in the file': (2, 40), 'no rows off the mesh': (6, 40), 'input: 0.5 km': (2, 40)}
