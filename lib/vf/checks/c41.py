"""Grids of records that are not split against counts made directly from the files."""
import os
from datetime import datetime, timedelta

import numpy as np

from vf import images
from vf.checks import c15
from vf.core import Skip

PROPERTY = 'C41'
RULE = ('one evaluation per frame of a run; distinct non-trivial when records of at least two flashes are on the grid; distinct '
        'by files, grid and frame')
ASSUMPTIONS = ['base gridder classes and the functions that count points come from a stand-in for the missing lmatools package',
               'a cell is not judged when a record lies within the precision of the tables of its edge',
               'averages are judged when one file contributes to the frame']
NAMES = ('flash_extent_density', 'flash_centroid_density', 'average_flash_area', 'total_energy', 'group_extent_density',
         'group_centroid_density', 'average_group_area', 'minimum_flash_area')


class Points(object):
    """The selected records of one file: positions on the grid, times in seconds, parents and values."""

    def __init__(self, f, keep):
        g2f, e2g = f.relations()
        fl = np.isin(f.flash_id, keep)
        self.xy, self.t = {}, {}
        take = dict(flash=fl, group=fl[g2f], event=fl[g2f[e2g]])
        rows = dict(flash=np.arange(len(fl)), group=np.arange(len(g2f)), event=np.arange(len(e2g)))
        for level, m in take.items():
            rows[level] = rows[level][m]
            self.xy[level] = [np.asarray(getattr(f, level + v)[m], float) for v in ('_lon', '_lat')]
            self.t[level] = times(f, level)[m]
        e = rows['event']
        # rows of the parents of each event
        self.of = dict(group=e2g[e], flash=g2f[e2g[e]])
        self.rows = rows
        self.energy = f.energy_nJ('event')[e]
        self.area = dict(flash=f.area_km2('flash'), group=f.area_km2('group'))


def times(f, level):
    return f.times(getattr(f, dict(flash='flash_first_raw', group='group_time_raw', event='event_time_raw')[level]))


def cells(xy, xe, ye, slack):
    """Indices of cells, and whether the position is too close to an edge to tell."""
    out, near = [], np.zeros(len(xy[0]), bool)
    for v, e in zip(xy, (xe, ye)):
        out.append(np.searchsorted(e, v, 'right') - 1)
        near |= np.abs(v[:, None] - e[None, :]).min(axis=1) < slack
    return out[0], out[1], near


class Frame(object):
    def __init__(self, points, xe, ye, t0, t1, slack):
        shape = self.shape = (len(xe) - 1, len(ye) - 1)
        self.loose = {n: np.zeros(shape, bool) for n in NAMES}
        self.value = {n: np.zeros(shape) for n in NAMES}
        self.value['minimum_flash_area'][:] = np.inf
        self.files = {'flash': 0, 'group': 0}
        self.records = 0
        for p in points:
            for level in ('flash', 'group'):
                m = (p.t[level] >= t0) & (p.t[level] < t1)
                self.files[level] += bool(m.any())
                self.add(level + '_centroid_density', [v[m] for v in p.xy[level]], xe, ye, slack)
                # events belong to the frame of their flash or group
                live = dict(zip(p.rows[level].tolist(), m.tolist()))
                ev = np.array([live[r] for r in p.of[level].tolist()], bool)
                i, j, near = cells([v[ev] for v in p.xy['event']], xe, ye, slack)
                self.mark([level + '_extent_density', 'average_%s_area' % level] +
                          (['minimum_flash_area'] if level == 'flash' else []), i[near], j[near])
                pairs = {(int(r), int(a), int(b)) for r, a, b in zip(p.of[level][ev], i, j)}
                for r, a, b in pairs:
                    if 0 <= a < shape[0] and 0 <= b < shape[1]:
                        area = p.area[level][r]
                        self.value[level + '_extent_density'][a, b] += 1
                        self.value['average_%s_area' % level][a, b] += area
                        if level == 'flash':
                            low = self.value['minimum_flash_area']
                            low[a, b] = min(low[a, b], area)
                            self.records += 1
            m = (p.t['event'] >= t0) & (p.t['event'] < t1)
            self.add('total_energy', [v[m] for v in p.xy['event']], xe, ye, slack, p.energy[m])
        for level in ('flash', 'group'):
            n = self.value[level + '_extent_density']
            v = self.value['average_%s_area' % level]
            v[n > 0] /= n[n > 0]
        low = self.value['minimum_flash_area']
        low[~np.isfinite(low)] = 0

    def mark(self, names, i, j):
        for a, b in zip(i, j):
            for n in names:
                self.loose[n][max(0, a - 1):max(0, a + 2), max(0, b - 1):max(0, b + 2)] = True

    def add(self, name, xy, xe, ye, slack, w=None):
        i, j, near = cells(xy, xe, ye, slack)
        self.mark([name], i[near], j[near])
        ok = (i >= 0) & (j >= 0) & (i < self.shape[0]) & (j < self.shape[1])
        np.add.at(self.value[name], (i[ok], j[ok]), 1. if w is None else w[ok])


def judge(case, got, want):
    """The eight fields of a frame."""
    case.trial()
    for name in NAMES:
        v, w = np.asarray(got[name], float), want.value[name]
        case.check(v.shape == w.shape, 'the grid has the size asked for', got=v.shape, want=w.shape)
        skip = want.loose[name]
        if name.startswith('average'):
            if want.files[name.split('_')[1]] > 1:
                continue
        bad = ~skip & ~(np.abs(v - w) <= 1e-5 * np.abs(w) + 1e-9)
        case.check(not bad.any(), 'unsplit ' + name.replace('_', ' '), got=v[bad][:4], want=w[bad][:4], cells=np.argwhere(bad)[:4].tolist())
    case.count('input: flashes in cells', want.records)


def prepare(case, width):
    rng = case.rng
    interval = float(rng.choice([60., 20., 5., 1.5]))
    frames = int(rng.integers(1, 5)) if interval > 2 else int(rng.integers(8, 16))
    start = images.start_time(rng)
    if datetime(2018, 10, 13) < start < datetime(2018, 11, 8):
        start = start + timedelta(days=40)
    nadir = float(rng.choice([-75.0, -137.2, -89.5]))
    ev = int(rng.integers(1, 5)) if rng.random() < .3 else None
    gr = int(rng.integers(1, 3)) if rng.random() < .3 else None
    rev = [None, -1, 0, 1][int(rng.integers(4))]
    inputs = c15.make_inputs(case, int(rng.integers(1, 4)), max(interval, 20.), frames, start, width, float(np.float32(nadir)))
    kw = dict(base_date=datetime(start.year, start.month, start.day), frame_interval=interval, output_filename_prefix='GLM',
              spatial_scale_factor=1., energy_grids=('total_energy',))
    if ev is not None:
        kw['min_points_per_flash'] = ev
    if gr is not None:
        kw['min_groups_per_flash'] = gr
    if rev is not None:
        kw['ellipse_rev'] = rev
    case.describe(interval=interval, frames=frames, start=str(start), nadir=nadir, min_events=ev, min_groups=gr, ellipse=rev,
                  files=[it[0].style for it in inputs])
    return interval, frames, start, nadir, ev, gr, rev, inputs, kw


def selection(case, it, ev, gr, window):
    """IDs of the flashes to be gridded; None when one is too close to the limits to tell."""
    f = it[0]
    keep = c15.Frame.selected(it, ev, gr)
    x, y, x0, x1, y0, y1, slack = window(f)
    if len(x) == 0:
        return keep
    for v, a, b in ((x, x0, x1), (y, y0, y1)):
        if np.abs(v - a).min() < slack or np.abs(v - b).min() < slack:
            return None
    return keep[np.isin(keep, f.flash_id[(x > x0) & (x < x1) & (y > y0) & (y < y1)])]


def run(case, kw, inputs, start, frames, interval):
    """Grids handed to the writer, by file name."""
    from glmtools.grid.make_grids import grid_GLM_flashes
    calls = {}

    def writer(out, t0, t, x, y, lon, lat, clat, clon, grid, name, description, **k):
        case.check(out not in calls, 'each grid is written once', name=out)
        calls[out] = dict(x=np.array(x), y=np.array(y), grid=np.array(grid), name=name, t=np.array(t), options=k, t0=t0,
                          description=description)

    order = list(case.rng.permutation(len(inputs)))
    got = grid_GLM_flashes([inputs[i][1] for i in order], start, start + timedelta(seconds=interval * frames), output_writer=writer, **kw)
    return got, calls


def lonlat(case):
    rng = case.rng
    interval, frames, start, nadir, ev, gr, rev, inputs, kw = prepare(case, float(rng.choice([.1, .5, 3.])))
    lon = np.concatenate([it[0].event_lon for it in inputs] + [np.array([-80., -79.9])])
    lat = np.concatenate([it[0].event_lat for it in inputs] + [np.array([10., 10.1])])
    if any(it[0].n('event') for it in inputs):
        lon, lat = lon[:-2], lat[:-2]
    if np.abs(lon).max() > 179:
        raise Skip('records beyond the date line')
    d = np.array([float(rng.choice([.03125, .0625, .125])), float(rng.choice([.03125, .0625, .125]))])
    low = np.floor((np.array([lon.min(), lat.min()]) - rng.uniform(-.1, .2, 2)) / d) * d
    n = np.ceil((np.array([lon.max(), lat.max()]) + rng.uniform(-.1, .2, 2) - low) / d).astype(int)
    n = np.clip(n, 2, 200)
    # the number of cells does not depend on how sums are rounded
    high = low + n * d
    xe, ye = (low[k] + d[k] * np.arange(n[k] + 1) for k in (0, 1))
    case.describe(x=[low[0], high[0]], y=[low[1], high[1]], d=list(d), n=n.tolist())
    kw.update(proj_name='latlong', dx=d[0], dy=d[1], x_bnd=(low[0], high[0]), y_bnd=(low[1], high[1]), ctr_lat=0., ctr_lon=nadir,
              outpath=str(rng.choice(['', 'a', os.path.join('b', 'c')])))
    if rng.random() < .3:
        kw['output_kwargs'] = {'note': 7}
    case.begin('gridding')
    got, calls = run(case, kw, inputs, start, frames, interval)
    case.begin('comparing')
    case.check(len(got) == 1 and sorted(got[0][1]) == sorted(calls), 'the names written are reported', got=[list(g[1])[:2] for g in got])
    fields = {}
    for c in calls.values():
        # edges may be counted one more by rounding up
        case.check(len(c['x']) in (n[0], n[0] + 1) and len(c['y']) in (n[1], n[1] + 1), 'the grid has the size asked for',
                   got=(len(c['x']), len(c['y'])), want=n.tolist())
        case.close(c['x'][:n[0]], (xe[1:] + xe[:-1]) / 2, 'cells are centred where asked', rtol=0, atol=1e-9)
        case.close(c['y'][:n[1]], (ye[1:] + ye[:-1]) / 2, 'cells are centred where asked', rtol=0, atol=1e-9)
        case.check(c['name'] not in fields, 'a file for each field', name=c['name'])
        if 'output_kwargs' in kw:
            case.check(c['options'].get('note') == 7, 'options reach the writer')
        fields[c['name']] = c['grid'][:n[0], :n[1]]
    case.check(sorted(fields) == sorted(NAMES), 'a file for each field', got=sorted(fields))
    points = []
    for it in inputs:
        f = it[0]
        if f.n('event') == 0:
            continue
        keep = selection(case, it, ev, gr, lambda f: (f.flash_lon, f.flash_lat, low[0], high[0], low[1], high[1], 1e-5))
        if keep is None:
            raise Skip('flash on the edge of the window')
        points.append(Points(f, keep))
    compare(case, fields, points, xe, ye, start, frames, interval, 2e-5)


def compare(case, fields, points, xe, ye, start, frames, interval, slack):
    for k in range(frames):
        t0 = np.datetime64(start) + np.timedelta64(int(round(k * interval * 1e9)), 'ns')
        t1 = np.datetime64(start) + np.timedelta64(int(round((k + 1) * interval * 1e9)), 'ns')
        want = Frame(points, xe, ye, t0, t1, slack)
        judge(case, {n: g[:, :, k] for n, g in fields.items()}, want)
        if want.records > 1:
            case.nontrivial(case.index, k, len(xe), float(xe[0]))


def fixed(case):
    """On the fixed grid, whole or in tiles: every selected record is on it once."""
    rng = case.rng
    interval, frames, start, nadir, ev, gr, rev, inputs, kw = prepare(case, .2)
    case.begin('gridding on the fixed grid')
    c15.open_inputs(case, inputs, rev)
    from lmatools.grid.fixed import get_GOESR_coordsys
    s = int(rng.choice([1, 2, 2, 3]))
    d = float(rng.choice([2.**-12, 2.**-11]))
    # records are placed at the Earth's surface, away from where the lightning is seen
    x = np.concatenate([it[2].event_x.data for it in inputs if it[0].n('event')] or [np.array([.01, .0102])])
    y = np.concatenate([it[2].event_y.data for it in inputs if it[0].n('event')] or [np.array([.02, .0202])])
    xb, yb, nx, ny = c15.window(rng, x, y, d, np.full(4, 1500e-6), s)
    case.describe(x=list(xb), y=list(yb), n=(nx, ny), tiles=s)
    kw.update(proj_name='geos', dx=d, dy=d, x_bnd=xb, y_bnd=yb, ctr_lat=0., ctr_lon=nadir, outpath='', fixed_grid=True, nadir_lon=nadir,
              pixel_coords=get_GOESR_coordsys(sat_lon_nadir=nadir)[0])
    if s > 1 or rng.random() < .5:
        kw['subdivide'] = s
    got, calls = run(case, kw, inputs, start, frames, interval)
    case.begin('comparing')
    case.check(sorted(tuple(int(v) for v in g[0]) for g in got) == [(i, j) for i in range(s) for j in range(s)], 'one report for each tile')
    case.check(sorted(n for g in got for n in g[1]) == sorted(calls), 'the names written are reported', got=[list(g[1])[:2] for g in got])
    total = {n: np.zeros(frames) for n in NAMES}
    for (i, j), names in got:
        case.check(sorted(calls[n]['name'] for n in names) == sorted(NAMES), 'a file for each field', got=list(names))
        for n in names:
            c = calls[n]
            for axis, (b, m, k) in enumerate(((xb, nx, i), (yb, ny, j))):
                q = b[0] + d * (m // s) * k + d * (.5 + np.arange(m // s if k < s - 1 else m - (s - 1) * (m // s)))
                case.check(c['xy'[axis]].shape == q.shape and c['grid'].shape[axis] == len(q), 'tiles have the cells of the grid',
                           got=c['grid'].shape, want=len(q), axis=axis)
                case.close(c['xy'[axis]], q, 'tiles have the cells of the grid', rtol=0, atol=1e-9)
            total[c['name']] += c['grid'].sum(axis=(0, 1))
    points = [Points(it[0], c15.Frame.selected(it, ev, gr)) for it in inputs if it[0].n('event')]
    for k in range(frames):
        case.trial()
        t0, t1 = (np.datetime64(start) + np.timedelta64(int(round(q * interval * 1e9)), 'ns') for q in (k, k + 1))
        n = 0
        for level in ('flash', 'group'):
            m = [(p.t[level] >= t0) & (p.t[level] < t1) for p in points]
            n = sum(int(v.sum()) for v in m)
            case.close(total[level + '_centroid_density'][k], n, 'every centroid is on the grid once', rtol=0, atol=1e-3)
            # no more cells than events
            ev_n = sum(int(np.isin(p.of[level], p.rows[level][v]).sum()) for p, v in zip(points, m))
            e = total[level + '_extent_density'][k]
            case.check(n - 1e-3 <= e <= ev_n + 1e-3, 'extents count each record in at least one cell', got=e, low=n, high=ev_n)
        w = sum(float(p.energy[(p.t['event'] >= t0) & (p.t['event'] < t1)].sum()) for p in points)
        case.close(total['total_energy'][k], w, 'all energy is on the grid', rtol=2e-5, atol=1e-9)
        if n > 1:
            case.nontrivial('fixed', case.index, k, s, list(xb))


SCENARIOS = [('lonlat', lonlat, 90, 900), ('fixed', fixed, 30, 250)]
REQUIRED = {'all energy is on the grid': (40, 400), 'unsplit total energy': (150, 1500), 'input: flashes in cells': (150, 3000)}
