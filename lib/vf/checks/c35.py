"""Flash and event tables cut by time window and polygon."""
import os
from datetime import datetime, timedelta

import numpy as np
import shapely

from vf import gen

PROPERTY = 'C35'
RULE = ('one evaluation per series of windows; distinct non-trivial when records fall in several windows, or a polygon '
        'keeps some but not all of them; distinct by file times, windows and polygons')
ASSUMPTIONS = ['the library that cuts tables at given edges is replaced by a stand-in',
               'windows and polygons keep clear of the records by 0.5 ms and 1e-4 degrees',
               'times are counted from the start of the day of the first window']


def make_files(case, rng):
    start = datetime(2018, 2, 1) + timedelta(days=int(rng.integers(0, 200)), seconds=20 * int(rng.integers(0, 4300)))
    if case.index % 5 == 4:
        # records on both sides of midnight
        start = datetime(start.year, start.month, start.day) - timedelta(seconds=20 * int(rng.integers(1, 4)))
        case.count('input: files around midnight')
    n = int(rng.integers(1, 4))
    out = []
    for k, i in enumerate(rng.choice(6, n, replace=False)):
        f = gen.make_file(rng, n_flashes=int(rng.choice([0, 1, 5, 15, 30])), nadir=-75., box=(-30, 30, -30, 30),
                          start=start + timedelta(seconds=20 * int(i)))
        path = os.path.join(case.tmp, 'win_%d_%d.nc' % (case.index, k))
        f.write(path)
        out.append((f, path))
    return start, out


def seconds(f, raw, base):
    return (f.times(raw) - np.datetime64(base)) / np.timedelta64(1, 's')


def selected(f, points, groups, lon, lat):
    g2f, e2g = f.relations()
    nf = f.n('flash')
    keep = np.ones(nf, bool)
    if groups is not None:
        keep &= np.bincount(g2f, minlength=nf) >= groups
    if points is not None:
        keep &= np.bincount(g2f[e2g], minlength=nf) >= points
    if lon is not None:
        keep &= (f.flash_lon > lon[0]) & (f.flash_lon < lon[1])
    if lat is not None:
        keep &= (f.flash_lat > lat[0]) & (f.flash_lat < lat[1])
    return keep, keep[g2f[e2g]], f.flash_id[g2f[e2g]] if nf else np.zeros(0, int)


def rows(ids, t, lon, lat, energy):
    """Comparable rows: ID, time to 0.1 ms, position to 1e-4 degrees and the energy to four digits."""
    e = np.asarray(energy, 'f8')
    return sorted(zip(np.asarray(ids, 'i8').tolist(), np.round(np.asarray(t) * 1e4).astype('i8').tolist(),
                      np.round(np.asarray(lon, 'f8') * 1e3).tolist(), np.round(np.asarray(lat, 'f8') * 1e3).tolist(),
                      ['%.3e' % v for v in e]))


def loose(a, b):
    """Equal up to one unit of the rounding."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or any(abs(p - q) > 1 for p, q in zip(x[1:4], y[1:4])):
            return False
        p, q = float(x[4]), float(y[4])
        if not (p == q or abs(p - q) <= 2e-3 * abs(q) or (p != p and q != q)):
            return False
    return True


def polygon(rng, pts):
    c = pts[int(rng.integers(len(pts)))] + rng.normal(0, 1, 2) if len(pts) else np.array([-75., 0.])
    for _ in range(20):
        a = np.sort(rng.uniform(0, 2 * np.pi, int(rng.integers(3, 8))))
        p = c + np.column_stack([np.cos(a), np.sin(a)]) * rng.choice([2., 12., 25.]) * rng.uniform(.6, 1., (len(a), 1))
        s = shapely.Polygon(p)
        if not s.is_valid or s.area < .01:
            continue
        if len(pts) == 0 or shapely.distance(s.exterior, shapely.points(pts)).min() > 1e-4:
            return p, s
    return None, None


def windows(case):
    from glmtools.io.mimic_lma import TimeSeriesGLMFlashSubset, TimeSeriesGLMPolygonFlashSubset
    rng = case.rng
    first, files = make_files(case, rng)
    t0 = first + timedelta(seconds=int(rng.choice([0, 0, 3, -20])), milliseconds=1)
    dt = timedelta(seconds=float(rng.choice([5, 20, 60, 7])))
    nw = int(rng.integers(1, 25 if dt.total_seconds() < 10 else 9))
    t1 = t0 + nw * dt
    base = datetime(t0.year, t0.month, t0.day)
    kw = {}
    if rng.random() < .3:
        kw['min_events'] = int(rng.integers(1, 5))
    if rng.random() < .3:
        kw['min_groups'] = int(rng.integers(1, 4))
    if rng.random() < .3:
        kw['lat_range'] = (-10.0131, 60.)
    if rng.random() < .3:
        kw['lon_range'] = (-85.0123, 0.)
    poly = case.index % 2 == 1
    shapes = []
    if poly:
        # single precision is what the tables hold
        pts = np.vstack([np.column_stack([f.event_lon, f.event_lat]) for f, p in files]
                        + [np.column_stack([f.flash_lon, f.flash_lat]) for f, p in files])
        for k in range(int(rng.integers(1, 4))):
            p, s = polygon(rng, pts)
            if p is not None:
                shapes.append((p, s))
        at = [t0 + timedelta(seconds=float(v)) for v in np.cumsum(np.r_[rng.integers(-20, 20), rng.integers(1, 120, len(shapes))])]
        kw.update(polys=[[tuple(v) for v in p] for p, s in shapes], t_edges_polys=at)
    case.describe(files=[f.style for f, p in files], t_start=str(t0), t_end=str(t1), dt=str(dt), options=list(kw))
    case.begin('windows')
    case.trial()
    order = rng.permutation(len(files))
    cls = TimeSeriesGLMPolygonFlashSubset if poly else TimeSeriesGLMFlashSubset
    series = list(cls([files[i][1] for i in order], t0, t1, dt, **kw).gen_chopped_events_flashes())
    case.check(len(series) == len(files), 'one series for each file', got=len(series), want=len(files))
    files.sort(key=lambda v: v[0].start)
    edges = [(t0 + k * dt - base).total_seconds() for k in range(nw + 1)]
    used = kept = total = 0
    for (f, path), (ev, fl) in zip(files, series):
        case.check(len(ev) == len(fl) == nw, 'one table for each window', got=(len(ev), len(fl)), want=nw)
        kf, ke, ev_flash = selected(f, kw.get('min_events'), kw.get('min_groups'), kw.get('lon_range'), kw.get('lat_range'))
        te, tf = seconds(f, f.event_time_raw, base), seconds(f, f.flash_first_raw, base)
        ee = f.energy_nJ('event')
        inside_e, inside_f = np.ones(len(te), bool), np.ones(len(tf), bool)
        if poly:
            pe = [(t - base).total_seconds() for t in at]
            inside_e[:], inside_f[:] = False, False
            for (p, s), a, b in zip(shapes, pe[:-1], pe[1:]):
                inside_e |= (te >= a) & (te < b) & shapely.contains(s, shapely.points(f.event_lon, f.event_lat))
                inside_f |= (tf >= a) & (tf < b) & shapely.contains(s, shapely.points(f.flash_lon.astype('f8'), f.flash_lat.astype('f8')))
        for k in range(nw):
            we = ke & inside_e & (te >= edges[k]) & (te < edges[k + 1])
            wf = kf & inside_f & (tf >= edges[k]) & (tf < edges[k + 1])
            total += int((ke & (te >= edges[k]) & (te < edges[k + 1])).sum())
            kept += int(we.sum())
            used += bool(we.any())
            got = rows(ev[k]['flash_id'], ev[k]['time'], ev[k]['lon'], ev[k]['lat'], ev[k]['power'])
            want = rows(ev_flash[we], te[we], f.event_lon[we], f.event_lat[we], ee[we])
            case.check(loose(got, want), 'events of the window', window=k, got=len(got), want=len(want),
                       example=[v for v in zip(got, want) if v[0] != v[1]][:2])
            got = rows(fl[k]['flash_id'], fl[k]['start'], fl[k]['init_lon'], fl[k]['init_lat'], fl[k]['total_energy'])
            want = rows(f.flash_id[wf], tf[wf], f.flash_lon[wf], f.flash_lat[wf], f.energy_nJ('flash')[wf])
            case.check(loose(got, want), 'flashes of the window', window=k, got=len(got), want=len(want))
    if poly and 0 < kept < total:
        case.count('input: polygons keep some of the events')
        case.nontrivial(case.index, str(t0), kept)
    elif not poly and used > 1:
        case.nontrivial(case.index, str(t0), used)


SCENARIOS = [('windows', windows, 80, 700)]
REQUIRED = {'input: files around midnight': (10, 100), 'events of the window': (300, 3000), 'flashes of the window': (300, 3000),
            'input: polygons keep some of the events': (5, 60)}
