"""Point tables made without splitting, against the integers of the file."""
import os
from datetime import datetime, timedelta

import numpy as np

from vf import gen, oracle
from vf.checks.c13 import Recorder

PROPERTY = 'C27'
RULE = ('one evaluation per read; distinct non-trivial when some but not all flashes are selected or the data come in '
        'several chunks; distinct by file, filter, base date and chunk size')
ASSUMPTIONS = ['table columns of IDs hold 32 bits and are compared modulo 2^32',
               'positions and energies are held in single precision']
FOV = 0.1349


def raw_rows(f, ids, lat_raw, lon_raw, t_raw, e_raw):
    return sorted(zip((np.asarray(ids) % 2**32).tolist(), np.asarray(lat_raw).tolist(), np.asarray(lon_raw).tolist(),
                      np.asarray(t_raw).tolist(), np.asarray(e_raw).tolist()))


def children(case, f, table, parent_of_event, base, keep_ev, level):
    """Rows must be the selected events, read back as the integers they come from."""
    def back(v, scale, offset):
        r = (np.asarray(v, 'f8') - offset) / scale
        k = np.round(r)
        case.check((np.abs(r - k) < .02).all() if len(r) else True, 'child values are those of the records', level=level)
        return k.astype('i8')
    lat = back(table['lat'], f.scale(gen.LATLON_SCALE), f.scale(-gen.FOV_HALF))
    lon = back(table['lon'], f.scale(gen.LATLON_SCALE), f.scale(f.lon_offset))
    e = np.asarray(table['power'], 'f8')
    step = f.scale(f.e_pack['event'][0]) * 1e9 / 8

    def steps(v):
        return np.where(np.isnan(v), -1, np.round(np.nan_to_num(v) / step)).astype('i8')
    s0 = (np.datetime64(f.start) - np.datetime64(base)) / np.timedelta64(1, 's')
    t = back((np.asarray(table['time'], 'f8') - s0) * 1e3, f.scale(f.time_scale), f.scale(f.time_add))
    got = raw_rows(f, table['flash_id'].astype('i8'), lat, lon, t, steps(e))
    want = raw_rows(f, parent_of_event[keep_ev], f.event_lat_raw[keep_ev], f.event_lon_raw[keep_ev],
                    f.event_time_raw[keep_ev], steps(f.energy_nJ('event')[keep_ev]))
    case.check(got == want, 'child rows of the %s table' % level, got=len(got), want=len(want),
               example=[(a, b) for a, b in zip(got, want) if a != b][:2])


def parents(case, f, t, level, base, keep):
    ids = getattr(f, level + '_id')[keep] % 2**32
    got = t['flash_id'].astype('i8') % 2**32
    case.check(sorted(got.tolist()) == sorted(ids.tolist()), 'one row per selected record', level=level, got=len(got), want=len(ids))
    o, w = np.argsort(got, kind='stable'), np.argsort(ids, kind='stable')
    t = t[o]
    pick = np.flatnonzero(keep)[w]

    def seconds(raw):
        return (f.times(raw[pick]) - np.datetime64(base)) / np.timedelta64(1, 's')
    if level == 'flash':
        start, stop = seconds(f.flash_first_raw), seconds(f.flash_last_raw)
    else:
        start = stop = seconds(getattr(f, level + '_time_raw'))
    area = f.area_km2(level)[pick] if level != 'event' else np.zeros(len(pick))
    lat, lon = getattr(f, level + '_lat')[pick], getattr(f, level + '_lon')[pick]
    g2f, e2g = f.relations()
    events = {'flash': np.bincount(g2f[e2g], minlength=f.n('flash')), 'group': np.bincount(e2g, minlength=f.n('group')),
              'event': np.ones(f.n('event'), int)}[level][pick]
    case.equal(t['n_points'], events, 'parent number of events', level=level)
    for col, want, tol in (('area', area, 0.), ('total_energy', f.energy_nJ(level)[pick], 0.), ('ctr_lat', lat, 2e-5),
                           ('ctr_lon', lon, 2e-5), ('init_lat', lat, 2e-5), ('init_lon', lon, 2e-5),
                           ('start', start, 2e-6), ('duration', stop - start, 2e-6)):
        case.close(t[col].astype('f8'), np.asarray(want, 'f8'), 'parent %s' % col.replace('_', ' '), rtol=5e-7, atol=tol, level=level)


def judge(case, f, results, base, keep):
    """results: per level the concatenated (child, parent) tables."""
    g2f, e2g = f.relations()
    kg, ke = keep[g2f], keep[g2f[e2g]]
    par = dict(flash=f.flash_id[g2f[e2g]], group=f.group_id[e2g], event=f.event_id)
    for level, kp in (('flash', keep), ('group', kg), ('event', ke)):
        child, parent = results[level]
        children(case, f, child, par[level], base, ke, level)
        parents(case, f, parent, level, base, kp)


def make_filter(rng, f):
    """Filter keywords and the flashes they keep."""
    g2f, e2g = f.relations()
    nf = f.n('flash')
    ne, ng = np.bincount(g2f[e2g], minlength=nf), np.bincount(g2f, minlength=nf)
    keep = np.ones(nf, bool)
    kw = {}
    if rng.random() < .35:
        return kw, keep
    ex, ey = oracle.fixed_grid(f.event_lon, f.event_lat, f.nadir, oracle.revision(f.start))
    fx, fy = oracle.fixed_grid(f.flash_lon.astype('f8'), f.flash_lat.astype('f8'), f.nadir, oracle.revision(f.start))
    lim = dict(x=(-FOV, FOV), y=(-FOV, FOV))

    def between(v):
        """Limits well away from every value."""
        v = np.sort(np.concatenate([v, [v.min() - .02, v.max() + .02]]))
        gap = np.flatnonzero(np.diff(v) > 1e-5)
        i, j = sorted(rng.choice(gap, 2))
        return tuple(float((v[k] + v[k + 1]) / 2) for k in (i, j))
    for name, v in (('lon_range', f.flash_lon.astype('f8')), ('lat_range', f.flash_lat.astype('f8'))):
        if rng.random() < .4:
            kw[name] = between(v)
            keep &= (v > kw[name][0]) & (v < kw[name][1])
    for a, v, w in (('x', fx, ex), ('y', fy, ey)):
        if rng.random() < .3:
            kw[a + '_range'] = lim[a] = between(np.concatenate([v, w]))
            keep &= (v > lim[a][0]) & (v < lim[a][1])
    if rng.random() < .4:
        kw['min_events'] = int(rng.choice([1, 2, int(rng.choice(ne))]))
        keep &= ne >= kw['min_events']
    if rng.random() < .4:
        kw['min_groups'] = int(rng.choice([1, 2, int(rng.choice(ng))]))
        keep &= ng >= kw['min_groups']
    if kw:
        inside = (ex > lim['x'][0]) & (ex < lim['x'][1]) & (ey > lim['y'][0]) & (ey < lim['y'][1])
        has = np.zeros(nf, bool)
        has[g2f[e2g][inside]] = True
        keep &= has
    return kw, keep


def base_date(rng, f):
    day = datetime(f.start.year, f.start.month, f.start.day)
    return day + timedelta(days=int(rng.choice([-40, -1, 0, 0, 0, 1])), hours=int(rng.choice([0, 0, 7])),
                           microseconds=int(rng.choice([0, 0, 0, 250000, 999001])))


def joined(results, level):
    return tuple(np.concatenate([r[level][k] for r in results]) for k in (0, 1))


def tables(case):
    from glmtools.io.glm import GLMDataset
    from glmtools.io.mimic_lma import read_flashes
    rng = case.rng
    f = gen.make_file(rng, n_flashes=int(rng.choice([1, 2, 5, 12, 40])))
    if case.index % 3 == 1:
        gen.newer_times(f)
        case.count('input: times in sub-millisecond steps')
    path = os.path.join(case.tmp, 'in_%d.nc' % case.index)
    f.write(path)
    case.begin('reading')
    g = GLMDataset(path)
    for rep in range(3):
        case.trial()
        kw, keep = make_filter(rng, f)
        base = base_date(rng, f)
        chunk = int(rng.choice([1, 2, 3, 7, 20000]))
        into = rng.random() < .4
        case.describe(file=f.style, filter=kw, base=str(base), chunk=chunk, into_target=into, kept=int(keep.sum()))
        args = dict(base_date=base, clip_events=False, chunk_size=chunk, **kw)
        if rng.random() < .5:
            args['nadir_lon'] = f.nadir
        if chunk == 20000 and rng.random() < .5:
            del args['chunk_size']
        if into:
            rec = {k: Recorder() for k in ('flash', 'group', 'event')}
            read_flashes(g, rec, **args)
            sent = [len(r.got) for r in rec.values()]
            case.check(len(set(sent)) == 1, 'all levels receive the same number of parts', got=sent)
            results = [{k: rec[k].got[i] for k in rec} for i in range(sent[0])]
            case.count('input: sent to targets')
        else:
            results = read_flashes(g, None, **args)
        if not keep.any():
            case.check(all(len(r[k][0]) == 0 for r in results for k in r), 'an empty selection gives no rows')
            case.count('input: empty selection')
            continue
        case.check(len(results) > 0, 'a selection gives tables')
        # a flash, group or event is in one part together with its relatives
        for r in results:
            ids = [set((r['flash'][k]['flash_id']).tolist()) for k in (0, 1)]
            case.check(ids[0] == ids[1], 'children come with their parents')
        judge(case, f, {k: joined(results, k) for k in ('flash', 'group', 'event')}, base, keep)
        if chunk < keep.sum():
            case.count('input: fewer flashes in a chunk than selected')
        if chunk < keep.sum() or 0 < keep.sum() < f.n('flash'):
            case.nontrivial(case.index, rep, chunk, str(base), sorted(kw))


def collection(case):
    from glmtools.io.mimic_lma import GLMncCollection
    rng = case.rng
    start = datetime(2018, 2, 1) + timedelta(seconds=20 * int(rng.integers(0, 900000)))
    n = int(rng.integers(1, 5))
    when = [start + timedelta(seconds=20 * int(k)) for k in rng.choice(12, n, replace=False)]
    files = []
    for k, t in enumerate(when):
        f = gen.make_file(rng, n_flashes=int(rng.choice([0, 1, 3, 10])), start=t)
        path = os.path.join(case.tmp, 'col_%d_%d.nc' % (case.index, k))
        f.write(path)
        files.append((f, path))
    case.begin('collection')
    base = base_date(rng, files[0][0])
    kw = {}
    if rng.random() < .5:
        kw['min_groups'] = int(rng.integers(1, 3))
    if rng.random() < .4:
        kw['lat_range'] = (-20.0131, 60.)
    if rng.random() < .4:
        kw['lon_range'] = (files[0][0].nadir - 20.0123, files[0][0].nadir + 60.)
    points = int(rng.integers(1, 5)) if rng.random() < .5 else None
    case.describe(files=[f.style for f, p in files], times=[str(t) for t in when], base=str(base), min_points=points, **kw)
    c = GLMncCollection([p for f, p in files], base_date=base, min_points=points, **kw)
    case.equal(np.array(list(c.times)), np.array(sorted(when)), 'times of the collection')
    for i in rng.permutation(n):
        f = files[i][0]
        case.trial()
        g2f, e2g = f.relations()
        nf = f.n('flash')
        keep = np.bincount(g2f, minlength=nf) >= kw.get('min_groups', 1)
        keep &= np.bincount(g2f[e2g], minlength=nf) >= (points or 1)
        for name, v in (('lat_range', f.flash_lat), ('lon_range', f.flash_lon)):
            if name in kw:
                keep &= (v > kw[name][0]) & (v < kw[name][1])
        ev, fl = c.data_for_time(when[i])
        if not keep.any():
            case.count('input: empty selection')
            case.check(len(ev) == 0 and len(fl) == 0, 'an empty selection gives no rows')
            continue
        ke = keep[g2f[e2g]]
        children(case, f, ev, f.flash_id[g2f[e2g]], base, ke, 'flash')
        parents(case, f, fl, 'flash', base, keep)
        case.count('input: file of a collection')
        if n > 1:
            case.nontrivial('collection', case.index, int(i))


SCENARIOS = [('tables', tables, 60, 900), ('collection', collection, 20, 300)]
REQUIRED = {'input: times in sub-millisecond steps': (20, 300), 'child rows of the event table': (80, 1200), 'input: fewer flashes in a chunk than selected': (30, 450), 'input: sent to targets': (30, 450),
            'input: empty selection': (3, 40), 'input: file of a collection': (20, 300)}
