"""Events, groups and flashes each split by their own footprint, against exact overlaps."""
import os
import pickle

import numpy as np
import shapely

from vf import gen, geom, gridref, oracle
from vf.checks import c13, c27

PROPERTY = 'C45'
RULE = ('one evaluation per set of three tables; distinct non-trivial when some flash has several events and is cut by '
        'the mesh; distinct by file and mesh')
ASSUMPTIONS = ['areas are exact to the resolution of the integer coordinates used for clipping',
               'table columns of IDs hold 32 bits and are compared modulo 2^32',
               'positions and energies are held in single precision']
HOLE = 'footprint with a hole'


def degree_table(rng, path, nadir):
    """A corner table in degrees, centred under the satellite; the offsets vary linearly."""
    x, y = np.meshgrid(np.linspace(-75, 75, int(rng.integers(4, 10))), np.linspace(-66, 66, int(rng.integers(4, 10))), indexing='ij')
    c = np.array([[-1, 1], [-1, -1], [1, -1], [1, 1]]) * rng.uniform(.02, .08) * rng.uniform(.7, 1, (4, 2))
    a, b = rng.uniform(-.3, .3, 2)
    with open(path, 'wb') as f:
        pickle.dump((x, y, (1 + (a * x + b * y) / 75)[..., None, None] * c), f)
    return lambda lon, lat: (1 + (a * (lon - nadir) + b * lat) / 75)[:, None, None] * c


def corners(case, f, ds, fixed):
    """The path of a corner table and the offsets of the corners of every event."""
    rng = case.rng
    path = os.path.join(case.tmp, 'corners%d.pickle' % case.index)
    if not fixed:
        return path, degree_table(rng, path, f.nadir)(ds.event_lon.data.astype('f8'), ds.event_lat.data.astype('f8'))
    x, y = ds.event_x.data.astype('f8'), ds.event_y.data.astype('f8')
    table = None
    if rng.random() < .5:
        table = gridref.make_table(rng, path)
        case.count('input: corner table of our own')
    else:
        import glmtools.io
        path = os.path.join(os.path.dirname(glmtools.io.__file__), 'G16_corner_lut_fixedgrid.pickle')
    return path, gridref.code_footprints(case, x, y, table) - np.stack([x, y], axis=-1)[:, None, :]


def earth_to_grid(lon, lat, nadir):
    """Angles of the line of sight to points on the surface of the earth."""
    dl, ph = np.deg2rad(np.asarray(lon, 'f8') - nadir), np.deg2rad(np.asarray(lat, 'f8'))
    re, rp = oracle.RE, oracle.RP
    n = re ** 2 / np.sqrt((re * np.cos(ph)) ** 2 + (rp * np.sin(ph)) ** 2)
    px, py, pz = n * np.cos(ph) * np.cos(dl), n * np.cos(ph) * np.sin(dl), n * (rp / re) ** 2 * np.sin(ph)
    sx = oracle.RE + oracle.H_SAT - px
    r = np.sqrt(sx ** 2 + py ** 2 + pz ** 2)
    return np.arcsin(py / r), np.arctan2(pz, sx)


def judge_level(case, level, child, ids, shape, quads, energy, seconds, xe, ye, where, hole_key=True):
    """child: rows; shape[k]: footprint of record k; quads[k]: the corners it was made of."""
    got_id = child['flash_id'].astype('i8') % 2**32
    ids = np.asarray(ids).astype('u8').astype('i8') % 2**32
    case.check(bool(np.isin(got_id, ids).all()), 'pieces name records of their level', level=level)
    j, i = child['mesh_xi'].astype(int), child['mesh_yi'].astype(int)
    nx, ny = len(xe) - 1, len(ye) - 1
    case.check(bool(((i >= 0) & (i < nx) & (j >= 0) & (j < ny)).all()), 'pieces address the mesh', level=level)
    px, py, tol = where(child)
    ok = (px >= xe[i] - tol) & (px <= xe[i + 1] + tol) & (py >= ye[j] - tol) & (py <= ye[j + 1] + tol)
    case.check(bool(ok.all()), 'pieces lie in their cell', level=level, n=int((~ok).sum()))
    order = np.argsort(got_id, kind='stable')
    lo, hi = np.searchsorted(got_id[order], ids), np.searchsorted(got_id[order], ids, side='right')
    outline = shapely.box(xe[0], ye[0], xe[-1], ye[-1])
    for k in range(len(ids)):
        rows = order[lo[k]:hi[k]]
        s = shape[k]
        x0, y0, x1, y1 = s.bounds
        g = 4 * geom.Q
        a0, a1 = np.searchsorted(xe, [x0 - g, x1 + g])
        b0, b1 = np.searchsorted(ye, [y0 - g, y1 + g])
        a0, b0, a1, b1 = max(a0 - 1, 0), max(b0 - 1, 0), min(a1, nx), min(b1, ny)
        cover, power = np.zeros((nx, ny)), np.zeros((nx, ny))
        np.add.at(cover, (i[rows], j[rows]), child['mesh_frac'][rows])
        np.add.at(power, (i[rows], j[rows]), child['power'][rows].astype('f8'))
        case.close(child['time'][rows], np.full(len(rows), seconds[k]), 'pieces carry the time of their record', rtol=0, atol=1e-4, level=level)
        if a1 <= a0 or b1 <= b0:
            case.check(len(rows) == 0, 'records off the mesh have no pieces', level=level)
            continue
        box = shapely.box(xe[a0:a1, None], ye[None, b0:b1], xe[a0 + 1:a1 + 1, None], ye[None, b0 + 1:b1 + 1])
        part = shapely.intersection(box, s)
        over, cell = np.zeros((nx, ny)), np.diff(xe)[:, None] * np.diff(ye)[None, :]
        slack = 1e-9 * cell
        over[a0:a1, b0:b1] = shapely.area(part)
        # every outline of an event may be moved by rounding
        edges = sum(shapely.length(shapely.intersection(box, q.exterior)) for q in quads[k])
        slack[a0:a1, b0:b1] += 8 * geom.Q * (shapely.length(part) + edges + .1 * shapely.length(box)) + 6e-15 * max(abs(v) for v in s.bounds) ** 2
        polys = getattr(s, 'geoms', [s])
        hole = any(len(p.interiors) for p in polys)
        key = HOLE if hole else None
        if hole:
            case.count('input: footprints with a hole')
        if len(polys) > 1:
            case.count('input: footprints of several parts')
        bad = np.abs(cover * cell - over) > slack
        note = case.note if hole else case.check
        note(not bad.any(), 'pieces cover what the record covers', key=key, level=level, got=cover[bad][:4], want=(over / cell)[bad][:4],
             hole=hole, parts=len(polys))
        if not hole:
            want = energy[k] * over / s.area
            allowed = 1e-6 * np.abs(want) + np.abs(energy[k]) * (slack / s.area + over / s.area * slack.sum() / s.area)
            bad = np.abs(power - want) > allowed
            case.check(not bad.any(), 'energy of the pieces by their share', level=level, got=power[bad][:4], want=want[bad][:4], parts=len(polys))
        if outline.covers(s):
            case.close(power.sum(), energy[k], 'energies of the pieces add to that of the record', rtol=2e-6 + 3 * slack.sum() / s.area, level=level,
                       parts=len(polys))


def split(case):
    from glmtools.io.glm import GLMDataset
    from glmtools.io.mimic_lma import read_flash_chunk
    from glmtools.grid.clipping import QuadMeshSubset
    rng = case.rng
    f = c13.small_file(rng)
    f.event_energy_raw[f.event_energy_raw == 65535] = 5
    g = GLMDataset(f.write(os.path.join(case.tmp, 's%d.nc' % case.index)) or os.path.join(case.tmp, 's%d.nc' % case.index))
    ds = g.dataset
    fixed = rng.random() < .75
    case.count('input: on the fixed grid' if fixed else 'input: in degrees')
    path, off = corners(case, f, ds, fixed)
    xy = np.stack([(ds.event_x if fixed else ds.event_lon).data.astype('f8'), (ds.event_y if fixed else ds.event_lat).data.astype('f8')], axis=-1)
    quad, big = (shapely.polygons(xy[:, None, :] + r * off) for r in (1., 1.02))
    d = float(rng.choice([28e-6, 56e-6, 56e-6, 112e-6, 280e-6]) if fixed else rng.choice([.01, .02, .05, .1]))
    reach = float(np.abs(off).max()) * 1.05
    cover = rng.random() < .7
    margin = reach + rng.uniform(0, 2) * d if cover else -rng.uniform(0, 1) * reach
    lo, hi = xy.min(axis=0) - margin, xy.max(axis=0) + margin
    n = np.maximum(2, np.ceil((hi - lo) / d).astype(int))
    xe, ye = (lo[k] + d * np.arange(n[k] + 1) for k in (0, 1))
    mesh = QuadMeshSubset(*np.meshgrid(xe, ye), n_neighbors=12, regular=bool(rng.random() < .7 or n.prod() > 2e4))
    base = c27.base_date(rng, f)
    case.describe(file=f.style, fixed=fixed, spacing=d, cells=n, cover=cover, regular=mesh.regular)
    before = ds.copy(deep=True)
    case.begin('splitting every level')
    kw = dict(glm=g, base_date=base, nadir_lon=f.nadir, fixed_grid=fixed, clip_events=mesh, corner_pickle=path)
    if rng.random() < .3:
        case.count('input: into a target')
        rec = {k: c13.Recorder() for k in ('flash', 'group', 'event')}
        read_flash_chunk(ds, target=rec, **kw)
        got = [len(rec[k].got) for k in ('flash', 'group', 'event')]
        case.check(got in ([1, 1, 1], [0, 0, 0]), 'each target receives the tables once', got=got)
        if got == [0, 0, 0]:
            outline = shapely.box(xe[0], ye[0], xe[-1], ye[-1])
            case.check(not (shapely.area(shapely.intersection(big, outline)) > 1e-3 * d * d).any(), 'lightning on the mesh is handed on')
            return
        out = {k: rec[k].got[0] for k in rec}
    else:
        out = read_flash_chunk(ds, **kw)
        case.check(set(out) == {'flash', 'group', 'event'}, 'a table for each level')
    g2f, e2g = f.relations()
    first = {k: {int(v): n for n, v in enumerate(ds[k + '_id'].data)} for k in ('flash', 'group', 'event')}
    if fixed:
        def where(t):
            return earth_to_grid(t['lon'], t['lat'], f.nadir) + (6e-7,)
    else:
        def where(t):
            return t['lon'].astype('f8'), t['lat'].astype('f8'), 2e-5
    for level in ('event', 'group', 'flash'):
        ids = ds[level + '_id'].data
        if level == 'event':
            shape, made = quad, [[q] for q in quad]
        else:
            of = ds['event_parent_%s_id' % level].data
            members = [[] for v in ids]
            for k, v in enumerate(of.tolist()):
                members[first[level][v]].append(k)
            made = [[big[k] for k in m] for m in members]
            shape = [shapely.union_all(m) for m in made]
        t = ds['flash_time_offset_of_first_event' if level == 'flash' else level + '_time_offset'].data
        sec = (t - np.datetime64(base)) / np.timedelta64(1, 's')
        energy = ds[level + '_energy'].data.astype('f8')
        keep = [k for k in range(len(ids)) if not shape[k].is_empty]
        judge_level(case, level, out[level][0], ids[keep], [shape[k] for k in keep], [made[k] for k in keep], energy[keep], sec[keep], xe, ye, where)
        c27.parents(case, f, out[level][1], level, base, np.ones(f.n(level), bool))
    for v in ('event_energy', 'event_x', 'flash_area', 'flash_id', 'group_lat'):
        case.equal(ds[v].data, before[v].data, 'the opened data are not altered')
    if max(np.bincount(g2f[e2g])) > 1:
        case.nontrivial(f.style, d, n.tolist(), fixed)


SCENARIOS = [('split', split, 48, 400)]
REQUIRED = {'pieces cover what the record covers': (800, 8000), 'energies of the pieces add to that of the record': (400, 4000),
            'input: footprints of several parts': (20, 200), 'input: in degrees': (5, 50), 'input: on the fixed grid': (20, 200)}
