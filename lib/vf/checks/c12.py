"""Shard tables: one row per piece, conserved weights."""
import numpy as np
import shapely

from vf import geom, gen
from vf.checks import c10

PROPERTY = 'C12'
RULE = ('one evaluation per parent footprint; distinct non-trivial when it is cut into at least '
        'two shards; distinct by mesh and footprint')
ASSUMPTIONS = c10.ASSUMPTIONS + ['positions of shards are judged for convex footprints']


def cut(case, mesh, ps):
    from glmtools.grid.clipping import QuadMeshPolySlicer
    slicer = QuadMeshPolySlicer(c10.subset(mesh))
    out, areas = slicer.slice([p for p, s in ps], bbox=True)
    return slicer, out, areas


def judge_table(case, mesh, ps, ids, out, areas, sub_polys, table):
    n = sum(len(e[1]) for e in out)
    case.check(len(table) == n == len(sub_polys), 'one row per piece', rows=len(table), pieces=n)
    rows = {}
    for k in range(len(table)):
        rows.setdefault(int(table['event_id'][k]), []).append(k)
    case.check(set(rows) <= set(int(i) for i in ids), 'rows name known parents')
    k = 0
    for (p, s), pid, e, area in zip(ps, ids, out, areas):
        case.trial()
        mine = rows.get(int(pid), [])
        case.check(len(mine) == len(e[1]), 'every piece of a parent names it', parent=int(pid),
                   got=len(mine), want=len(e[1]))
        over, length = mesh.overlaps(s)
        tol = mesh.tolerance(length) + 6e-15 * np.abs(p).max() ** 2
        got = np.zeros(mesh.shape)
        gotc = np.zeros(mesh.shape)
        for r in mine:
            i, j = (int(v) for v in table['mesh_idx'][r])
            case.check(0 <= i < mesh.shape[0] and 0 <= j < mesh.shape[1], 'indices address the mesh')
            fe, fc = float(table['event_frac_area'][r]), float(table['mesh_frac_area'][r])
            case.check(fe >= 0 and fc >= 0, 'shares are not negative', parent=fe, cell=fc,
                       mesh=mesh.style)
            got[i, j] += fe
            gotc[i, j] += fc
            q = np.asarray(sub_polys[r], float)
            c = np.asarray(table['poly_ctr'][r], float)
            case.close(c, q.mean(axis=0), 'the position is the middle of the piece', rtol=1e-9,
                       atol=1e-12)
            d = float(shapely.distance(shapely.points(c), mesh.cells[i, j]))
            case.check(d <= 4 * geom.Q, 'the position is in the cell of the shard', distance=d)
            if s.area > .999 * s.convex_hull.area:
                d = float(shapely.distance(shapely.points(c), s))
                case.check(d <= 4 * geom.Q, 'the position is in the footprint', distance=d)
        case.check(np.all(np.abs(got * s.area - over) <= tol), 'share of the parent is the overlap',
                   mesh=mesh.style, polygon=p)
        case.check(np.all(np.abs(gotc * mesh.area - over) <= tol), 'share of the cell is the overlap',
                   mesh=mesh.style, polygon=p, got=gotc[gotc > 0][:5],
                   want=(over / mesh.area)[gotc > 0][:5])
        if mesh.outline.covers(s):
            case.check(abs(got.sum() - 1) <= tol.sum() / s.area + 1e-9, 'shares of a parent add to one',
                       got=got.sum())
        if len(mine) > 1:
            case.nontrivial(mesh.style, np.round(p, 12).tolist())


def shards(case):
    from glmtools.grid.split_events import (split_event_data, split_event_dataset_from_props,
        split_group_dataset_from_props, split_flash_dataset_from_props)
    rng = case.rng
    mesh = geom.make_mesh(rng)
    ps = c10.polygons(rng, mesh, int(rng.integers(1, 9)), [.4, 1.2, 2.5, 4.], ('inside', 'inside', 'edge'))
    if not ps:
        return
    ids = rng.choice(2 ** int(rng.choice([10, 16, 32, 40, 62])), len(ps), replace=False)
    case.describe(mesh=mesh.style, polygons=[p for p, s in ps], ids=ids)
    case.begin('shard table')
    slicer, out, areas = cut(case, mesh, ps)
    sub_polys, table = split_event_data(out, areas, slicer, event_ids=ids)
    judge_table(case, mesh, ps, ids, out, areas, sub_polys, table)
    for lev, make, par in (('event', split_event_dataset_from_props, 'event'),
                           ('group', split_group_dataset_from_props, 'group'),
                           ('flash', split_flash_dataset_from_props, 'flash')):
        names = ('split_%s_lon' % lev, 'split_%s_lat' % lev)
        if rng.random() < .5:
            names = ('split_%s_x' % lev, 'split_%s_y' % lev)
            d = make(table, centroid_names=names)
        else:
            d = make(table)
        for var, col in ((names[0], table['poly_ctr'][:, 0]), (names[1], table['poly_ctr'][:, 1]),
                         ('split_%s_mesh_area_fraction' % lev, table['mesh_frac_area']),
                         ('split_%s_area_fraction' % lev, table['event_frac_area']),
                         ('split_%s_mesh_x_idx' % lev, table['mesh_idx'][:, 0]),
                         ('split_%s_mesh_y_idx' % lev, table['mesh_idx'][:, 1]),
                         ('split_%s_parent_%s_id' % (lev, par), table['event_id'])):
            case.check(var in d, 'the dataset has every column', var=var)
            case.equal(d[var].data, col, 'the dataset repeats the table', var=var)


def weighted(case):
    """Replicating parent values onto shards, on a real file."""
    from glmtools.io.glm import GLMDataset
    from glmtools.grid.split_events import (split_event_data, split_event_dataset_from_props,
        split_group_dataset_from_props, split_flash_dataset_from_props,
        replicate_and_weight_split_child_dataset)
    rng = case.rng
    f = gen.make_file(rng, n_flashes=int(rng.integers(1, 6)))
    path = f.write(case.tmp + '/w%d.nc' % case.index) or case.tmp + '/w%d.nc' % case.index
    lev = str(rng.choice(['event', 'group', 'flash']))
    case.describe(file=f.style, level=lev)
    case.begin('weighted shards')
    glm = GLMDataset(path)
    ds = glm.dataset
    known = ds[lev + '_id'].data
    pick = rng.choice(len(known), min(len(known), int(rng.integers(1, 12))), replace=False)
    mesh = geom.make_mesh(rng, kind=str(rng.choice(['even', 'uneven'])))
    ps = c10.polygons(rng, mesh, len(pick), [.8, 1.7, 3.], ('inside', 'inside', 'edge'))
    pick = pick[:len(ps)]
    ids = known[pick]
    slicer, out, areas = cut(case, mesh, ps)
    sub_polys, table = split_event_data(out, areas, slicer, event_ids=ids)
    make = dict(event=split_event_dataset_from_props, group=split_group_dataset_from_props,
                flash=split_flash_dataset_from_props)[lev]
    props = make(table)
    par, frac = 'split_%s_parent_%s_id' % (lev, lev), 'split_%s_area_fraction' % lev
    cell = 'split_%s_mesh_area_fraction' % lev
    names = dict(event=['event_energy', 'event_time_offset', 'event_parent_flash_id',
                        'event_parent_group_id'],
                 group=['group_time_offset', 'group_area', 'group_energy'],
                 flash=['flash_time_offset_of_first_event', 'flash_time_offset_of_last_event',
                        'flash_area', 'flash_energy'])[lev]
    weights = {lev + '_energy': frac}
    if lev != 'event':
        weights[lev + '_area'] = str(rng.choice([frac, cell]))
    plain = lev == 'event' and rng.random() < .4
    if not plain and rng.random() < .5:
        # any other value with a weight of its own
        for extra in (lev + '_lat', lev + '_lon'):
            names.append(extra)
            if rng.random() < .7:
                weights[extra] = str(rng.choice([frac, cell]))
        names = [names[i] for i in rng.permutation(len(names))]
        case.count('input: further weighted values')
    if plain:
        got = replicate_and_weight_split_child_dataset(glm, props)
    else:
        got = replicate_and_weight_split_child_dataset(
            glm, props, parent_id=lev + '_id', split_child_parent_id=par, names=names,
            weights=weights)
    row = {int(i): k for k, i in enumerate(known)}
    at = np.array([row[int(i)] for i in table['event_id']], int)
    for name in names:
        want = ds[name].data[at]
        have = got['split_' + name].data
        case.check(have.shape == (len(table),), 'one value per shard', name=name)
        if name in weights:
            w = props[weights[name]].data
            case.close(have, want.astype('f8') * w, 'weighted value is the parent value times the weight',
                       rtol=3e-6, atol=0, name=name)
        else:
            case.equal(have, want, 'unweighted values are copied', name=name)
    e = got['split_%s_energy' % lev].data.astype('f8')
    for (p, s), pid, r in zip(ps, ids, pick):
        case.trial()
        if mesh.outline.covers(s):
            have = e[table['event_id'] == pid].sum()
            want = float(ds[lev + '_energy'].data[r])
            # area rounding of the clipping, relative to the footprint
            case.check(abs(have - want) <= (1e-5 + 40 * geom.Q * s.length / s.area) * abs(want),
                       'energy of a parent is conserved', got=have, want=want)
            if (table['event_id'] == pid).sum() > 1:
                case.nontrivial(mesh.style, np.round(p, 12).tolist(), lev)


def copied(case):
    """Replicating from a parent table in any order, as the gridding stage does."""
    import xarray as xr
    from glmtools.io.mimic_lma import replicate_and_weight_split_child_dataset_new
    rng = case.rng
    n = int(rng.integers(1, 40))
    ids = rng.choice(2 ** int(rng.choice([8, 16, 32, 48])), n, replace=False)
    if rng.random() < .3:
        ids = np.sort(ids)
    dim, key = ('pid', 'pid') if rng.random() < .5 else ('lutevent_id', 'lutevent_id')
    names = ['lutevent_energy', 'lutevent_count', 'lutevent_flash_count', 'lutevent_group_count',
             'lutevent_total_flash_area', 'lutevent_total_group_area', 'lutevent_min_flash_area']
    parents = {k: (dim, rng.uniform(0, 100, n).astype(str(rng.choice(['f4', 'f8'])))) for k in names}
    parents['lutevent_time_offset'] = (dim, np.datetime64('2020-01-01', 'ns')
                                       + rng.integers(0, 10 ** 10, n).astype('m8[ns]'))
    parents = xr.Dataset(parents, coords={key: (dim, ids)})
    m = int(rng.integers(1, 100))
    at = rng.integers(0, n, m)
    shards = xr.Dataset({'split_event_parent_event_id': ('shard', ids[at]),
                         'split_event_area_fraction': ('shard', rng.random(m)),
                         'split_event_mesh_area_fraction': ('shard', rng.random(m))})
    kw, weights = {}, {k: 'split_event_mesh_area_fraction' for k in names[1:-1]}
    weights['lutevent_energy'] = 'split_event_area_fraction'
    copied = ['lutevent_time_offset', 'lutevent_min_flash_area']
    if key == 'pid' or rng.random() < .5:
        some = [k for k in names if rng.random() < .6] or names[:1]
        weights = {k: str(rng.choice(['split_event_area_fraction', 'split_event_mesh_area_fraction']))
                   for k in some if rng.random() < .7}
        copied = [k for k in some if k not in weights]
        kw = dict(parent_id=key, split_child_parent_id='split_event_parent_event_id', names=some,
                  weights=weights)
    case.describe(n=n, shards=m, ids=ids, options=kw)
    case.begin('copied shards')
    case.trial()
    before, given = parents.copy(deep=True), shards.copy(deep=True)
    got = replicate_and_weight_split_child_dataset_new(parents, shards, **kw)
    for k, w in weights.items():
        case.close(got['split_' + k].data, parents[k].data[at].astype('f8') * given[w].data,
                   'shards carry the parent value times the weight', rtol=1e-6, atol=0, name=k)
    for k in copied:
        case.equal(got['split_' + k].data, parents[k].data[at], 'shards carry the parent value', name=k)
    for k in given:
        case.equal(got[k].data, given[k].data, 'shard columns are kept', name=k)
    case.check(before.identical(parents), 'the parents are not altered')
    if n > 1 and m > n:
        case.nontrivial(ids[:5].tolist(), n, m)


def far(case):
    """Meshes with very many cells along one direction."""
    from glmtools.grid.clipping import QuadMeshPolySlicer, QuadMeshSubset
    from glmtools.grid.split_events import split_event_data, split_event_dataset_from_props
    rng = case.rng
    n, k = int(rng.integers(32800, 70000)), int(rng.integers(1, 3))
    step = float(rng.choice([1., .25, 5e-6]))
    a, b = np.arange(n + 1) * step, np.arange(k + 1) * step
    long_x = bool(rng.random() < .5)
    X, Y = np.meshgrid(a, b) if long_x else np.meshgrid(b, a)
    at = int(rng.integers(n - 40, n - 3)) if rng.random() < .7 else int(rng.integers(0, n - 3))
    lo, w = at + rng.uniform(.1, .9), rng.uniform(.2, 2)
    edge = np.array([[lo, .2], [lo + w, .2], [lo + w, .7], [lo, .7]]) * step
    if not long_x:
        edge = edge[:, ::-1]
    case.describe(cells=n, step=step, at=lo, width=w, long_x=long_x)
    case.begin('far shards')
    case.trial()
    slicer = QuadMeshPolySlicer(QuadMeshSubset(X, Y, regular=True))
    out, areas = slicer.slice([edge], bbox=True)
    polys, table = split_event_data(out, areas, slicer, event_ids=[3])
    d = split_event_dataset_from_props(table)
    got = {}
    for i, j, f in zip(d.split_event_mesh_x_idx.data.tolist(), d.split_event_mesh_y_idx.data.tolist(),
                       d.split_event_area_fraction.data.tolist()):
        got[i, j] = got.get((i, j), 0) + f
    tol = 1e-6 + 40 * geom.Q / step
    want = {}
    for c in range(int(lo), int(lo + w) + 1):
        want[(0, c) if long_x else (c, 0)] = (min(lo + w, c + 1) - max(lo, c)) / w
    keys = set(got) | set(want)
    bad = {str(q): (got.get(q, 0), want.get(q, 0)) for q in keys if abs(got.get(q, 0) - want.get(q, 0)) > tol}
    case.check(not bad, 'shards far along a mesh name their cell', bad=bad)
    if len(want) > 1:
        case.nontrivial(n, at, step, long_x)


SCENARIOS = [('shards', shards, 220, 3000), ('weighted', weighted, 120, 1600),
             ('copied', copied, 120, 1600), ('far', far, 12, 60)]
REQUIRED = {'share of the cell is the overlap': (800, 10000),
            'energy of a parent is conserved': (200, 3000),
            'shares of a parent add to one': (400, 5000),
            'shards carry the parent value times the weight': (200, 3000),
            'shards far along a mesh name their cell': (12, 60)}
