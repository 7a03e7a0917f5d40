"""Selection by ID: exact families, unaltered rows."""
import os

import numpy as np

from ..gen import make_file
from ..trees import Tree, same_rows

PROPERTY = 'C02'
RULE = ('a case is distinct non-trivial when the request keeps some but not all rows of the '
        'requested level; distinct by structure, level and requested rows')
ASSUMPTIONS = ['IDs are unique within a level', 'order of rows at other levels is not promised, '
               'so they are compared as sets with each row present once']


def request(rng, ids, kind):
    """A list of requested IDs and the rows expected, in order."""
    n = len(ids)
    pick = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    if kind == 'single':
        pick = pick[:1]
    elif kind == 'all':
        pick = rng.permutation(n)
    elif kind == 'none':
        pick = pick[:0]
    elif kind == 'repeats':
        pick = np.concatenate([pick, rng.choice(pick, size=int(rng.integers(1, 4)))])
        pick = pick[rng.permutation(len(pick))]
    req = [ids[i] for i in pick]
    if kind in ('unknown', 'none'):
        have = set(np.asarray(ids).tolist())
        unk = [u for u in (5, 77, 12345, 60001, 0, 3) if u not in have][:2]
        for u in unk:
            req.insert(int(rng.integers(0, len(req) + 1)), type(ids[0])(u))
    return req, pick


def as_type(rng, req):
    t = int(rng.integers(3))
    if t == 0:
        return list(req)
    if t == 1:
        return np.array(req)
    return [int(r) for r in req]


def family(parents, n_rows, level, rows):
    """Expected rows at every level given selected rows at `level`; parents[k] rows or -1."""
    out = [None] * len(n_rows)
    out[level] = set(int(r) for r in rows)
    for k in range(level + 1, len(n_rows)):
        out[k] = set(np.flatnonzero(np.isin(parents[k], list(out[k - 1]))).tolist())
    for k in range(level - 1, -1, -1):
        out[k] = set(int(parents[k + 1][r]) for r in out[k + 1]) - {-1}
    return out


def judge(case, sub, src, id_vars, dims, parents, ids, level, req, pick, kind):
    want = family(parents, [len(i) for i in ids], level, pick)
    case.equal(sub[id_vars[level]].data, np.asarray([ids[level][i] for i in pick],
               dtype=ids[level].dtype), 'requested rows in requested order')
    for k in range(len(ids)):
        got_ids = np.asarray(sub[id_vars[k]].data).tolist()
        want_ids = set(ids[k][sorted(want[k])].tolist())
        case.check(set(got_ids) == want_ids,
                   'exact descendants' if k > level else 'exact ancestors' if k < level
                   else 'requested rows in requested order',
                   level=k, extra=sorted(set(got_ids) - want_ids)[:5],
                   missing=sorted(want_ids - set(got_ids))[:5])
        if kind != 'repeats' or k < level:
            case.check(len(got_ids) == len(set(got_ids)), 'each row once', level=k)
        same_rows(case, sub, src, dims[k], id_vars[k], 'values of kept rows')
    if 0 < len(set(pick.tolist())) < len(ids[level]):
        case.nontrivial([len(i) for i in ids], level, pick.tolist())


KINDS = ['some', 'single', 'all', 'none', 'repeats', 'unknown']


def generic(case):
    from glmtools.io.traversal import OneToManyTraversal
    rng = case.rng
    t = Tree(rng, childless=case.index % 4 == 0)
    ds = t.dataset()
    src = ds.copy(deep=True)
    case.begin('generic selection')
    trav = OneToManyTraversal(ds, t.id_vars, t.parent_vars)
    for rep in range(4):
        case.trial()
        level = int(rng.integers(len(t.ids)))
        kind = KINDS[int(rng.integers(len(KINDS)))]
        req, pick = request(rng, t.ids[level], kind)
        case.describe(sizes=[len(i) for i in t.ids], level=level, kind=kind, request=req)
        sub = trav.reduce_to_entities(t.id_vars[level], as_type(rng, req))
        judge(case, sub, src, t.id_vars, [n + '_dim' for n in t.names], t.parent_rows, t.ids,
              level, req, pick, kind)
        case.equal(sub['scalar'].data, src['scalar'].data, 'values of kept rows')
        case.check(sub.attrs == src.attrs, 'attributes kept')
        case.count('input: kind ' + kind)


ID_VARS = ['flash_id', 'group_id', 'event_id']
DIMS = ['number_of_flashes', 'number_of_groups', 'number_of_events']


def glm(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = make_file(rng)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('selection from a file')
    g = GLMDataset(path)
    src = g.dataset.copy(deep=True)
    g2f, e2g = f.relations()
    parents = [None, g2f, e2g]
    ids = [src[v].data for v in ID_VARS]
    for rep in range(4):
        case.trial()
        by_flash = rng.random() < 0.5
        level = 0 if by_flash else int(rng.integers(3))
        kind = KINDS[int(rng.integers(len(KINDS)))]
        req, pick = request(rng, ids[level], kind)
        case.describe(level=level, kind=kind, request=req, by_flash=by_flash, **f.style)
        arg = as_type(rng, req)
        sub = g.get_flashes(arg) if by_flash else g.reduce_to_entities(ID_VARS[level], arg)
        judge(case, sub, src, ID_VARS, DIMS, parents, ids, level, req, pick, kind)
        case.count('input: kind ' + kind)
        case.check(sub.attrs == src.attrs, 'attributes kept')


def large(case):
    """Thousands of IDs at once."""
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    kind = ['some', 'all', 'repeats', 'unknown'][case.index % 4]
    f = make_file(rng, n_flashes=int(rng.integers(1800, 2600)), group_style='few', event_style='few')
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('selection of many from a file')
    g = GLMDataset(path)
    src = g.dataset.copy(deep=True)
    g2f, e2g = f.relations()
    ids = [src[v].data for v in ID_VARS]
    level = [2, 1, 0, 2, 1][case.index % 5]
    req, pick = request(rng, ids[level], kind)
    if level and len(pick) < len(ids[level]) // 2:
        req, pick = request(rng, ids[level], 'all')
        pick = pick[:-50]
        req = req[:-50]
        kind = 'some'
    case.describe(level=level, kind=kind, requested=len(req), **f.style)
    sub = g.reduce_to_entities(ID_VARS[level], as_type(rng, req))
    judge(case, sub, src, ID_VARS, DIMS, [None, g2f, e2g], ids, level, req, pick, kind)
    if len(req) > 4096:
        case.count('input: more than 4096 requested')


def missing_parent(case):
    """IDs that only occur as someone's parent do not exist: they bring no descendants along."""
    from glmtools.io.traversal import OneToManyTraversal
    rng = case.rng
    t = Tree(rng, n_levels=int(rng.integers(2, 5)), max_top=8)
    lev = int(rng.integers(len(t.ids) - 1))
    n = len(t.ids[lev])
    if n < 2:
        t = Tree(rng, n_levels=3)
        lev, n = 1, len(t.ids[1])
        if n < 2:
            from ..core import Skip
            raise Skip('one row')
    gone = rng.permutation(n)[:int(rng.integers(1, n))]
    ds = t.dataset().isel({t.names[lev] + '_dim': np.setdiff1d(np.arange(n), gone)})
    src = ds.copy(deep=True)
    keep = np.setdiff1d(np.arange(n), gone)
    remap = -np.ones(n, dtype=int)
    remap[keep] = np.arange(len(keep))
    ids = list(t.ids)
    parents = list(t.parent_rows)
    ids[lev] = t.ids[lev][keep]
    if parents[lev] is not None:
        parents[lev] = parents[lev][keep]
    parents[lev + 1] = remap[parents[lev + 1]]
    case.begin('selection in a hierarchy with missing records')
    trav = OneToManyTraversal(ds, t.id_vars, t.parent_vars)
    pick = rng.permutation(len(keep))[:int(rng.integers(1, len(keep) + 1))]
    req = [ids[lev][i] for i in pick] + [t.ids[lev][i] for i in gone[:2]]
    case.describe(sizes=[len(i) for i in ids], level=lev, request=req, gone=t.ids[lev][gone])
    sub = trav.reduce_to_entities(t.id_vars[lev], req)
    judge(case, sub, src, t.id_vars, [m + '_dim' for m in t.names], parents, ids, lev, req,
          pick, 'unknown')
    case.count('input: missing record requested')


SCENARIOS = [
    ('generic', generic, 90, 1200),
    ('glm', glm, 120, 1200),
    ('missing_parent', missing_parent, 40, 400),
    ('large', large, 5, 40),
]
REQUIRED = {'requested rows in requested order': (300, 3000), 'exact descendants': (200, 2000),
            'exact ancestors': (200, 2000), 'values of kept rows': (1000, 10000),
            'input: missing record requested': (20, 200), 'input: more than 4096 requested': 1}
