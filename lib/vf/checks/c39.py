"""Groupings of records by their own ID and by their parent."""
import os

import numpy as np

from ..gen import make_file
from ..trees import Tree
from .c04 import damage, survivors

PROPERTY = 'C39'
RULE = ('one evaluation per hierarchy; distinct non-trivial when a parent has several children or none; distinct by '
        'structure and IDs')
ASSUMPTIONS = ['groupings are those documented: by own ID and by parent ID, looked up by either of the two names',
               'a level without records has no grouping']
ID_VARS = ['flash_id', 'group_id', 'event_id']
PARENT_VARS = ['group_parent_flash_id', 'event_parent_group_id']


def whole(case, groups, ds, var, what, budget=25):
    """Groups of rows by the values of a variable."""
    if not ds[var].size:
        case.check(groups is None or not len(groups.groups), 'no groups without records', var=var)
        return
    keys = ds[var].data
    dim = ds[var].dims[0]
    want = {}
    for i, k in enumerate(keys.tolist()):
        want.setdefault(k, []).append(i)
    got = {int(k): np.atleast_1d(np.arange(len(keys))[v]).tolist() for k, v in groups.groups.items()}
    case.check(set(got) == set(want), 'one group for each ID ' + what, var=var, extra=sorted(set(got) - set(want))[:5],
               missing=sorted(set(want) - set(got))[:5])
    bad = [k for k in want if sorted(got[k]) != want[k]]
    case.check(not bad, 'each record in exactly one group ' + what, var=var, ids=bad[:5])
    n = 0
    for k, sub in groups:
        rows = want[int(k)]
        case.check(sub.sizes[dim] == len(rows), 'size of the group ' + what, var=var, id=int(k), got=sub.sizes[dim], want=len(rows))
        if n >= budget:
            continue
        n += 1
        at = ds.isel({dim: rows})
        for v in at.variables:
            if dim in at[v].dims:
                case.check(v in sub.variables, 'all variables are in the group', name=v)
                a, b = np.asarray(sub[v].data), np.asarray(at[v].data)
                same = (a == b) | ((a != a) & (b != b))
                case.check(a.shape == b.shape and bool(np.all(same)), 'values of the records in the group', name=v, id=int(k))


def judge(case, trav, ds, id_vars, parent_vars):
    case.check(set(trav.entity_groups) == set(id_vars), 'a grouping for each level', got=list(trav.entity_groups))
    for k, v in enumerate(id_vars):
        whole(case, trav.entity_groups[v], ds, v, '(own)')
        if k == 0:
            case.check(trav.parent_groups_by_entity[v] is None, 'the top has no parents')
            continue
        p = parent_vars[k - 1]
        whole(case, trav.parent_groups[p], ds, p, '(parent)')
        for alias, direct, name in ((trav.parent_groups_by_entity[v], trav.parent_groups[p], v),
                                    (trav.entity_groups_by_parent[p], trav.entity_groups[v], p)):
            if direct is None:
                case.check(alias is None, 'the same grouping by the other name', name=name)
            else:
                a = {int(i): np.atleast_1d(np.arange(ds[v].size)[r]).tolist() for i, r in alias.groups.items()}
                b = {int(i): np.atleast_1d(np.arange(ds[v].size)[r]).tolist() for i, r in direct.groups.items()}
                case.check(a == b, 'the same grouping by the other name', name=name)
        case.check(trav.child_to_parent[v] == p and trav.parent_to_child[p] == v, 'names of levels and links belong together', name=v)


def generic(case):
    from glmtools.io.traversal import OneToManyTraversal
    rng = case.rng
    t = Tree(rng, childless=case.index % 3 == 0)
    ds = t.dataset()
    case.describe(sizes=[len(i) for i in t.ids], style=t.style)
    case.begin('grouping a hierarchy')
    trav = OneToManyTraversal(ds, t.id_vars, t.parent_vars)
    judge(case, trav, t.dataset(), t.id_vars, t.parent_vars)
    if any((np.bincount(p, minlength=len(t.ids[k])) != 1).any() for k, p in enumerate(t.parent_rows[1:])):
        case.nontrivial([i.tolist() for i in t.ids], [len(i) for i in t.ids])


def glm(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = make_file(rng, n_flashes=0 if rng.random() < .05 else int(rng.integers(1, 25)))
    broken = f.n('flash') > 0 and rng.random() < .4
    if broken:
        damage(rng, f, case)
        fl, gr, ev = survivors(f)
        if not (fl.any() and gr.any() and ev.any()):
            broken = None
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.describe(flashes=f.n('flash'), broken=broken, **f.style)
    case.begin('grouping a file')
    g = GLMDataset(path)
    judge(case, g, g.dataset, ID_VARS, PARENT_VARS)
    if broken:
        case.count('input: repaired file')
        for v, keep, ids in zip(ID_VARS, (fl, gr, ev), (f.flash_id, f.group_id, f.event_id)):
            case.check({int(k) for k in g.entity_groups[v].groups} == set(ids[keep].tolist()),
                       'groups are those of the repaired tree', level=v)
    if g.dataset.group_id.size > g.dataset.flash_id.size:
        case.nontrivial(g.dataset.group_parent_flash_id.data.tolist()[:200], g.dataset.event_id.size)


SCENARIOS = [('generic', generic, 80, 900), ('glm', glm, 50, 600)]
REQUIRED = {'each record in exactly one group (own)': (200, 2400), 'each record in exactly one group (parent)': (150, 1800),
            'input: repaired file': (6, 80)}
