"""Opening files with broken parent links, and the consistency report."""
import os

import numpy as np
import xarray as xr

from ..gen import make_file
from ..trees import Tree

PROPERTY = 'C04'
RULE = ('a case is distinct non-trivial when the damaged file has at least one record to remove '
        'and at least one complete chain; distinct by the surviving sets')
ASSUMPTIONS = ['IDs are unique within a level', 'row order after repair is not promised']
ID_VARS = ['flash_id', 'group_id', 'event_id']


def damage(rng, f, case):
    """Remove records and rewire parent links."""
    every = ['drop flashes', 'drop groups', 'drop events of a group', 'drop groups of a flash',
             'rewire groups', 'rewire events', 'empty flashes', 'move groups', 'move events', 'drop events']
    kinds = [k for k in every if rng.random() < 0.25]
    if not kinds or case.index % 2:
        kinds = [every[case.index // 2 % (len(every) - 1)]]
        case.count('input: one kind of damage')
    few = rng.random() < .3
    g2f, e2g = f.relations()
    kf, kg, ke = (np.ones(f.n(x), dtype=bool) for x in ('flash', 'group', 'event'))

    def some(n):
        return rng.permutation(n)[:1 if few else max(1, int(rng.integers(0, max(2, n // 2))))]
    for k in kinds:
        if k == 'drop flashes':
            kf[some(f.n('flash'))] = False
        elif k == 'drop groups':
            kg[some(f.n('group'))] = False
        elif k == 'drop events':
            ke[some(f.n('event'))] = False
        elif k == 'drop events of a group':
            ke[np.isin(e2g, some(f.n('group')))] = False
        elif k == 'drop groups of a flash':
            kg[np.isin(g2f, some(f.n('flash')))] = False
        elif k == 'rewire groups':
            idx = some(f.n('group'))
            unused = np.setdiff1d(np.arange(65536), f.flash_id)
            f.group_parent_flash_id = f.group_parent_flash_id.copy()
            f.group_parent_flash_id[idx] = rng.choice(unused, len(idx))
        elif k == 'rewire events':
            idx = some(f.n('event'))
            have = set(f.group_id.tolist())
            new = [int(v) for v in rng.integers(0, 2**32, 4 * len(idx) + 8) if int(v) not in have]
            f.event_parent_group_id = f.event_parent_group_id.copy()
            f.event_parent_group_id[idx] = new[:len(idx)]
        elif k == 'empty flashes':
            # nothing below them is left either
            gone = np.isin(g2f, some(f.n('flash')))
            kg[gone] = False
            ke[gone[e2g]] = False
        elif k == 'move groups':
            # to a flash that exists, so that some flashes are left without groups
            f.group_parent_flash_id = f.group_parent_flash_id.copy()
            f.group_parent_flash_id[np.isin(g2f, some(f.n('flash')))] = rng.choice(f.flash_id)
        elif k == 'move events':
            f.event_parent_group_id = f.event_parent_group_id.copy()
            f.event_parent_group_id[np.isin(e2g, some(f.n('group')))] = rng.choice(f.group_id)
        case.count('input: ' + k)
    # Now and then a whole level is missing.
    for keep in (kf, kg, ke):
        if not keep.any() and rng.random() < 0.7:
            keep[0] = True
    f.select(np.flatnonzero(kf), np.flatnonzero(kg), np.flatnonzero(ke))
    return kinds


def survivors(f):
    g2f, e2g = f.relations()
    ev = (e2g >= 0)
    ev[ev] &= g2f[e2g[ev]] >= 0
    gr = np.zeros(f.n('group'), dtype=bool)
    gr[e2g[ev]] = True
    fl = np.zeros(f.n('flash'), dtype=bool)
    fl[g2f[gr]] = True
    return fl, gr, ev


def broken(case):
    from glmtools.io.glm import GLMDataset
    from glmtools.io.traversal import OneToManyTraversal
    rng = case.rng
    f = make_file(rng, n_flashes=int(rng.choice([1, 2, 4, 10, 30])))
    kinds = damage(rng, f, case)
    if case.index % 25 == 7:
        which = str(rng.choice(['flash', 'group', 'event']))
        f.select(**{which[0] + {'f': 'l', 'g': 'r', 'e': 'v'}[which[0]]: np.zeros(0, dtype=int)})
        kinds.append('no %s records' % which)
        case.count('input: a level without records')
    case.describe(damage=kinds, **f.style)
    fl, gr, ev = survivors(f)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('opening a damaged file')
    raw = xr.open_dataset(path)
    if case.index % 3 == 0:
        report(case, OneToManyTraversal(raw, ID_VARS, ['group_parent_flash_id',
                                                       'event_parent_group_id']),
               ID_VARS, ['group_parent_flash_id', 'event_parent_group_id'],
               [f.flash_id, f.group_id, f.event_id],
               [f.group_parent_flash_id, f.event_parent_group_id])
    if case.index % 4 == 3:
        ds = GLMDataset(raw).dataset
    else:
        ds = GLMDataset(path).dataset
    got = [ds[v].data.tolist() for v in ID_VARS]
    want = [f.flash_id[fl], f.group_id[gr], f.event_id[ev]]
    # closedness first, from the result alone
    case.check(set(ds.group_parent_flash_id.data.tolist()) == set(got[0]),
               'every group has its flash and every flash a group')
    case.check(set(ds.event_parent_group_id.data.tolist()) == set(got[1]),
               'every event has its group and every group an event')
    for k, level in enumerate(('flash', 'group', 'event')):
        case.check(len(got[k]) == len(set(got[k])), 'no record twice', level=level)
        case.check(set(want[k].tolist()) <= set(got[k]), 'complete chains survive', level=level,
                   lost=sorted(set(want[k].tolist()) - set(got[k]))[:5])
        case.check(set(got[k]) <= set(want[k].tolist()), 'records outside complete chains are gone',
                   level=level, extra=sorted(set(got[k]) - set(want[k].tolist()))[:5])
    row = {i: r for r, i in enumerate(f.event_id.tolist())}
    idx = np.array([row[i] for i in got[2]], dtype=int)
    case.close(ds.event_energy.data, f.energy_nJ('event')[idx], 'event values unchanged', rtol=3e-7)
    case.close(ds.event_lat.data, f.event_lat[idx], 'event values unchanged', rtol=0, atol=1e-9)
    case.close(ds.event_lon.data, f.event_lon[idx], 'event values unchanged', rtol=0, atol=1e-9)
    case.equal(ds.event_time_offset.data, f.times(f.event_time_raw)[idx], 'event values unchanged')
    case.equal(ds.event_parent_group_id.data, f.event_parent_group_id[idx], 'event values unchanged')
    row = {i: r for r, i in enumerate(f.group_id.tolist())}
    idx = np.array([row[i] for i in got[1]], dtype=int)
    case.close(ds.group_lat.data, f.group_lat[idx], 'group values unchanged', rtol=0)
    case.equal(ds.group_parent_flash_id.data, f.group_parent_flash_id[idx], 'group values unchanged')
    row = {i: r for r, i in enumerate(f.flash_id.tolist())}
    idx = np.array([row[i] for i in got[0]], dtype=int)
    case.close(ds.flash_area.data, f.area_km2('flash')[idx], 'flash values unchanged', rtol=3e-7)
    # attached counts are those of the repaired tree
    if len(got[2]):
        g2f, e2g = f.relations()
        e_fl = f.flash_id[g2f[e2g[[{i: r for r, i in enumerate(f.event_id.tolist())}[i]
                                   for i in got[2]]]]]
        case.equal(ds.event_parent_flash_id.data, e_fl, 'attached flash of surviving events')
        per = {}
        for i in e_fl.tolist():
            per[i] = per.get(i, 0) + 1
        case.equal(ds.flash_child_event_count.data, [per[i] for i in got[0]],
                   'counts of the repaired tree')
    removed = (~fl).sum() + (~gr).sum() + (~ev).sum()
    if removed and ev.any():
        case.nontrivial(fl.tolist(), gr.tolist(), ev.tolist())
    if not ev.any():
        case.count('input: nothing survives')


def report(case, trav, id_vars, parent_vars, ids, parent_ids):
    ent, par = trav.check_parent_child()
    for k, pv in enumerate(parent_vars):
        have = set(np.asarray(ids[k]).tolist())
        named = set(np.asarray(parent_ids[k]).tolist())
        n, bad, which = ent[id_vars[k]]
        case.check((n, bad, set(int(w) for w in which)) == (len(have), len(have - named), have - named),
                   'report: IDs lacking children', level=k, got=(n, bad), want=len(have - named))
        n, bad, which = par[pv]
        case.check((n, bad, set(int(w) for w in which)) == (len(named), len(named - have), named - have),
                   'report: IDs lacking a parent', level=k, got=(n, bad), want=len(named - have))


def generic_report(case):
    from glmtools.io.traversal import OneToManyTraversal
    rng = case.rng
    t = Tree(rng, childless=bool(rng.integers(2)))
    ds = t.dataset()
    ids = list(t.ids)
    pids = t.parent_ids[1:]
    for k in range(len(ids)):
        if rng.random() < 0.5 and len(ids[k]) > 1:
            keep = np.sort(rng.permutation(len(ids[k]))[:int(rng.integers(1, len(ids[k])))])
            ds = ds.isel({t.names[k] + '_dim': keep})
            ids[k] = ids[k][keep]
            if k > 0:
                pids[k - 1] = pids[k - 1][keep]
    case.describe(sizes=[len(i) for i in ids])
    case.begin('consistency report')
    trav = OneToManyTraversal(ds, t.id_vars, t.parent_vars)
    report(case, trav, t.id_vars, t.parent_vars, ids, pids)
    case.nontrivial([i.tolist()[:20] for i in ids])


SCENARIOS = [('broken', broken, 200, 2500), ('generic_report', generic_report, 60, 600)]
REQUIRED = {'complete chains survive': (500, 6000), 'report: IDs lacking a parent': (100, 1000),
            'input: rewire groups': 20, 'input: rewire events': 20, 'input: drop groups': 20,
            'input: drop flashes': 20, 'input: drop events of a group': 20}
