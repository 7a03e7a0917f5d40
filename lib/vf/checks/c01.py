"""Ancestor IDs and child counts attached on open, and from the generic traversal."""
import os

import numpy as np
import xarray as xr

from ..gen import make_file
from ..trees import Tree

PROPERTY = 'C01'
RULE = ('a case is distinct non-trivial when it has at least two parents at some level and its '
        'family structure (children per parent in row order, row permutation, ID style) differs '
        'from all others')
ASSUMPTIONS = ['files are synthetic, in the production variable layout, with consistent trees',
               'IDs are unique within a level of one file']


def glm_file(case):
    from glmtools.io.glm import GLMDataset
    big = case.index % 10 == 9
    f = make_file(case.rng, event_style='huge' if big and case.thorough else None)
    case.describe(**f.style)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    how = case.index % 3
    case.begin('opening a file')
    if how == 2:
        src = xr.open_dataset(path)
        g = GLMDataset(src)
    else:
        g = GLMDataset(path)
    ds = g.dataset
    g2f, e2g = f.relations()
    case.count('input: events', f.n('event'))
    case.equal(ds.event_id.data, f.event_id, 'rows stay in file order')
    case.equal(ds.group_id.data, f.group_id, 'rows stay in file order')
    case.equal(ds.flash_id.data, f.flash_id, 'rows stay in file order')
    case.equal(ds.event_parent_flash_id.data, f.flash_id[g2f[e2g]], 'flash of every event')
    case.equal(ds.flash_child_group_count.data, np.bincount(g2f, minlength=f.n('flash')),
               'groups per flash')
    case.equal(ds.group_child_event_count.data, np.bincount(e2g, minlength=f.n('group')),
               'events per group')
    case.equal(ds.flash_child_event_count.data, np.bincount(g2f[e2g], minlength=f.n('flash')),
               'events per flash')
    for v, d in (('event_parent_flash_id', 'number_of_events'),
                 ('flash_child_group_count', 'number_of_flashes'),
                 ('flash_child_event_count', 'number_of_flashes'),
                 ('group_child_event_count', 'number_of_groups')):
        case.check(ds[v].dims == (d,), 'attached values lie along their own level', var=v)
    if f.n('flash') > 1 or f.n('group') > 1:
        case.nontrivial(g2f.tolist(), e2g.tolist()[:500])
    if f.n('flash') > 255:
        case.count('input: many flashes')


def many(case):
    """Files with very many small families, or a very large one."""
    from glmtools.io.glm import GLMDataset
    kind = case.index % 3
    if kind == 0:
        f = make_file(case.rng, n_flashes=int(case.rng.integers(300, 900)), group_style='few',
                      event_style='few', order='permuted')
    elif kind == 1:
        # one flash or group with very many children
        f = make_file(case.rng, n_flashes=int(case.rng.integers(2, 9)),
                      group_style='huge' if case.index % 2 else 'few', event_style='few' if case.index % 2 else 'huge')
        case.count('input: families of more than 1000')
    else:
        f = make_file(case.rng, n_flashes=int(case.rng.integers(1, 4)), group_style='few', event_style='crowd')
        case.count('input: families of more than 65536')
    case.describe(**f.style)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('opening a file')
    ds = GLMDataset(path).dataset
    g2f, e2g = f.relations()
    case.count('input: events', f.n('event'))
    case.equal(ds.event_parent_flash_id.data, f.flash_id[g2f[e2g]], 'flash of every event')
    case.equal(ds.flash_child_event_count.data, np.bincount(g2f[e2g], minlength=f.n('flash')),
               'events per flash')
    case.equal(ds.flash_child_group_count.data, np.bincount(g2f, minlength=f.n('flash')),
               'groups per flash')
    case.equal(ds.group_child_event_count.data, np.bincount(e2g, minlength=f.n('group')),
               'events per group')
    case.nontrivial(f.n('event'), g2f.tolist()[:300])


def childless(case):
    """Flashes and groups without children are counted as having none, when they are not removed."""
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = make_file(rng, n_flashes=int(rng.integers(2, 12)))
    g2f, e2g = f.relations()
    bare = rng.random(f.n('group')) < .3
    lone = rng.random(f.n('flash')) < .3
    bare |= lone[g2f]
    if bare.all():
        bare[int(rng.integers(f.n('group')))] = False
    gone = lone[g2f] & bare
    f.select(gr=np.flatnonzero(~gone), ev=np.flatnonzero(~bare[e2g]))
    case.describe(without_events=int((bare & ~gone).sum()), without_groups=int(lone.sum()), **f.style)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('opening a file as it is')
    ds = GLMDataset(path, check_tree=False).dataset
    g2f, e2g = f.relations()
    case.equal(ds.flash_child_group_count.data, np.bincount(g2f, minlength=f.n('flash')), 'groups per flash')
    case.equal(ds.group_child_event_count.data, np.bincount(e2g, minlength=f.n('group')), 'events per group')
    case.equal(ds.flash_child_event_count.data, np.bincount(g2f[e2g], minlength=f.n('flash')), 'events per flash')
    case.equal(ds.event_parent_flash_id.data, f.flash_id[g2f[e2g]], 'flash of every event')
    if (np.bincount(g2f[e2g], minlength=f.n('flash')) == 0).any():
        case.count('input: flashes without events')
    case.nontrivial('childless', g2f.tolist(), e2g.tolist()[:500])


def empty_file(case):
    from glmtools.io.glm import GLMDataset
    f = make_file(case.rng, n_flashes=0)
    case.describe(**f.style)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('opening a file without records')
    ds = GLMDataset(path).dataset
    for v in ('event_parent_flash_id', 'flash_child_group_count', 'flash_child_event_count',
              'group_child_event_count'):
        case.check(ds[v].shape == (0,), 'empty file gives empty values', var=v, got=ds[v].shape)


def generic(case):
    from glmtools.io.traversal import OneToManyTraversal
    t = Tree(case.rng, childless=case.index % 3 == 0)
    case.describe(levels=len(t.ids), sizes=[len(i) for i in t.ids], style=t.style,
                  childless=case.index % 3 == 0)
    ds = t.dataset()
    case.begin('generic traversal')
    trav = OneToManyTraversal(ds, t.id_vars, t.parent_vars)
    n = len(t.ids)
    case.nontrivial(n, [None if p is None else p.tolist() for p in t.parent_rows])
    for top in range(n - 1):
        for bottom in [None] + list(range(top + 1, n)):
            got = trav.count_children(t.id_vars[top],
                                      None if bottom is None else t.id_vars[bottom])
            last = top + 1 if bottom is None else bottom
            case.check(len(got) == last - top, 'one count list per level', top=top, bottom=bottom,
                       got=len(got))
            for k, c in enumerate(got):
                want = np.bincount(t.parent_rows[top + k + 1], minlength=len(t.ids[top + k]))
                case.equal(c, want, 'generic child counts', top=top, bottom=bottom, level=k)
    for top in range(n - 1):
        for bottom in range(top + 1, n):
            got = trav.replicate_parent_ids(t.id_vars[top], t.parent_vars[bottom - 1])
            want = t.ids[top][t.ancestor_rows(bottom, top)]
            case.equal(got, want, 'generic replicated ancestors', top=top, bottom=bottom)


SCENARIOS = [
    ('glm_file', glm_file, 260, 3000),
    ('many', many, 6, 60),
    ('empty_file', empty_file, 6, 30),
    ('childless', childless, 30, 300),
    ('generic', generic, 120, 1500),
]
REQUIRED = {'flash of every event': (200, 2400), 'generic child counts': (200, 2000),
            'generic replicated ancestors': (200, 2000), 'empty file gives empty values': 4,
            'input: flashes without events': (10, 100), 'input: families of more than 1000': 2, 'input: families of more than 65536': 2}
