"""The event lookup table against direct aggregation of the member events."""
import os

import numpy as np

from ..core import Skip
from ..gen import make_file
from ..trees import same_dataset

PROPERTY = 'C08'
RULE = ('a case is distinct non-trivial when some table entry merges at least two events; '
        'distinct by the partition of events into entries')
ASSUMPTIONS = ['cells are steps of the given interval counted from the lower limits of the '
               'coordinate window', 'sums of single-precision energies and areas may differ by '
               'relative 2e-5 (summation order and precision)']




def judge(case, lut, sub, scale, xrange_, yrange_):
    ex, ey = sub.event_x.data, sub.event_y.data
    fx = (ex - xrange_[0]) / scale
    fy = (ey - yrange_[0]) / scale
    near = np.minimum(np.abs(fx - np.round(fx)), np.abs(fy - np.round(fy)))
    if len(near) and near.min() < 1e-6:
        raise Skip('event on a cell edge')
    cells = list(zip(np.floor(fx).astype(int).tolist(), np.floor(fy).astype(int).tolist()))
    members = {}
    for i, c in enumerate(cells):
        members.setdefault(c, []).append(i)
    case.check(lut.lutevent_id.shape == (len(members),), 'one entry per occupied cell',
               got=lut.lutevent_id.shape, want=len(members))
    parent = lut.event_parent_lutevent_id.data
    case.check(parent.shape == (len(cells),), 'every event has an entry')
    entry_ids = lut.lutevent_id.data.tolist()
    case.check(len(set(entry_ids)) == len(entry_ids), 'one entry per occupied cell')
    row = {v: k for k, v in enumerate(entry_ids)}
    fl_area = dict(zip(sub.flash_id.data.tolist(), sub.flash_area.data.astype('f8').tolist()))
    gr_area = dict(zip(sub.group_id.data.tolist(), sub.group_area.data.astype('f8').tolist()))
    gr_fl = dict(zip(sub.group_id.data.tolist(), sub.group_parent_flash_id.data.tolist()))
    ev_gr = sub.event_parent_group_id.data.tolist()
    en = sub.event_energy.data.astype('f8')
    L = {k: lut['lutevent_' + k].data for k in
         ('x', 'y', 'energy', 'count', 'flash_count', 'group_count', 'total_flash_area',
          'total_group_area', 'time_offset', 'min_flash_area')}
    want = {k: np.full(len(members), np.nan) for k in L if k != 'time_offset'}
    for c, m in members.items():
        pid = set(parent[m].tolist())
        case.check(len(pid) == 1 and pid <= set(row), 'events of a cell share one entry', cell=c)
        r = row[pid.pop()]
        grs = set(ev_gr[i] for i in m)
        fls = set(gr_fl[g] for g in grs)
        want['x'][r], want['y'][r] = ex[m].mean(), ey[m].mean()
        want['energy'][r] = en[m].sum()
        want['count'][r] = len(m)
        want['flash_count'][r], want['group_count'][r] = len(fls), len(grs)
        want['total_flash_area'][r] = sum(fl_area[i] for i in fls)
        want['total_group_area'][r] = sum(gr_area[i] for i in grs)
        want['min_flash_area'][r] = min(fl_area[i] for i in fls)
    case.check(np.isfinite(want['count']), 'entries match cells one to one')
    for k in ('count', 'flash_count', 'group_count'):
        case.equal(L[k].astype('f8'), want[k], 'entry ' + k)
    for k in ('x', 'y'):
        case.close(L[k], want[k], 'entry mean position', rtol=0, atol=1e-12)
    for k in ('energy', 'total_flash_area', 'total_group_area', 'min_flash_area'):
        case.close(L[k], want[k], 'entry ' + k, rtol=2e-5)
    case.check(L['time_offset'] == sub.product_time.data, 'entry time is the product time')
    case.close(L['energy'].sum(), en.sum(), 'total energy over the table', rtol=2e-5)
    case.close(L['count'].sum(), len(cells), 'total count over the table', rtol=0)
    if max([len(m) for m in members.values()] or [0]) > 255:
        case.count('input: entry with more than 255 events')
    if len(want['count']) and (xrange_[1] - xrange_[0]) / scale * (yrange_[1] - yrange_[0]) / scale > 2 ** 32:
        case.count('input: more than 2^32 possible locations')
    if any(len(m) > 1 for m in members.values()):
        case.nontrivial(sorted(members.values()))
    if any(len(set(gr_fl[ev_gr[i]] for i in m)) > 1 for m in members.values()):
        case.count('input: entry shared by several flashes')
    if any(len(set(ev_gr[i] for i in m)) < len(m) for m in members.values()):
        case.count('input: entry with several events of one group')


def lut(case):
    from glmtools.io.glm import GLMDataset, get_lutevents
    rng = case.rng
    # crowd flashes together so they share pixels
    box = None if case.index % 3 == 0 else (-1.0, 1.0, 20.0, 21.0)
    many = case.index % 10 == 5
    if many:
        # hundreds of events, groups or flashes at one place
        k = case.index // 10 % 3
        f = make_file(rng, n_flashes=[3, 3, 400][k], group_style=['few', 'huge', 'one'][k],
                      event_style=['huge', 'one', 'one'][k], box=(-1.0, -.8, 20.0, 20.2), area='plain')
    else:
        f = make_file(rng, n_flashes=int(rng.choice([1, 3, 8, 25])), box=box)
    f.event_energy_raw[f.event_energy_raw == 65535] = 5
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    kw = {}
    scale, xr, yr = 28e-6, (-0.31, 0.31), (-0.31, 0.31)
    if rng.random() < .6:
        scale = kw['scale_factor'] = float(rng.choice([14e-6, 56e-6, 224e-6, 1e-3, 5e-3, 2e-5, 1e-6, 4e-6, 2e-7]))
    if many:
        scale = kw['scale_factor'] = 5e-3
    if rng.random() < .3:
        xr = kw['x_range'] = (-0.2, 0.25)
    if rng.random() < .3:
        yr = kw['y_range'] = (-0.22, 0.19)
    case.describe(options=kw, **f.style)
    case.begin('event lookup table')
    g = GLMDataset(path)
    if scale <= 1e-6:
        # positions in a file are too coarse to have several cells next to each other
        for v in ('event_x', 'event_y'):
            a = g.dataset[v]
            g.dataset[v] = a.dims, np.round(a.data, 5) + rng.uniform(-3, 3, a.shape) * scale
        case.count('input: cells of less than a microradian' if scale < 1e-6 else 'input: cells of a microradian')
    for rep in range(2):
        case.trial()
        if rep == 0:
            sub = g.dataset
        else:
            n = int(rng.integers(1, f.n('flash') + 1))
            sub = g.get_flashes(list(rng.permutation(f.flash_id)[:n]))
        before = sub.copy(deep=True)
        out = get_lutevents(sub, **kw)
        judge(case, out, before, scale, xr, yr)
        same_dataset(case, sub, before, 'source dataset unchanged')
        case.count('input: events', sub.event_id.shape[0])


def empty(case):
    from glmtools.io.glm import GLMDataset, get_lutevents
    rng = case.rng
    f = make_file(rng, n_flashes=0 if case.index % 2 else 4)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.describe(**f.style)
    case.begin('event lookup table of an empty selection')
    g = GLMDataset(path)
    sub = g.dataset if f.n('flash') == 0 else g.subset_flashes(lat_range=(89.0, 90.0))
    case.check(sub.event_id.shape == (0,), 'selection is empty')
    out = get_lutevents(sub)
    case.check(out.lutevent_id.shape == (0,), 'empty selection gives an empty table')
    for k in ('x', 'y', 'energy', 'count', 'flash_count', 'group_count', 'total_flash_area',
              'total_group_area', 'min_flash_area', 'time_offset'):
        case.check(out['lutevent_' + k].shape == (0,), 'empty selection gives an empty table', var=k)


SCENARIOS = [('lut', lut, 150, 1800), ('empty', empty, 8, 40)]
REQUIRED = {'entry count': (240, 3000), 'input: entry shared by several flashes': 30,
            'input: entry with several events of one group': 30,
            'input: entry with more than 255 events': 5, 'input: more than 2^32 possible locations': (10, 100),
            'empty selection gives an empty table': 4}
