"""Inputs that must be refused instead of misread."""
import os

import numpy as np
import xarray as xr

from ..gen import make_file

PROPERTY = 'C31'
RULE = ('one evaluation per attempt; distinct non-trivial when the input has to be refused; distinct by '
        'units and options, or by the declared hierarchy')
ASSUMPTIONS = ['any exception of the ValueError family is a refusal']
LEVELS = ('flash', 'group', 'event')
UNITS = ['nJ', 'fJ', 'j', 'mJ', 'kJ', 'erg', '1', '', 'J ', 'W', 'joule']


def units(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = make_file(rng, n_flashes=int(rng.choice([1, 2, 5])))
    odd = [v for v in LEVELS if rng.random() < .5] if case.index % 5 else []
    for v in odd:
        f.e_units[v] = str(rng.choice(UNITS))
    opts = {}
    for name in ('check_area_units', 'calculate_parent_child', 'fix_bad_DO07_times', 'check_tree'):
        if rng.random() < .2:
            opts[name] = False
    convert = bool(rng.random() < .75)
    if not convert:
        opts['change_energy_units'] = False
    case.describe(energy_units=f.e_units, options=opts, **f.style)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    if odd and convert:
        got = None
        try:
            got = GLMDataset(path, **opts)
        except ValueError:
            pass
        case.check(got is None, 'energies in other units are refused', units=f.e_units, options=opts)
        case.trial()
        case.nontrivial(sorted(f.e_units.items()), sorted(opts))
        case.count('input: other unit at the %s level only' % odd[0] if len(odd) == 1 else
                   'input: other units at several levels')
        return
    case.begin('opening a file')
    ds = GLMDataset(path, **opts).dataset
    for v in LEVELS:
        e = ds[v + '_energy']
        case.check(e.attrs['units'] == ('nJ' if convert else f.e_units[v]), 'otherwise the unit is told', level=v)
        case.close(e.data, f.energy_nJ(v) if convert else f.energy_J(v),
                   'otherwise the energies are those of the file', rtol=3e-7, level=v)


def hierarchy(case):
    from glmtools.io.traversal import OneToManyTraversal
    rng = case.rng
    n = int(rng.integers(1, 6))
    m = n - 1 if case.index % 4 == 0 else int(rng.integers(0, 6))
    v = {}
    for i in range(6):
        size = int(rng.integers(1, 6))
        v['id%d' % i] = ('d%d' % i, rng.permutation(size))
        if i:
            v['parent%d' % i] = ('d%d' % i, rng.integers(0, len(v['id%d' % (i - 1)][1]), size))
    ds = xr.Dataset(v)
    ds = ds.set_coords(list(ds.variables))
    ids = ['id%d' % i for i in range(n)]
    parents = ['parent%d' % (i + 1) for i in range(min(m, 5))]
    case.describe(levels=n, links=len(parents))
    ok = len(parents) == n - 1
    if ok:
        case.begin('a hierarchy')
        t = OneToManyTraversal(ds, ids, parents)
        case.check(t.dataset is not None, 'a matching number of links is taken')
        return
    refused = False
    try:
        OneToManyTraversal(ds, ids, parents)
    except ValueError:
        refused = True
    case.trial()
    case.check(refused, 'a wrong number of links is refused', levels=n, links=len(parents))
    case.nontrivial(n, len(parents))


SCENARIOS = [('units', units, 120, 900), ('hierarchy', hierarchy, 60, 300)]
REQUIRED = {'energies in other units are refused': (40, 400),
            'otherwise the energies are those of the file': (60, 600),
            'a wrong number of links is refused': (20, 100),
            'input: other unit at the flash level only': (2, 20),
            'input: other unit at the group level only': (2, 20),
            'input: other unit at the event level only': (2, 20)}
