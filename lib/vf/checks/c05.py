"""Unit and range normalisation on open, and its switches."""
import itertools
import os

import numpy as np
import xarray as xr

from ..gen import make_file, FILL

PROPERTY = 'C05'
RULE = ('a case is distinct non-trivial when its file holds at least one value that the options in '
        'force must change by more than the unit (a zero energy or an overflowed area); distinct '
        'by options, units and the affected rows')
ASSUMPTIONS = ['energy units in the file are J, as production files have',
               'float32 resolution (relative 3e-7) is what decoding these files gives']


def normalise(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = make_file(rng)
    if rng.random() < .25:
        # areas of flashes and groups in different units
        f.group_area_units = 'm2' if f.area_units == 'km2' else 'km2'
        case.count('input: areas in different units')
    if rng.random() < .3:
        # no offset, so that an area can be zero
        f.a_pack = {k: (v[0], 0.) for k, v in f.a_pack.items()}
        for raw in (f.flash_area_raw, f.group_area_raw):
            raw[rng.permutation(len(raw))[:2]] = 0
        case.count('input: areas of zero')
    opts = {}
    for name in ('check_area_units', 'change_energy_units', 'calculate_parent_child',
                 'fix_bad_DO07_times', 'check_tree'):
        if rng.random() < 0.3:
            opts[name] = False
    # make sure the interesting values are there
    if rng.random() < .8:
        f.event_energy_raw[rng.permutation(f.n('event'))[:2]] = [0, 1][:min(2, f.n('event'))]
        f.flash_area_raw[int(rng.integers(f.n('flash')))] = FILL
        f.group_area_raw[int(rng.integers(f.n('group')))] = FILL
    if rng.random() < .2:
        f.event_energy_raw[int(rng.integers(f.n('event')))] = FILL
    case.describe(options=opts, group_areas=f.area_unit('group'), **f.style)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    plain = xr.open_dataset(path).load()
    plain.close()
    case.begin('opening a file')
    ds = GLMDataset(path, **opts).dataset
    energy, area = opts.get('change_energy_units', True), opts.get('check_area_units', True)
    for level in ('flash', 'group', 'event'):
        v = ds[level + '_energy']
        if energy:
            want = f.energy_nJ(level)
            case.check(v.attrs['units'] == 'nJ', 'energy unit label', level=level)
        else:
            want = f.energy_J(level)
            case.check(v.attrs['units'] == 'J', 'energy unit label', level=level)
        case.close(v.data, want, '%s energy' % level, rtol=3e-7, options=opts)
    for level in ('flash', 'group'):
        v = ds[level + '_area']
        if area:
            want = f.area_km2(level)
            case.check(v.attrs['units'] == 'km2', 'area unit label', level=level)
        else:
            want = f.area(level)
            case.check(v.attrs['units'] == f.area_unit(level), 'area unit label', level=level)
        case.close(v.data, want, '%s area' % level, rtol=4e-7, options=opts)
    # everything else as encoded
    touched = {'flash_energy', 'group_energy', 'event_energy', 'flash_area', 'group_area'}
    for name in plain.variables:
        if name in touched:
            continue
        case.check(name in ds.variables, 'other variables present', var=name)
        case.equal(ds[name].data, plain[name].data, 'other values keep what the file encodes',
                   var=name)
    case.check(ds.attrs == plain.attrs, 'attributes kept')
    # and independently of xarray's decoding
    case.close(ds.event_lat.data, f.event_lat, 'positions and times as encoded', rtol=0, atol=1e-9)
    case.close(ds.event_lon.data, f.event_lon, 'positions and times as encoded', rtol=0, atol=1e-9)
    case.equal(ds.event_time_offset.data, f.times(f.event_time_raw), 'positions and times as encoded')
    case.equal(ds.group_time_offset.data, f.times(f.group_time_raw), 'positions and times as encoded')
    case.equal(ds.flash_time_offset_of_first_event.data, f.times(f.flash_first_raw),
               'positions and times as encoded')
    case.equal(ds.flash_time_offset_of_last_event.data, f.times(f.flash_last_raw),
               'positions and times as encoded')
    z = int((f.event_energy_raw < 1).sum())
    o = int((f.flash_area_raw == FILL).sum() + (f.group_area_raw == FILL).sum())
    case.count('input: zero energies', z)
    case.count('input: overflowed areas', o)
    case.count('input: files in ' + f.area_units)
    for k in opts:
        case.count('input: off ' + k)
    if (z and energy) or (o and area):
        case.nontrivial(sorted(opts), f.area_units, f.event_energy_raw.tolist()[:50],
                        f.flash_area_raw.tolist()[:50])


def each_option(case):
    """All 8 combinations of the correction options on one file."""
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = make_file(rng, n_flashes=int(rng.integers(2, 8)), area_units=['m2', 'km2'][case.index % 2])
    f.event_energy_raw[0] = 0
    f.flash_area_raw[0] = FILL
    f.group_area_raw[-1] = FILL
    case.describe(**f.style)
    case.begin('opening a file with options')
    for n, (a, e, t) in enumerate(itertools.product((True, False), repeat=3)):
        path = f.write(os.path.join(case.tmp, 'in%d.nc' % n))
        ds = GLMDataset(path, check_area_units=a, change_energy_units=e, fix_bad_DO07_times=t).dataset
        case.close(ds.event_energy.data, f.energy_nJ('event') if e else f.energy_J('event'),
                   'event energy', rtol=3e-7, options=(a, e, t))
        case.close(ds.flash_energy.data, f.energy_nJ('flash') if e else f.energy_J('flash'),
                   'flash energy', rtol=3e-7, options=(a, e, t))
        case.close(ds.flash_area.data, f.area_km2('flash') if a else f.area('flash'),
                   'flash area', rtol=4e-7, options=(a, e, t))
        case.close(ds.group_area.data, f.area_km2('group') if a else f.area('group'),
                   'group area', rtol=4e-7, options=(a, e, t))
    case.nontrivial(f.event_energy_raw.tolist()[:50], f.flash_area_raw.tolist())


SCENARIOS = [('normalise', normalise, 220, 2600), ('each_option', each_option, 12, 100)]
REQUIRED = {'event energy': (200, 2000), 'flash area': (200, 2000),
            'input: zero energies': 100, 'input: overflowed areas': 100,
            'input: areas in different units': (20, 200), 'input: areas of zero': (20, 200), 'input: files in m2': 20, 'input: files in km2': 20,
            'input: off check_area_units': 20, 'input: off change_energy_units': 20}
