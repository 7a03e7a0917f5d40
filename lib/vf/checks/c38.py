"""Descriptions and units of the fields of image files."""
import os
import re

import numpy as np
import xarray as xr

from vf import images, mf

PROPERTY = 'C38'
RULE = ('one evaluation per image file; distinct non-trivial when it shows lightning; distinct by cell size, frame '
        'length, number of frames and packing')
ASSUMPTIONS = ['gridder objects are made with a stand-in for the missing lmatools package',
               'labels give the frame length to a tenth of a minute']
UNITS = {'average_flash_area': 'km^2 per flash', 'average_group_area': 'km^2 per group', 'minimum_flash_area': 'km^2',
         'total_energy': 'nJ'}
SIZES = [14e-6, 28e-6, 56e-6, 112e-6, 140e-6, 224e-6, 280e-6]


def words(text):
    return set(re.findall('[a-z]+', text.lower()))


def judge(case, d, dx, dy, interval):
    for f in images.FIELDS:
        case.check(f in d, 'every field is in the file', name=f)
        a = d[f].attrs
        case.check(words(f) <= words(a.get('long_name', '')), 'the description names the quantity', name=f, got=a.get('long_name'))
        other = {'flash', 'group', 'extent', 'centroid', 'average', 'minimum', 'total', 'energy', 'area', 'density'} - words(f)
        case.check(not other & words(a.get('long_name', '')), 'the description names no other quantity', name=f, got=a.get('long_name'))
        unit = a.get('units', '')
        if f in UNITS:
            case.check(''.join(unit.split()) == ''.join(UNITS[f].split()), 'the unit fits the values', name=f, got=unit, want=UNITS[f])
            continue
        m = re.search(r'([\d.]+)\s*microradian\^?2.*?([\d.]+)\s*min', unit)
        case.check(m is not None and 'count' in words(unit), 'densities are counts per cell and frame', name=f, got=unit)
        case.check(m.group(1) == '%d' % round(dx * dy * 1e12), 'the label gives the cell size', name=f, got=unit,
                   want=round(dx * dy * 1e12))
        case.check(abs(float(m.group(2)) - interval / 60.) <= .0500001, 'the label gives the frame length', name=f, got=unit,
                   want=interval / 60.)


def labels(case):
    from glmtools.io.imagery import aggregate, open_glm_time_series, write_goes_imagery
    mf.install()
    rng = case.rng
    dx, dy = (float(v) for v in rng.choice(SIZES, 2))
    if rng.random() < .6:
        dy = dx
    interval = float(rng.choice([60., 60., 300., 20., 600., 3600., 90.]))
    g, x, y, edges, nadir = images.make_gridder(rng, nx=int(rng.integers(3, 8)), ny=int(rng.integers(3, 8)), dx=dx, dy=dy,
                                                interval=interval, frames=int(rng.integers(1, 4)))
    values = images.fill(rng, g, top=.5)
    packed = bool(rng.random() < .5)
    case.describe(dx=dx, dy=dy, interval=interval, frames=len(edges) - 1, packed=packed)
    case.begin('writing')
    files = write_goes_imagery(g, outpath=os.path.join(case.tmp, 'i%d' % case.index, '{start_time:%H%M%S}_{dataset_name}'),
                               scale_and_offset=packed)
    for k, path in enumerate(files):
        case.trial()
        with xr.open_dataset(path) as d:
            d.load()
        judge(case, d, dx, dy, interval)
        if np.isfinite(d['total_energy'].values).any():
            case.nontrivial(dx, dy, interval, len(files), packed)
    if case.index % 3 == 1:
        case.begin('writing the other way')
        other = write_goes_imagery(g, outpath=os.path.join(case.tmp, 'j%d' % case.index, '{start_time:%H%M%S}_{dataset_name}'),
                                   scale_and_offset=not packed)
        case.count('input: packed and not')
        seen = {}
        for path in files + other:
            with xr.open_dataset(path) as d:
                for f in images.FIELDS:
                    seen.setdefault(f, set()).add((d[f].attrs['long_name'], d[f].attrs['units']))
        for f in images.FIELDS:
            case.check(len(seen[f]) == 1, 'labels are the same in every frame, packed or not', name=f, got=sorted(seen[f]))
    if rng.random() < .3:
        case.begin('time series')
        d = open_glm_time_series(files)
        judge(case, d, dx, dy, interval)
        case.count('input: series')
        case.begin('aggregation')
        e = aggregate(d, int(rng.choice([1, 5, 60])))
        for f in images.FIELDS:
            # averages are worked out anew
            if not f.startswith('average'):
                case.check(e[f].attrs.get('long_name') == d[f].attrs['long_name'], 'descriptions are kept on aggregation', name=f,
                           got=e[f].attrs.get('long_name'))


SCENARIOS = [('labels', labels, 60, 600)]
REQUIRED = {'the label gives the cell size': (200, 2000), 'the unit fits the values': (200, 2000), 'input: series': (8, 100), 'input: packed and not': (15, 150)}
