"""Opening from other sources than a file name, and what opening leaves behind."""
import hashlib
import os
import pathlib
from datetime import datetime, timedelta

import numpy as np
import xarray as xr

from ..gen import make_file
from ..trees import same_dataset
from .c04 import damage

PROPERTY = 'C32'
RULE = ('one evaluation per file opened from another source; distinct non-trivial when opening had to change '
        'something (units, zero energies, overflowed areas, tree or times); distinct by records and source')
ASSUMPTIONS = ['objects handed in were opened from a file with default decoding']


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def source(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    period = case.index % 4 == 3
    kw = {}
    if period:
        kw['start'] = datetime(2018, 10, 15, 1) + timedelta(seconds=20 * int(rng.integers(0, 93000)))
    f = make_file(rng, n_flashes=int(rng.choice([1, 2, 5, 12])), **kw)
    if period:
        f.extra_frame_times = True
        f.mark_unsigned_time = bool(rng.random() < .3)
        for name in ('group_frame_raw', 'flash_frame_first_raw', 'flash_frame_last_raw', 'event_time_raw'):
            setattr(f, name, rng.integers(0, 65536, len(getattr(f, name))))
        case.count('input: period of wrongly signed times')
    if rng.random() < .6:
        f.event_energy_raw[int(rng.integers(f.n('event')))] = 0
        f.flash_area_raw[int(rng.integers(f.n('flash')))] = 65535
    damaged = rng.random() < .25
    if damaged:
        damage(rng, f, case)
        case.count('input: damaged trees')
    opts = {}
    for name in ('check_area_units', 'change_energy_units', 'check_tree', 'fix_bad_DO07_times'):
        if rng.random() < .15 and not (damaged and name == 'check_tree'):
            opts[name] = False
    if rng.random() < .3:
        opts['ellipse_rev'] = int(rng.integers(2))
    kind = ['object', 'object', 'loaded object', 'path'][case.index // 4 % 4]
    case.describe(options=opts, source=kind, period=period, **f.style)
    path = f.write(os.path.join(case.tmp, 'in%d.nc' % case.index))
    before = digest(path)
    case.begin('opening by name')
    want = GLMDataset(path, **opts).dataset.load()
    case.begin('opening from another source')
    if kind == 'path':
        got = GLMDataset(pathlib.Path(path), **opts).dataset.load()
        same_dataset(case, got, want, 'same as by name')
    else:
        src = xr.open_dataset(path)
        if kind == 'loaded object':
            src.load()
        keep = src.copy(deep=True)
        units = {v: src[v].attrs.get('units') for v in src.variables}
        for turn in (1, 2):
            got = GLMDataset(src, **opts).dataset.load()
            same_dataset(case, got, want, 'same as by name', skip=())
            same_dataset(case, src, keep, 'the object handed in is left as it was')
            case.check({v: src[v].attrs.get('units') for v in src.variables} == units,
                       'the object handed in is left as it was', why='units')
        for v in want.variables:
            case.check(got[v].attrs.get('units') == want[v].attrs.get('units'), 'same units as by name', var=v)
        src.close()
    case.check(digest(path) == before, 'the file is left as it was')
    case.nontrivial(kind, f.event_id.tolist()[:50], sorted(opts), f.event_energy_raw.tolist()[:50])


SCENARIOS = [('source', source, 96, 700)]
REQUIRED = {'same as by name': (2000, 14000), 'the object handed in is left as it was': (2000, 14000),
            'the file is left as it was': (90, 650), 'input: period of wrongly signed times': (20, 150)}
