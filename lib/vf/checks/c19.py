"""Time series of image files against each file opened on its own."""
import os
from datetime import timedelta

import numpy as np
import pandas as pd
import xarray as xr

from vf import images, mf

PROPERTY = 'C19'
RULE = ('one evaluation per series; distinct non-trivial when it has at least two files; distinct by '
        'order of frame times')
ASSUMPTIONS = ['files share one grid', 'xarray.open_mfdataset is replaced by an eager equivalent, '
               'because dask is not installed']


def series(case):
    from glmtools.io.imagery import open_glm_time_series, write_goes_imagery, gen_file_times, aggregate
    mf.install()
    rng = case.rng
    n = int(rng.integers(1, 6))
    interval = float(rng.choice([60., 60., 300., 20.]))
    start = images.start_time(rng)
    if rng.random() < .4:
        start += timedelta(seconds=float(rng.choice([.1, .7, 20.5, .25])))
        case.count('input: frames not on whole seconds')
    g, x, y, edges, nadir = images.make_gridder(rng, start=start, nx=int(rng.integers(3, 8)), ny=int(rng.integers(3, 8)),
                                                frames=n, interval=interval)
    values = images.fill(rng, g, top=.5)
    packed = bool(rng.random() < .5)
    case.describe(frames=n, interval=interval, start=str(edges[0]), packed=packed)
    case.begin('writing')
    files = write_goes_imagery(g, outpath=os.path.join(case.tmp, '{dataset_name}'), scale_and_offset=packed)
    pick = list(range(n))
    order = str(rng.choice(['ascending', 'shuffled', 'some', 'descending']))
    if order == 'shuffled':
        pick = rng.permutation(n).tolist()
    elif order == 'some':
        pick = rng.permutation(n)[:max(1, n - 1)].tolist()
    elif order == 'descending':
        pick = pick[::-1]
    if rng.random() < .3:
        # files of different length: overlapping coverage
        k = int(rng.integers(0, len(pick)))
        f = files[pick[k]]
        with xr.open_dataset(f) as d:
            d.load()
        late = edges[pick[k] + 1] + timedelta(minutes=int(rng.integers(1, 40)))
        d.attrs['time_coverage_end'] = late.isoformat() + 'Z'
        new = f.replace('.nc', '_long.nc')
        d.to_netcdf(new)
        files[pick[k]] = new
    names = [files[i] for i in pick]
    alone = []
    for f in names:
        with xr.open_dataset(f) as d:
            alone.append(d.load())
    case.describe(frames=n, interval=interval, start=str(edges[0]), packed=packed, order=pick)
    case.begin('time series')
    d = open_glm_time_series(list(names))
    times = pd.DatetimeIndex(d['time'].values)
    want = [edges[i] for i in pick]
    case.check(d.sizes['time'] == len(names), 'one frame per file', got=d.sizes['time'], want=len(names))
    case.check([t.to_pydatetime() for t in times] == want, 'frames carry the start of their file',
               got=[str(t) for t in times], want=[str(t) for t in want])
    starts, ends = ([pd.Timestamp(a.attrs[k]).tz_localize(None) for a in alone]
                    for k in ('time_coverage_start', 'time_coverage_end'))
    for a, w in (('time_coverage_start', min(starts)), ('time_coverage_end', max(ends))):
        case.check(pd.Timestamp(d.attrs[a]).tz_localize(None) == w, 'coverage attributes span all files',
                   attribute=a, got=d.attrs[a], want=str(w))
    for k, a in enumerate(alone):
        for f in images.FIELDS:
            case.equal(d[f].isel(time=k).transpose('y', 'x').values, a[f].values, 'frames hold the values of their file', field=f,
                       frame=k)
    case.equal(d['x'].values, alone[0]['x'].values, 'the grid is kept')
    case.equal(d['y'].values, alone[0]['y'].values, 'the grid is kept')
    case.check('time' in d.coords and 'time' in d.indexes, 'time is an index')
    k = int(rng.integers(0, len(want)))
    one = d.sel(time=want[k])
    case.equal(one['total_energy'].transpose('y', 'x').values, alone[k]['total_energy'].values, 'frames can be selected by time')
    got = list(gen_file_times(names))
    case.check([t.to_pydatetime() for t in got] == [s.to_pydatetime() for s in starts], 'file times in the order listed')
    got = list(gen_file_times(names, time_attr='time_coverage_end'))
    case.check([t.to_pydatetime() for t in got] == [s.to_pydatetime() for s in ends], 'file times in the order listed')
    if len(names) > 1:
        case.nontrivial([str(w) for w in want], packed)


SCENARIOS = [('series', series, 40, 500)]
REQUIRED = {'input: frames not on whole seconds': (5, 80), 'frames carry the start of their file': (40, 500),
            'frames hold the values of their file': (500, 6000)}
