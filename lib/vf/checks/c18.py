"""Time aggregation against sums over plain Python lists of frames."""
from datetime import datetime, timedelta

import numpy as np
import pandas as pd
import xarray as xr

from vf import images

PROPERTY = 'C18'
RULE = ('one evaluation per bin; distinct non-trivial when it joins at least two frames with lightning; '
        'distinct by frame times and values')
ASSUMPTIONS = ['the interval asked for is a whole number of bins long']

SUMS = ('flash_extent_density', 'flash_centroid_density', 'total_energy', 'group_extent_density',
        'group_centroid_density')


def series(rng, long=False):
    """Imagery with one frame a minute, some missing, and nan where there is no lightning."""
    n = int(rng.integers(1, 26))
    if long:
        n = int(rng.integers(130, 400))
    t0 = datetime(2020, 2, 29, 23, 50) + timedelta(minutes=int(rng.integers(0, 3000)))
    times = [t0 + timedelta(minutes=k) for k in range(n)]
    gaps = rng.random() < .4
    if gaps:
        times = [t for t in times if rng.random() < .6] or times[:1]
    shuffled = rng.random() < .25
    if shuffled:
        times = [times[i] for i in rng.permutation(len(times))]
    if rng.random() < .15:
        times = [t + timedelta(seconds=float(rng.choice([0, 20, 40]))) for t in times]
    ny, nx = (int(v) for v in rng.integers(1, 3 if long else 7, 2))
    shape = (len(times), ny, nx)
    hit = rng.random(shape) < float(rng.choice([.05, .4, .9]))
    ghit = hit | (rng.random(shape) < .1)
    dtype = str(rng.choice(['f4', 'f8']))

    def field(v, h):
        return (('time', 'y', 'x'), np.where(h, v, np.nan).astype(dtype))

    v = dict(
        flash_extent_density=field(rng.uniform(.0625, 40, shape), hit),
        flash_centroid_density=field(rng.integers(1, 9, shape), hit & (rng.random(shape) < .5)),
        total_energy=field(rng.uniform(2e-6, 1e-2, shape), hit),
        group_extent_density=field(rng.uniform(.25, 400, shape), ghit),
        group_centroid_density=field(rng.integers(1, 90, shape), ghit & (rng.random(shape) < .5)),
        average_flash_area=field(rng.uniform(60, 9000, shape), hit),
        average_group_area=field(rng.uniform(60, 900, shape), ghit),
    )
    if rng.random() < .8:
        v['minimum_flash_area'] = field(rng.uniform(60, 900, shape), hit)
    extra = 'minimum_flash_area' not in v or rng.random() < .6
    if extra:
        v['goes_imager_projection'] = (('time',), np.full(len(times), -2147483647, 'i4'))
        v['nominal_satellite_subpoint_lat'] = (('time',), np.zeros(len(times)))
        v['nominal_satellite_subpoint_lon'] = (('time',), np.full(len(times), -75.))
    d = xr.Dataset(v, coords=dict(time=pd.DatetimeIndex(times), x=np.arange(nx) * 56e-6,
                                  y=-np.arange(ny) * 56e-6))
    d.attrs['title'] = 'source'
    return d, times, dict(n=len(times), gaps=bool(gaps), shuffled=bool(shuffled), shape=(ny, nx))


def aggregated(case):
    from glmtools.io.imagery import aggregate
    rng = case.rng
    d, times, style = series(rng, long=case.index % 16 == 5)
    minutes = int(rng.choice([1, 2, 3, 5, 7, 10, 30])) if style['n'] < 60 else int(rng.choice([1, 2, 5, 60]))
    width = timedelta(minutes=minutes)
    first, last = min(times), max(times)
    se = None
    if rng.random() < (.2 if style['n'] > 60 else .6):
        nb = int(rng.integers(1, 8))
        s = first + timedelta(minutes=int(rng.integers(-4, max(1, (last - first).seconds // 60) + 1)))
        if rng.random() < .2:
            s -= timedelta(seconds=30)
        se = (s, s + nb * width)
        if not any(se[0] <= t < se[1] for t in times):
            se = (first, first + nb * width)
    days = case.index % 40 == 7
    if days:
        # more than a day of minutes
        minutes, width = 1, timedelta(minutes=1)
        se = (first - timedelta(minutes=int(rng.integers(1500, 3000))), last + timedelta(minutes=1))
        case.count('input: more than a day of minutes')
    start = first if se is None else se[0]
    # without an interval: as many bins as are needed for the last frame
    n = int((last - first) / width) + 1 if se is None else int((se[1] - se[0]) / width)
    case.describe(series=style, minutes=minutes, interval=[str(v) for v in se] if se else None,
                  times=[str(t) for t in times[:30]])
    case.begin('aggregation')
    keep = d.copy(deep=True)
    out = aggregate(d, minutes, start_end=se) if se is not None or rng.random() < .5 else aggregate(d, minutes)
    case.check(d.identical(keep), 'the source imagery is unchanged')
    bins = list(out.time_bins.values)
    lefts = [pd.Timestamp(b.left).to_pydatetime() for b in bins]
    want = [start + k * width for k in range(n)]
    case.check(set(lefts) <= set(want) and len(set(lefts)) == len(lefts), 'bins are those asked for',
               got=[str(v) for v in lefts], want=[str(v) for v in want])
    case.check(all(pd.Timestamp(b.right).to_pydatetime() == l + width for b, l in zip(bins, lefts)),
               'bins have the width asked for')
    for a, w in (('time_coverage_start', min(lefts)), ('time_coverage_end', max(lefts) + width)):
        case.check(pd.Timestamp(out.attrs[a]).tz_localize(None).to_pydatetime() == w, 'coverage spans the bins',
                   attribute=a, got=out.attrs[a], want=str(w))
    seen = 0
    for b in want:
        idx = [i for i, t in enumerate(times) if b <= t < b + width]
        if b not in lefts:
            case.check(not idx, 'every frame is in a bin', bin=str(b), frames=[str(times[i]) for i in idx])
            continue
        if days and not idx and rng.random() < .98:
            continue
        case.trial()
        k = lefts.index(b)
        o = out.isel(time_bins=k)
        seen += len(idx)
        tot = {}
        for f in SUMS:
            v = d[f].values[idx].astype('f8')
            w = np.nansum(v, axis=0) if len(idx) else np.zeros(d[f].shape[1:])
            got = o[f].transpose('y', 'x').values.astype('f8')
            case.close(np.nan_to_num(got), w, 'densities and energy are sums of the frames', rtol=2e-5, atol=0,
                       field=f, bin=str(b), frames=[str(times[i]) for i in idx])
            tot[f] = w
        for a, dn in images.AVERAGES.items():
            num = np.nansum(d[a].values[idx].astype('f8') * d[dn].values[idx].astype('f8'), axis=0) \
                if len(idx) else np.zeros(d[a].shape[1:])
            w = np.where(tot[dn] > 0, num / np.where(tot[dn] > 0, tot[dn], 1), np.nan)
            got = o[a].transpose('y', 'x').values.astype('f8')
            case.check(np.isnan(got[np.isnan(w)]).all(), 'no lightning stays missing', field=a)
            case.close(got, w, 'averages are weighted by their own density', rtol=5e-5, atol=0, field=a, bin=str(b))
        f = 'minimum_flash_area'
        if f in d:
            v = d[f].values[idx].astype('f8')
            got = o[f].transpose('y', 'x').values.astype('f8')
            w = np.full(d[f].shape[1:], np.nan)
            for frame in v:
                w = np.fmin(w, frame)
            case.close(got, w, 'the minimum is the smallest', rtol=1e-6, atol=0, field=f, bin=str(b))
        for f, w in (('goes_imager_projection', -2147483647), ('nominal_satellite_subpoint_lon', -75.)):
            if f in d and len(idx):
                case.check(float(o[f]) == w, 'projection values are kept', field=f)
        if len([i for i in idx if np.isfinite(d.flash_extent_density.values[i]).any()]) > 1:
            case.nontrivial([str(times[i]) for i in idx], d.flash_extent_density.values[idx].tolist())
    inside = [t for t in times if start <= t < start + n * width]
    case.check(seen == len(inside), 'every frame is in exactly one bin', got=seen, want=len(inside))
    case.count('input: frames aggregated', seen)
    case.count('input: frames at the start of a bin', sum((t - start) % width == timedelta(0) for t in inside))


SCENARIOS = [('aggregated', aggregated, 80, 1000)]
REQUIRED = {'densities and energy are sums of the frames': (500, 5000),
            'averages are weighted by their own density': (200, 2000), 'input: frames aggregated': (300, 4000),
            'input: more than a day of minutes': (2, 20)}
