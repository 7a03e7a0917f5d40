"""Wrongly signed 16-bit values."""
import os
from datetime import datetime, timedelta

import netCDF4
import numpy as np
import xarray as xr

from ..gen import make_file
from .c04 import damage, survivors

PROPERTY = 'C28'
RULE = ('a case is distinct non-trivial when at least one stored integer is above 32767; distinct '
        'by stored integers and options')
ASSUMPTIONS = ['the affected files are those from 15 Oct 2018 00:00 to 6 Nov 2018 00:00 UTC carrying frame '
               'time offsets; files reaching across these limits are not exercised', 'decoded times may differ by 2 microseconds (float decoding); the '
               'storage step is 381 microseconds or more']


def times(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    inside = case.index % 3 != 2
    if inside:
        start = datetime(2018, 10, 15, 1) + timedelta(seconds=20 * int(rng.integers(0, 93000)))
        if case.index % 6 == 1:
            # the first and last days
            start = [datetime(2018, 10, 15, 1), datetime(2018, 11, 5, 2)][case.index // 6 % 2] + timedelta(
                seconds=20 * int(rng.integers(0, 3600)))
            if case.index // 12 % 2:
                # the very first and last files
                start = [datetime(2018, 10, 15), datetime(2018, 11, 5, 23, 59, 40)][case.index // 6 % 2]
            case.count('input: first and last days of the period')
    elif rng.random() < .5:
        start = datetime(2018, 11, 6, 12) + timedelta(seconds=20 * int(rng.integers(0, 800000)))
    else:
        start = datetime(2018, 10, 14, 12) - timedelta(seconds=20 * int(rng.integers(0, 800000)))
    if not inside and rng.random() < .25:
        start = [datetime(2018, 10, 14, 23, 59, 40), datetime(2018, 11, 6), datetime(2018, 10, 14, 20),
                 datetime(2018, 11, 6, 2)][int(rng.integers(4))]
    f = make_file(rng, n_flashes=int(rng.choice([1, 3, 10])), start=start)
    f.extra_frame_times = True
    f.time_scale, f.time_add = (0.3814756, -5000.0) if rng.random() < .7 else (2.0, 0.0)
    f.mark_unsigned_time = bool(rng.random() < .25)
    for name in ('event_time_raw', 'group_time_raw', 'flash_first_raw', 'flash_last_raw',
                 'group_frame_raw', 'flash_frame_first_raw', 'flash_frame_last_raw'):
        n = len(getattr(f, name))
        v = rng.integers(0, 65536, n)
        k = rng.random(n)
        v = np.where(k < .1, rng.choice([0, 1, 32767, 32768, 65535, 65534], n), v)
        setattr(f, name, v)
    pruned = case.index % 2 == 1
    if pruned:
        damage(rng, f, case)
    fl, gr, ev = survivors(f)
    kw = {}
    if rng.random() < .25:
        kw['fix_bad_DO07_times'] = False
    if not pruned and rng.random() < .2:
        kw['calculate_parent_child'] = False
    fixed = inside and kw.get('fix_bad_DO07_times', True)
    f.unsigned_time = fixed or f.mark_unsigned_time
    case.describe(inside=inside, pruned=pruned, options=kw, marked=f.mark_unsigned_time,
                  scale=f.time_scale, **f.style)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('opening a file')
    ds = GLMDataset(path, **kw).dataset

    def rows(level, keep):
        ids = getattr(f, level + '_id')
        got = ds[level + '_id'].data.tolist()
        case.check(sorted(got) == sorted(ids[keep].tolist()), 'records of complete chains', level=level)
        row = {v: i for i, v in enumerate(ids.tolist())}
        return np.array([row[i] for i in got], dtype=int)

    def same(var, raw, idx):
        got = ds[var].data
        want = f.times(raw)[idx]
        case.check(got.shape == want.shape, 'one time per record', var=var)
        diff = np.abs((got - want) / np.timedelta64(1, 'ns'))
        case.check(diff <= 2000, 'time as encoded by the unsigned offset' if f.unsigned_time
                   else 'time left as encoded', var=var, worst=diff.max() if len(diff) else 0,
                   inside=inside, options=kw)
    same('event_time_offset', f.event_time_raw, rows('event', ev))
    same('group_time_offset', f.group_time_raw, rows('group', gr))
    same('group_frame_time_offset', f.group_frame_raw, rows('group', gr))
    i = rows('flash', fl)
    same('flash_time_offset_of_first_event', f.flash_first_raw, i)
    same('flash_time_offset_of_last_event', f.flash_last_raw, i)
    same('flash_frame_time_offset_of_first_event', f.flash_frame_first_raw, i)
    same('flash_frame_time_offset_of_last_event', f.flash_frame_last_raw, i)
    case.count('input: times inside the period' if inside else 'input: times outside the period')
    if pruned and fixed and (~ev).any():
        case.count('input: repaired times of a pruned file')
    if (f.event_time_raw > 32767).any():
        case.nontrivial(f.event_time_raw.tolist()[:50], sorted(kw), inside)


def unsigned_helper(case):
    from glmtools.io.glm import fix_unsigned
    rng = case.rng
    width = ['i2', 'i2', 'i1', 'i4'][case.index % 4]
    bits = 8 * int(width[1])
    n = 400
    raw = rng.integers(0, 2**bits, n)
    raw[:8] = [0, 1, 2**(bits - 1) - 1, 2**(bits - 1), 2**(bits - 1) + 1, 2**bits - 1,
               2**bits - 2, 3]
    signed = raw.astype('u%d' % (bits // 8)).view(width)
    scale, off = [(0.00203128, -66.56), (1.52597e-15, 0.0), (0.15163901, 63.095734),
                  (2.0, 0.0), (0.1, 0.3)][int(rng.integers(5))]
    t = np.float32 if rng.random() < .5 else np.float64
    attrs = dict(scale_factor=t(scale), add_offset=t(off))
    order = '>' if rng.random() < .2 else '<'
    ds = xr.Dataset({'v': ('d', signed.astype(order + width), attrs)})
    case.describe(width=width, scale=scale, offset=off, attr=t.__name__, order=order)
    case.begin('unsigned helper')
    da = xr.decode_cf(ds)['v']
    # what decode_cf leaves in encoding is what opening a file leaves there
    da.encoding.setdefault('dtype', np.dtype(order + width))
    if da.dtype.itemsize == 4 and bits > 16:
        case.count('input: too coarse to test')
        return
    got = fix_unsigned(da)
    want = raw * float(t(scale)) + float(t(off))
    case.close(np.asarray(got), want, 'value of the unsigned integer', rtol=1e-6,
               atol=abs(float(scale)) * 0.01)
    case.nontrivial(raw.tolist()[:40], width, scale)


def event_locations(case):
    from glmtools.io.glm import fix_event_locations
    rng = case.rng
    n = 300
    scale, lon0, lat0 = 0.00203128, -156.06, -66.56

    def raw():
        v = rng.integers(0, 65536, n)
        v[:6] = [0, 1, 32767, 32768, 65535, 65534]
        return v[rng.permutation(n)]
    rlat, rlon = raw(), raw()
    if case.index % 4 == 0:
        k = int(rng.integers(0, 65536 - n))
        rlat = np.arange(k, k + n)
    case.describe(mode='xarray' if case.index % 2 else 'netCDF4', lat0=rlat[:4], lon0=rlon[:4])
    path = os.path.join(case.tmp, 'loc.nc')
    nc = netCDF4.Dataset(path, 'w')
    nc.createDimension('n', n)
    t = np.float32 if rng.random() < .3 else np.float64
    for name, r, off in (('lat', rlat, lat0), ('lon', rlon, lon0)):
        v = nc.createVariable(name, 'i2', ('n',))
        v.set_auto_maskandscale(False)
        v.scale_factor, v.add_offset = t(scale), t(off)
        if case.index % 2 == 0:
            v.setncattr('_Unsigned', 'true')
        v[:] = r.astype('u2').view('i2')
    nc.close()
    case.begin('event location helper')
    if case.index % 2:
        d = xr.open_dataset(path)
        lat, lon = fix_event_locations(d.lat, d.lon, is_xarray=True)
    else:
        d = netCDF4.Dataset(path)
        lat, lon = fix_event_locations(d.variables['lat'], d.variables['lon'])
    case.close(np.asarray(lat), rlat * scale + lat0, 'latitude of the unsigned integer', rtol=0, atol=1e-4)
    case.close(np.asarray(lon), rlon * scale + lon0, 'longitude of the unsigned integer', rtol=0, atol=1e-4)
    d.close()
    case.nontrivial(rlat.tolist()[:40])


SCENARIOS = [('times', times, 180, 2000), ('unsigned_helper', unsigned_helper, 120, 1200),
             ('event_locations', event_locations, 60, 600)]
REQUIRED = {'time as encoded by the unsigned offset': (400, 4000), 'time left as encoded': 100,
            'value of the unsigned integer': 80, 'latitude of the unsigned integer': 40,
            'input: repaired times of a pruned file': 15}
