"""Synthetic GLM level-2 files.

L2 holds the *raw* content of a file (packed integers, IDs, parent links) and can write it as NetCDF in
the production layout.  Reference values are computed here from the raw content, never with
the code under test.
"""
from datetime import datetime, timedelta

import numpy as np
import netCDF4

EPOCH = datetime(2000, 1, 1, 12)
LATLON_SCALE = 0.00203128
FOV_HALF = 66.56
E_SCALE = 1.52597e-15
A_SCALE, A_OFF = 0.15163901, 63.095734
FILL = 65535
ID_MAX = {'flash': 2**16, 'group': 2**32, 'event': 2**32}

LEVELS = (('flash', 'number_of_flashes'), ('group', 'number_of_groups'),
          ('event', 'number_of_events'))


def make_ids(rng, n, top, style):
    """n distinct IDs below top."""
    if style == 'sequential':
        start = int(rng.integers(0, max(1, top - n)))
        return (start + np.arange(n)) % top
    if style == 'small':
        return np.arange(n) + int(rng.integers(0, 3))
    if style == 'wrapping':
        start = top - int(rng.integers(1, max(2, n)))
        return (start + np.arange(n)) % top
    if style == 'high':
        return top - 1 - np.arange(n)[::-1]
    # sparse
    out = set()
    while len(out) < n:
        out.update(int(v) for v in rng.integers(0, top, size=n))
    return np.array(sorted(out))[rng.permutation(len(out))[:n]]


class L2(object):
    """Raw content of one file.  ids/parents are plain int64 arrays."""

    def __init__(self):
        self.nadir = -75.0
        self.start = datetime(2018, 7, 2, 4, 33)
        self.seconds = 20.0
        self.area_units = 'km2'
        self.group_area_units = None  # as flash areas
        self.e_units = dict.fromkeys(('flash', 'group', 'event'), 'J')
        self.attr_f4 = True
        self.unsigned_time = False
        self.time_scale, self.time_add = 2.0, 0.0
        self.extra_frame_times = False
        self.platform, self.slot, self.instrument = 'G16', 'GOES-East', 'FM1'
        self.product_time_offset = 0.0
        # packing (scale, offset) in J and km2
        self.e_pack = dict.fromkeys(('flash', 'group', 'event'), (E_SCALE, 0.0))
        self.a_pack = dict.fromkeys(('flash', 'group'), (A_SCALE, A_OFF))

    # ------------------------------------------------------------------
    def n(self, level):
        return len(getattr(self, level + '_id'))

    def select(self, fl=None, gr=None, ev=None):
        """Keep only the given row indices at each level (parent links are left as they are)."""
        for level, idx in (('flash', fl), ('group', gr), ('event', ev)):
            if idx is None:
                continue
            for name in list(vars(self)):
                if name.startswith(level + '_') and isinstance(getattr(self, name), np.ndarray):
                    setattr(self, name, getattr(self, name)[idx])
        return self

    def permute(self, rng):
        self.select(rng.permutation(self.n('flash')), rng.permutation(self.n('group')),
                    rng.permutation(self.n('event')))
        return self

    def copy(self):
        out = L2()
        for k, v in vars(self).items():
            setattr(out, k, v.copy() if isinstance(v, np.ndarray) else v)
        return out

    # -- decoded reference values --------------------------------------
    def scale(self, v):
        return float(np.float32(v)) if self.attr_f4 else float(v)

    @property
    def lon_offset(self):
        return self.nadir - FOV_HALF

    @property
    def event_lat(self):
        return self.event_lat_raw * self.scale(LATLON_SCALE) + self.scale(-FOV_HALF)

    @property
    def event_lon(self):
        return self.event_lon_raw * self.scale(LATLON_SCALE) + self.scale(self.lon_offset)

    def energy_J(self, level):
        raw = getattr(self, level + '_energy_raw')
        e = raw * self.scale(self.e_pack[level][0]) + self.scale(self.e_pack[level][1])
        return np.where(raw == FILL, np.nan, e)

    def area_unit(self, level):
        return (self.group_area_units if level == 'group' else None) or self.area_units

    def area(self, level):
        """In the units of the file; fill is nan."""
        raw = getattr(self, level + '_area_raw')
        k = 1e6 if self.area_unit(level) == 'm2' else 1.0
        a = raw * self.scale(self.a_pack[level][0] * k) + self.scale(self.a_pack[level][1] * k)
        return np.where(raw == FILL, np.nan, a)

    def area_km2(self, level, overflow=True):
        k = 1e6 if self.area_unit(level) == 'm2' else 1.0
        a = self.area(level) / k
        if overflow:
            amax = (FILL * self.scale(self.a_pack[level][0] * k) + self.scale(self.a_pack[level][1] * k)) / k
            a = np.where(np.isnan(a), amax, a)
        return a

    def energy_nJ(self, level, zero_fix=True):
        e = self.energy_J(level)
        if level == 'event' and zero_fix:
            raw = self.event_energy_raw
            e = np.where(raw < 1, 0.5 * (self.scale(self.e_pack[level][0]) + self.scale(self.e_pack[level][1])), e)
        return e * 1e9

    def times(self, raw):
        """raw 16-bit integers (0..65535 content) to datetime64, honouring the sign convention."""
        v = np.asarray(raw, dtype='i8')
        if not self.unsigned_time:
            v = np.where(v >= 32768, v - 65536, v)
        ms = v * self.scale(self.time_scale) + self.scale(self.time_add)
        return (np.datetime64(self.start, 'ns') + np.round(ms * 1e6).astype('m8[ns]'))

    # -- relations -------------------------------------------------------
    def relations(self):
        """event -> group row, group -> flash row (-1 when absent)."""
        fi = {int(i): k for k, i in enumerate(self.flash_id)}
        gi = {int(i): k for k, i in enumerate(self.group_id)}
        g2f = np.array([fi.get(int(p), -1) for p in self.group_parent_flash_id], dtype=int)
        e2g = np.array([gi.get(int(p), -1) for p in self.event_parent_group_id], dtype=int)
        return g2f, e2g

    # -- writing -----------------------------------------------------------
    def write(self, path):
        nc = netCDF4.Dataset(path, 'w')
        nc.set_auto_maskandscale(False)
        for level, dim in LEVELS:
            nc.createDimension(dim, self.n(level))
        for d in ('number_of_time_bounds', 'number_of_field_of_view_bounds',
                  'number_of_wavelength_bounds'):
            nc.createDimension(d, 2)
        f = np.float32 if self.attr_f4 else np.float64

        def var(name, dtype, dims, data, fill=None, **attrs):
            v = nc.createVariable(name, dtype, dims, fill_value=fill)
            v.set_auto_maskandscale(False)
            for k, a in attrs.items():
                v.setncattr(k, a)
            if dims == () or np.size(data):
                v[...] = data
            return v

        def packed(name, dim, raw, scale, offset, units, fill=True, unsigned=True, coords=None):
            a = {}
            if unsigned:
                a['_Unsigned'] = 'true'
            a['scale_factor'] = f(scale)
            a['add_offset'] = f(offset)
            a['units'] = units
            if coords:
                a['coordinates'] = coords
            var(name, 'i2', (dim,), np.asarray(raw).astype('u2').view('i2'),
                fill=np.int16(-1) if fill else None, **a)

        evc = 'event_parent_group_id event_id lightning_wavelength event_time_offset event_lat event_lon'
        grc = ('group_parent_flash_id event_parent_group_id group_id lightning_wavelength '
               'group_time_threshold group_time_offset group_lat group_lon')
        flc = ('group_parent_flash_id flash_id lightning_wavelength flash_time_threshold '
               'flash_time_offset_of_first_event flash_time_offset_of_last_event flash_lat flash_lon')
        tu = 'milliseconds since ' + self.start.strftime('%Y-%m-%d %H:%M:%S.') + \
            '%03d' % (self.start.microsecond // 1000)
        ed, gd, fd = 'number_of_events', 'number_of_groups', 'number_of_flashes'
        kf, kg = (1e6 if self.area_unit(level) == 'm2' else 1.0 for level in ('flash', 'group'))

        def ids(name, dt, dim, data):
            u = 'u' + dt[1]
            var(name, dt, (dim,), np.asarray(data).astype(u).view(dt),
                _Unsigned='true', units='1')

        def time(name, dim, raw):
            a = dict(scale_factor=f(self.time_scale), add_offset=f(self.time_add), units=tu)
            if self.mark_unsigned_time:
                a['_Unsigned'] = 'true'
            var(name, 'i2', (dim,), np.asarray(raw).astype('u2').view('i2'), **a)

        ids('event_id', 'i4', ed, self.event_id)
        time('event_time_offset', ed, self.event_time_raw)
        packed('event_lat', ed, self.event_lat_raw, LATLON_SCALE, -FOV_HALF, 'degrees_north', fill=False)
        packed('event_lon', ed, self.event_lon_raw, LATLON_SCALE, self.lon_offset, 'degrees_east', fill=False)
        packed('event_energy', ed, self.event_energy_raw, self.e_pack['event'][0], self.e_pack['event'][1], self.e_units['event'], coords=evc)
        ids('event_parent_group_id', 'i4', ed, self.event_parent_group_id)
        ids('group_id', 'i4', gd, self.group_id)
        time('group_time_offset', gd, self.group_time_raw)
        var('group_lat', 'f4', (gd,), self.group_lat, units='degrees_north')
        var('group_lon', 'f4', (gd,), self.group_lon, units='degrees_east')
        packed('group_area', gd, self.group_area_raw, self.a_pack['group'][0] * kg, self.a_pack['group'][1] * kg, self.area_unit('group'), coords=grc)
        packed('group_energy', gd, self.group_energy_raw, self.e_pack['group'][0], self.e_pack['group'][1], self.e_units['group'], coords=grc)
        ids('group_parent_flash_id', 'i2', gd, self.group_parent_flash_id)
        ids('flash_id', 'i2', fd, self.flash_id)
        time('flash_time_offset_of_first_event', fd, self.flash_first_raw)
        time('flash_time_offset_of_last_event', fd, self.flash_last_raw)
        var('flash_lat', 'f4', (fd,), self.flash_lat, units='degrees_north')
        var('flash_lon', 'f4', (fd,), self.flash_lon, units='degrees_east')
        packed('flash_area', fd, self.flash_area_raw, self.a_pack['flash'][0] * kf, self.a_pack['flash'][1] * kf, self.area_units, coords=flc)
        packed('flash_energy', fd, self.flash_energy_raw, self.e_pack['flash'][0], self.e_pack['flash'][1], self.e_units['flash'], coords=flc)
        var('flash_quality_flag', 'i2', (fd,), self.flash_quality, fill=np.int16(-1),
            _Unsigned='true', units='1')
        if self.extra_frame_times:
            time('group_frame_time_offset', gd, self.group_frame_raw)
            time('flash_frame_time_offset_of_first_event', fd, self.flash_frame_first_raw)
            time('flash_frame_time_offset_of_last_event', fd, self.flash_frame_last_raw)

        t0 = (self.start - EPOCH).total_seconds()
        var('product_time', 'f8', (), t0 + self.product_time_offset, long_name='product time',
            units='seconds since 2000-01-01 12:00:00', bounds='product_time_bounds')
        var('product_time_bounds', 'f8', ('number_of_time_bounds',), [t0, t0 + self.seconds],
            long_name='bounds')
        var('lightning_wavelength', 'f4', (), 777.37, units='nm')
        var('group_time_threshold', 'f4', (), 0.0, units='s')
        var('flash_time_threshold', 'f4', (), 3.33, units='s')
        var('lat_field_of_view', 'f4', (), 0.0, units='degrees_north')
        var('lon_field_of_view', 'f4', (), self.nadir, units='degrees_east')
        var('lon_field_of_view_bounds', 'f4', ('number_of_field_of_view_bounds',),
            [self.nadir - FOV_HALF, self.nadir + FOV_HALF])
        var('event_count', 'i4', (), self.n('event'), units='count')
        name = 'OR_GLM-L2-LCFA_%s_s%s0_e%s0_c%s0.nc' % (
            self.platform, self.start.strftime('%Y%j%H%M%S'),
            (self.start + timedelta(seconds=self.seconds)).strftime('%Y%j%H%M%S'),
            (self.start + timedelta(seconds=self.seconds + 3)).strftime('%Y%j%H%M%S'))
        for a, v in dict(dataset_name=name, orbital_slot=self.slot, platform_ID=self.platform,
                         instrument_ID=self.instrument, production_site='RBU',
                         time_coverage_start=self.start.isoformat() + 'Z',
                         title='GLM L2 Lightning Detections: Events, Groups, and Flashes').items():
            nc.setncattr(a, v)
        nc.close()
        return path

    mark_unsigned_time = False


def counts(rng, n, style):
    """Number of children for each of n parents, at least one each."""
    if style == 'one':
        return np.ones(n, dtype=int)
    if style == 'few':
        return rng.integers(1, 5, size=n)
    if style == 'skewed':
        c = np.ones(n, dtype=int)
        if n:
            k = int(rng.integers(n))
            c[k] = int(rng.integers(20, 200))
            if c[k] > 185:
                # next to the range of a byte
                c[k] = 255 + c[k] % 3
        return c
    if style == 'huge':
        c = np.ones(n, dtype=int)
        if n:
            c[int(rng.integers(n))] = int(rng.integers(1500, 3000))
        return c
    if style == 'crowd':
        c = np.ones(n, dtype=int)
        if n:
            c[int(rng.integers(n))] = int(rng.integers(66000, 70000))
        return c
    return np.maximum(1, rng.geometric(0.3, size=n))


def newer_times(f):
    """The same times, to within a step, in the packing of files since late 2018: 0.38 ms steps from 5 s before the start."""
    for name in ('event_time_raw', 'group_time_raw', 'flash_first_raw', 'flash_last_raw', 'group_frame_raw',
                 'flash_frame_first_raw', 'flash_frame_last_raw'):
        v = np.round((getattr(f, name) * 2.0 + 5000.0) / 0.3814756).astype('i8')
        setattr(f, name, v)
    f.time_scale, f.time_add = 0.3814756, -5000.0
    f.mark_unsigned_time = f.unsigned_time = True
    f.style['times'] = 'newer packing'
    return f


def make_file(rng, n_flashes=None, group_style=None, event_style=None, id_style=None,
              order=None, fov='inside', nadir=None, pixels=True, start=None, box=None,
              area_units=None, energy='mixed', area='mixed'):
    """A consistent random file.  box: (dlon0, dlon1, lat0, lat1) limits for flash centres."""
    f = L2()
    if n_flashes is None:
        n_flashes = int(rng.choice([1, 2, 3, 5, 9, 17, 40]))
    styles = ['one', 'few', 'geometric', 'skewed']
    group_style = group_style or str(rng.choice(styles))
    event_style = event_style or str(rng.choice(styles))
    order = order or str(rng.choice(['file', 'permuted']))
    f.nadir = float(np.float32(nadir if nadir is not None else rng.choice([-75.0, -137.0, -75.2, -89.5])))
    if start is not None:
        f.start = start
    else:
        f.start = datetime(2017, 1, 1) + timedelta(seconds=20 * int(rng.integers(0, 5000000)))
        if datetime(2018, 10, 14) < f.start < datetime(2018, 11, 7):
            f.start = datetime(2018, 9, 1, 12)
    f.area_units = area_units or str(rng.choice(['km2', 'km2', 'm2']))
    f.attr_f4 = bool(rng.integers(2))

    # one packing for all levels in older files, one for each in newer ones
    if rng.random() < .5:
        f.e_pack = dict(flash=(3.05e-15, 0.0), group=(2.2e-16, 2.8515e-16), event=(1.9024e-17, 2.8515e-16))
        if rng.random() < .5:
            f.e_pack['event'] = (1.9024e-15, 0.25 * 1.9024e-15)
        f.a_pack = dict(flash=(A_SCALE, A_OFF), group=(A_SCALE / 2, A_OFF / 4))
    ng = counts(rng, n_flashes, group_style)
    g2f = np.repeat(np.arange(n_flashes), ng)
    ne = counts(rng, len(g2f), event_style)
    e2g = np.repeat(np.arange(len(g2f)), ne)
    nf, ngt, net = n_flashes, len(g2f), len(e2g)

    def style():
        return id_style or str(rng.choice(['small', 'sequential', 'sparse', 'high', 'wrapping']))
    f.flash_id = make_ids(rng, nf, ID_MAX['flash'], style())
    f.group_id = make_ids(rng, ngt, ID_MAX['group'], style())
    f.event_id = make_ids(rng, net, ID_MAX['event'], style())
    if nf:
        f.group_parent_flash_id = f.flash_id[g2f]
        f.event_parent_group_id = f.group_id[e2g]
    else:
        f.group_parent_flash_id = np.zeros(0, dtype=int)
        f.event_parent_group_id = np.zeros(0, dtype=int)

    # Positions: each flash sits on its own small lattice of pixels.
    if box is None:
        r = rng.uniform(0, 48, nf) if fov == 'inside' else rng.uniform(0, 60, nf)
        th = rng.uniform(0, 2 * np.pi, nf)
        clon, clat = r * np.cos(th), r * np.sin(th)
    else:
        clon, clat = rng.uniform(box[0], box[1], nf), rng.uniform(box[2], box[3], nf)
    raw0_lon = np.round((clon + FOV_HALF) / LATLON_SCALE).astype(int)
    raw0_lat = np.round((clat + FOV_HALF) / LATLON_SCALE).astype(int)
    e2f = g2f[e2g] if nf else np.zeros(0, dtype=int)
    step = int(rng.choice([38, 45, 60]))     # about 0.08 to 0.12 degrees
    half = int(rng.choice([1, 2, 4]))
    px = rng.integers(-half, half + 1, size=net)
    py = rng.integers(-half, half + 1, size=net)
    jit = int(rng.choice([0, 0, 1, 20]))
    jx = rng.integers(-jit, jit + 1, size=net)
    jy = rng.integers(-jit, jit + 1, size=net)
    if not pixels:
        px = rng.uniform(-3, 3, size=net)
        py = rng.uniform(-3, 3, size=net)
    f.event_lon_raw = np.clip((raw0_lon[e2f] + px * step).astype(int) + jx, 0, 65535)
    f.event_lat_raw = np.clip((raw0_lat[e2f] + py * step).astype(int) + jy, 0, 65535)
    if fov == 'spill' and net:
        # some events far outside the corner table
        k = rng.random(net) < 0.3
        f.event_lon_raw = np.where(k, rng.choice([0, 1200, 64000, 65535], size=net), f.event_lon_raw)

    def energies(n):
        if energy == 'mixed':
            e = rng.integers(0, 400, size=n)
            k = rng.random(n)
            e = np.where(k < .1, 0, e)
            e = np.where((k > .1) & (k < .2), 1, e)
            e = np.where((k > .2) & (k < .25), 2, e)
            e = np.where((k > .25) & (k < .3), rng.integers(32000, 33500, size=n), e)
            e = np.where((k > .3) & (k < .33), 65534, e)
            return e
        return rng.integers(2, 400, size=n)

    def areas(n):
        a = rng.integers(0, 20000, size=n)
        if area == 'mixed':
            k = rng.random(n)
            a = np.where(k < .06, 0, a)
            a = np.where((k > .06) & (k < .12), 65534, a)
            a = np.where((k > .12) & (k < .2), FILL, a)
            a = np.where((k > .2) & (k < .25), rng.integers(32760, 32780, size=n), a)
        return a
    f.event_energy_raw = energies(net)
    f.group_energy_raw = energies(ngt)
    f.flash_energy_raw = energies(nf)
    f.group_area_raw = areas(ngt)
    f.flash_area_raw = areas(nf)
    f.flash_quality = rng.choice([0, 1, 3, 5], size=nf)

    # Times, in units of two milliseconds within the file.
    t_f = rng.integers(0, 9000, size=nf)
    dur = rng.integers(0, 900, size=nf)
    f.flash_first_raw = t_f
    f.flash_last_raw = t_f + dur
    f.group_time_raw = t_f[g2f] + rng.integers(0, 900, size=ngt) if nf else np.zeros(0, int)
    f.event_time_raw = f.group_time_raw[e2g] if nf else np.zeros(0, int)
    if rng.random() < .5:
        f.event_time_raw = f.event_time_raw + rng.integers(0, 2, size=net)
    f.group_frame_raw = f.group_time_raw
    f.flash_frame_first_raw, f.flash_frame_last_raw = f.flash_first_raw, f.flash_last_raw

    # Centroids as energy-blind means of the events.
    ev_lon = f.event_lon_raw * LATLON_SCALE + f.lon_offset
    ev_lat = f.event_lat_raw * LATLON_SCALE - FOV_HALF

    def mean(vals, idx, n):
        return (np.bincount(idx, vals, n) / np.maximum(1, np.bincount(idx, minlength=n))).astype('f4')
    f.group_lon, f.group_lat = mean(ev_lon, e2g, ngt), mean(ev_lat, e2g, ngt)
    f.flash_lon, f.flash_lat = mean(ev_lon, e2f, nf), mean(ev_lat, e2f, nf)
    if order == 'permuted':
        f.permute(rng)
    f.style = dict(n_flashes=nf, n_groups=ngt, n_events=net, groups=group_style, events=event_style,
                   order=order, nadir=f.nadir, start=str(f.start), units=f.area_units)
    return f
