"""Image metadata."""
import os

import numpy as np
import xarray as xr

from vf import images

PROPERTY = 'C29'
RULE = ('one evaluation per image description; distinct non-trivial when the axes have at least three '
        'cells; distinct by axes and satellite longitude')
ASSUMPTIONS = ['spans and spacings of the standard scenes are those of the GOES-R product guide']

SPAN = {'FULL': (.303744, .303744), 'CONUS': (.14, .084), 'MESO1': (.028, .028)}
WEST = .172732
RES = {14e-6: '0.5km', 28e-6: '1km', 56e-6: '2km', 112e-6: '4km', 224e-6: '8km', 280e-6: '10km'}
PROJ = dict(grid_mapping_name='geostationary', perspective_point_height=35786023., semi_major_axis=6378137.,
            semi_minor_axis=6356752.31414, inverse_flattening=298.2572221, latitude_of_projection_origin=0.,
            sweep_angle_axis='x')


def near(a, b, tol):
    return abs(a - b) <= tol * b


def axes(rng):
    """Cell centres and the scene and resolution they must be given."""
    kind = str(rng.choice(['FULL', 'CONUS', 'MESO1', 'west', 'other', 'near', 'tiny', 'edge']))
    dx = float(rng.choice([56e-6, 56e-6, 112e-6, 224e-6, 280e-6])) if kind in ('FULL', 'CONUS', 'west') else \
        float(rng.choice([56e-6, 28e-6, 14e-6, 112e-6, 224e-6, 280e-6]))
    if kind == 'tiny':
        sx, sy = (float(v) for v in rng.integers(2, 40, 2) * dx)
    elif kind == 'west':
        sx, sy = WEST * rng.uniform(.993, 1.007), float(rng.uniform(.02, .3))
    elif kind == 'other':
        sx, sy = (float(v) for v in rng.uniform(.005, .3, 2))
    else:
        base = SPAN[kind] if kind in SPAN else SPAN[str(rng.choice(list(SPAN)))]
        f = rng.uniform(.993, 1.007, 2)
        if kind == 'edge':
            # just inside or just outside one percent
            f[int(rng.integers(0, 2))] = 1 + rng.choice([-1, 1]) * rng.choice([rng.uniform(.0092, .0097), rng.uniform(.0103, .0108)])
            dx = 28e-6 if base[0] < .1 else 56e-6
        if kind == 'near':
            k = int(rng.integers(0, 2))
            f[k] = rng.uniform(1.013, 1.06) if rng.random() < .5 else rng.uniform(.94, .987)
        sx, sy = base[0] * f[0], base[1] * f[1]
    nx, ny = int(round(sx / dx)) + 1, int(round(sy / dx)) + 1
    x0 = images.lattice(int(rng.integers(0, 400)), 'x')
    y0 = images.lattice(int(rng.integers(0, 400)), 'y')
    x = x0 + dx * np.arange(nx)
    y = y0 - dx * np.arange(ny)
    if rng.random() < .2:
        # cells of another width
        other = float(rng.choice([42e-6, 140e-6, 84e-6]))
        x = x0 + other * np.arange(max(3, int(round(sx / other)) + 1))
        y = y0 - other * np.arange(max(3, int(round(sy / other)) + 1))
        dx = other
    return kind, x, y, dx


def scene_of(x, y):
    """Scene, or None when a span is too close to one percent to call."""
    ex, ey = x.max() - x.min(), y.max() - y.min()
    for name, (wx, wy) in SPAN.items():
        if near(ex, wx, .0098) and near(ey, wy, .0098):
            return name
    if near(ex, WEST, .0098):
        for name, (wx, wy) in SPAN.items():
            if near(ex, wx, .0102) and near(ey, wy, .0102):
                return None
        return 'CONUS'
    for name, (wx, wy) in SPAN.items():
        if near(ex, wx, .0102) and near(ey, wy, .0102):
            return None
    return None if near(ex, WEST, .0102) else 'OTHER'


def describe(case):
    from glmtools.io.imagery import new_goes_imagery_dataset, infer_scene_from_dataset
    rng = case.rng
    kind, x, y, dx = axes(rng)
    lon = float(rng.choice([-75., -137.2, -89.5, -75.2, -137., -75.25, 140.7025, round(rng.uniform(-180, 180), 3)]))
    case.describe(kind=kind, n=(len(x), len(y)), dx=dx, x0=float(x[0]), y0=float(y[0]), lon=lon)
    case.begin('describing')
    keep = x.copy(), y.copy()
    d, scene, res = new_goes_imagery_dataset(x, y, lon)
    case.check(np.array_equal(keep[0], x) and np.array_equal(keep[1], y), 'inputs are not altered')
    want = scene_of(x, y)
    again = infer_scene_from_dataset(x, y)
    case.check(tuple(again) == (scene, res), 'the same answer either way')
    flipped = infer_scene_from_dataset(x, y[::-1])
    mirrored = infer_scene_from_dataset(x[::-1], y)
    case.check(tuple(mirrored) == (scene, res), 'the direction of x does not matter', got=mirrored, want=(scene, res))
    if want is not None:
        case.check(scene == want, 'the scene is recognised from the span', got=scene, want=want,
                   span=(float(np.ptp(x)), float(np.ptp(y))), kind=kind)
        case.check(flipped[0] == want, 'the direction of y does not matter')
        case.count('input: scene ' + want)
    r = [v for k, v in RES.items() if near(dx, k, .005)]
    r = r[0] + ' at nadir' if r else '%dmicroradian at nadir' % round(dx * 1e6)
    case.check(res == r, 'the resolution is that of the spacing', got=res, want=r, dx=dx)
    case.check(d['DQF'].shape == (len(y), len(x)) and d['DQF'].dims == ('y', 'x'), 'quality flags have the image shape')
    case.check(bool((d['DQF'].values == 0).all()), 'quality flags are all valid')
    small = len(x) * len(y) < 400000
    if small:
        path = os.path.join(case.tmp, 'd%d.nc' % case.index)
        d.to_netcdf(path)
        with xr.open_dataset(path) as e:
            e.load()
        with xr.open_dataset(path, decode_cf=False) as rawd:
            rawd.load()
        half = images.LATTICE / 2 + 5e-8    # coordinates are decoded in single precision
        case.check(np.abs(e['x'].values - x).max() <= half, 'stored x decodes to the cell centres', got=e['x'].values[:3], want=x[:3])
        case.check(np.abs(e['y'].values - y).max() <= half, 'stored y decodes to the cell centres', got=e['y'].values[:3], want=y[:3])
        case.check(rawd['x'].dtype == 'i2' and rawd['y'].dtype == 'i2', 'coordinates are stored as short integers')
        crs = rawd['DQF'].attrs.get('grid_mapping')
        case.check(crs in rawd and 'longitude_of_projection_origin' in rawd[crs].attrs,
                   'fields refer to the projection', name='DQF', got=crs)
        case.check(bool((e['DQF'].values == 0).all()) and e['DQF'].shape == (len(y), len(x)), 'stored quality flags are all valid')
        for a, ax in (('x', 'X'), ('y', 'Y')):
            at = e[a].attrs
            case.check(at.get('units') == 'rad' and at.get('axis') == ax and
                       at.get('standard_name') == 'projection_%s_coordinate' % a, 'coordinates are fixed-grid axes', attrs=at)
        p = e['goes_imager_projection'].attrs
        for k, v in PROJ.items():
            case.check(p.get(k) == v, 'projection constants', name=k, got=p.get(k), want=v)
        case.check(p.get('longitude_of_projection_origin') == lon, 'projection longitude', got=p.get('longitude_of_projection_origin'))
        case.close(float(e['nominal_satellite_subpoint_lon']), lon, 'sub-point longitude', rtol=1e-6)
        case.close(float(e['nominal_satellite_subpoint_lat']), 0., 'sub-point latitude', atol=1e-9)
        for n, u in (('lat', 'degrees_north'), ('lon', 'degrees_east')):
            case.check(e['nominal_satellite_subpoint_' + n].attrs.get('units') == u, 'sub-point units')
    if len(x) > 2 and len(y) > 2:
        case.nontrivial(kind, len(x), len(y), dx, float(x[0]), float(y[0]), lon)


def image(case, lon):
    """A field made on its own describes itself as asked and refers to the projection."""
    from glmtools.io.imagery import get_goes_imager_proj, glm_image_to_var
    rng = case.rng
    data = rng.random(tuple(int(v) for v in rng.integers(1, 9, 2))).astype(str(rng.choice(['f4', 'f8'])))
    name, long_name, units = ('%s %d' % (k, rng.integers(0, 99)) for k in ('field', 'What it is', 'unit'))
    v = glm_image_to_var(data, name, long_name, units, ('y', 'x'))
    case.check(v.name == name and v.dims == ('y', 'x') and np.array_equal(v.values, data), 'a field as given')
    case.check(v.attrs.get('long_name') == long_name and v.attrs.get('units') == units,
               'a field is described as asked', got=v.attrs)
    case.check(v.attrs.get('grid_mapping') == get_goes_imager_proj(lon).name, 'fields refer to the projection', got=v.attrs)


def parts(case):
    """The building blocks on their own."""
    from glmtools.io.imagery import (get_goes_imager_proj, get_goes_imager_subpoint_vars,
                                     get_goes_imager_all_valid_dqf, get_goes_imager_fixedgrid_coords)
    rng = case.rng
    i0, j0 = (int(v) for v in rng.integers(0, 5000, 2))
    nx, ny = (int(v) for v in rng.integers(1, 400, 2))
    x = images.lattice(i0 + np.arange(nx), 'x')
    y = images.lattice(j0 + np.arange(ny), 'y')
    if rng.random() < .3:
        y = y[::-1].copy()
    lon = float(np.round(rng.uniform(-180, 180), int(rng.choice([0, 1, 2, 4]))))
    case.describe(i0=i0, j0=j0, n=(nx, ny), lon=lon)
    case.begin('coordinates')
    xv, yv = get_goes_imager_fixedgrid_coords(x, y)
    case.equal(xv.values, x, 'coordinates as given')
    case.equal(yv.values, y, 'coordinates as given')
    path = os.path.join(case.tmp, 'c%d.nc' % case.index)
    # as written by the imagery code: coordinates of one dataset
    ds = xr.Dataset(coords={'x': xv, 'y': yv})
    ds['x'].encoding.update(xv.encoding)
    ds['y'].encoding.update(yv.encoding)
    ds.to_netcdf(path)
    with xr.open_dataset(path) as e:
        case.close(e['x'].values, x, 'lattice positions come back', rtol=0, atol=2e-7)
        case.close(e['y'].values, y, 'lattice positions come back', rtol=0, atol=2e-7)
    p = get_goes_imager_proj(lon)
    for k, v in PROJ.items():
        case.check(p.attrs.get(k) == v, 'projection constants', name=k, got=p.attrs.get(k), want=v)
    case.check(p.attrs['longitude_of_projection_origin'] == lon, 'projection longitude')
    slon, slat = get_goes_imager_subpoint_vars(lon)
    case.check(float(slon) == lon and float(slat) == 0., 'sub-point position', got=(float(slon), float(slat)))
    image(case, lon)
    shape = tuple(int(v) for v in rng.integers(1, 9, 2))
    q = get_goes_imager_all_valid_dqf(('a', 'b'), shape)
    case.check(q.shape == shape and q.dims == ('a', 'b') and bool((q.values == 0).all()), 'quality flags of any shape')
    if nx > 2:
        case.nontrivial('parts', i0, j0, nx, ny, lon)


SCENARIOS = [('describe', describe, 250, 2500), ('parts', parts, 150, 1500)]
REQUIRED = {'the scene is recognised from the span': (200, 2000), 'stored x decodes to the cell centres': (60, 700),
            'input: scene FULL': 10, 'input: scene CONUS': 10, 'input: scene MESO1': 10, 'input: scene OTHER': 10,
            'lattice positions come back': (300, 3000)}
