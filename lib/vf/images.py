"""Gridded results to write as images, and helpers to read them back."""
from datetime import datetime, timedelta

import numpy as np

STEP = {'flash_extent_density': .0625, 'flash_centroid_density': 1., 'average_flash_area': 10.,
        'minimum_flash_area': 10., 'group_extent_density': .25, 'group_centroid_density': 1.,
        'average_group_area': 1., 'total_energy': 1.52597e-6}
FIELDS = ('flash_extent_density', 'flash_centroid_density', 'average_flash_area', 'total_energy',
          'group_extent_density', 'group_centroid_density', 'average_group_area', 'minimum_flash_area')
AVERAGES = {'average_flash_area': 'flash_extent_density', 'average_group_area': 'group_extent_density'}
CODES = {'0.5km': 14e-6, '1km': 28e-6, '2km': 56e-6, '4km': 112e-6, '8km': 224e-6, '10km': 280e-6}
LATTICE = 56e-6


def lattice(i, axis):
    """Cell centre i of the 2 km full-disk lattice."""
    return -.151844 + LATTICE * i if axis == 'x' else .151844 - LATTICE * i


def start_time(rng):
    day = datetime(int(rng.integers(2017, 2026)), 1, 1) + timedelta(days=int(rng.integers(0, 366)))
    if rng.random() < .25:
        day = [datetime(2020, 2, 29), datetime(2019, 12, 31), datetime(2020, 12, 31),
               datetime(2018, 1, 1), datetime(2024, 2, 28)][int(rng.integers(0, 5))]
    return day + timedelta(minutes=int(rng.integers(0, 1440)))


def make_gridder(rng, nx=None, ny=None, dx=56e-6, frames=None, interval=60., start=None, nadir=None,
                 bounds=None, dy=None, days=0):
    """A gridder with empty grids, its cell centres (ascending) and frame edges."""
    from glmtools.grid.make_grids import GLMlutGridder
    from lmatools.grid.fixed import get_GOESR_coordsys
    dy = dx if dy is None else dy
    nx = int(rng.integers(3, 14)) if nx is None else nx
    ny = int(rng.integers(3, 14)) if ny is None else ny
    frames = int(rng.integers(1, 4)) if frames is None else frames
    start = start_time(rng) if start is None else start
    nadir = float(rng.choice([-75., -137.2, -89.5])) if nadir is None else nadir
    if bounds is None:
        # cell edges half a cell from lattice positions
        i, j = (int(v) for v in rng.integers(200, 5000, 2))
        x0, y0 = lattice(i, 'x') - dx / 2, lattice(j, 'y') - dy / 2
    else:
        x0, y0 = bounds
    end = start + timedelta(seconds=interval * frames)
    cs, lla = get_GOESR_coordsys(sat_lon_nadir=nadir)
    # half a cell short, so that rounding in the edge positions cannot add a cell
    g = GLMlutGridder(start, end, do_3d=False, frame_interval=interval, dx=dx, dy=dy,
                      x_bnd=(x0, x0 + (nx - .5) * dx), y_bnd=(y0, y0 + (ny - .5) * dy),
                      ctr_lat=0., ctr_lon=nadir, proj_name='geos', base_date=datetime(
                          start.year, start.month, start.day) - timedelta(days=days), pixel_coords=cs,
                      energy_grids=('total_energy',), event_grid_area_fraction_key='mesh_frac',
                      spatial_scale_factor=1.)
    g.first_file_attrs = dict(platform_ID=str(rng.choice(['G16', 'G17', 'G18'])),
                              orbital_slot=str(rng.choice(['GOES-East', 'GOES-West', 'GOES-Test'])),
                              instrument_ID=str(rng.choice(['GLM-1', 'GLM-2'])))
    x = x0 + (np.arange(nx) + .5) * dx
    y = y0 + (np.arange(ny) + .5) * dy
    edges = [start + timedelta(seconds=interval * k) for k in range(frames + 1)]
    return g, x, y, edges, nadir


def fill(rng, g, cover=.5, top=.98, tiny=.2, huge=False):
    """Random values in the grids. Returns {name: array}, totals for averaged fields."""
    names = list(g.field_names)
    shape = g.outgrids[0].shape
    hit = rng.random(shape) < cover
    out = {}

    def some(step, big):
        v = 10 ** rng.uniform(0, np.log10(big), shape) * step
        v = np.where(rng.random(shape) < tiny, step * 10 ** rng.uniform(-4, .08, shape), v)
        if huge:
            v = np.where(rng.random(shape) < .1, step * 65535 * rng.uniform(.9999, 3, shape), v)
        return v

    whole = rng.random() < .4
    for a, d in AVERAGES.items():
        n = some(STEP[d], 65535 * top)
        if whole:
            # cells covered by whole footprints
            n = np.where(rng.random(shape) < .5, rng.integers(1, 4, shape), n)
        out[d] = np.where(hit, n, 0).astype('f4')
        mean = 10 ** rng.uniform(0, np.log10(min(65535 * STEP[a] * top, 60000)), shape)
        mean = np.where(rng.random(shape) < tiny, STEP[a] * rng.uniform(.01, 1.2, shape), mean)
        out[a] = np.where(hit, mean * out[d], 0).astype('f4')
    out['total_energy'] = np.where(hit, some(STEP['total_energy'], 65535 * top), 0).astype('f4')
    out['minimum_flash_area'] = np.where(hit, some(10., 6000), 0).astype('f4')
    for c in ('flash_centroid_density', 'group_centroid_density'):
        out[c] = np.where(rng.random(shape) < cover / 2, np.round(10 ** rng.uniform(0, 4.7, shape)), 0).astype('f4')
    for n, grid in zip(names, g.outgrids):
        grid[...] = out[n]
    return out


def expected(values, name):
    """Physical value of a field from the accumulated grids, float64, 0 where empty."""
    v = values[name].astype('f8')
    if name in AVERAGES:
        d = values[AVERAGES[name]].astype('f8')
        v = np.where((d > 0) & (v > 0), v / np.where(d > 0, d, 1), 0)
    return v


def compare(case, got, want, name, packed, monitor, **kw):
    """got: decoded image, nan for missing; want: physical values, 0 for empty."""
    case.check(got.shape == want.shape, 'image has the shape of the grid', got=got.shape, want=want.shape, name=name)
    empty = want == 0
    miss = np.isnan(got)
    case.check(not (miss & ~empty).any(), 'lightning never becomes missing', name=name,
               values=want[miss & ~empty][:5], packed=packed, **kw)
    case.check(miss[empty].all(), 'missing never becomes lightning', name=name,
               values=got[empty & ~miss][:5], packed=packed, **kw)
    w = want.copy()
    if packed:
        w = np.clip(w, STEP[name], 65535 * STEP[name])
        tol = .5 * STEP[name] * (1 + 1e-3) + 4e-7 * w
    else:
        tol = 4e-7 * w
    bad = ~empty & ~(np.abs(got - w) <= tol)
    case.check(not bad.any(), monitor, name=name, packed=packed, got=got[bad][:5], want=w[bad][:5], **kw)
