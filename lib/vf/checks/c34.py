"""Plots of gridded fields show the fields in place."""
import re

import numpy as np
import pandas as pd
import xarray as xr

from ..trees import same_dataset

PROPERTY = 'C34'
RULE = ('one evaluation per plot; distinct non-trivial when several fields are drawn from several frames with some '
        'values missing; distinct by values')
ASSUMPTIONS = ['map lines need downloaded data and are replaced by none',
               'placement is decided to within half a grid cell']
FIELDS = ['flash_extent_density', 'flash_centroid_density', 'group_extent_density', 'group_centroid_density',
          'total_energy', 'average_flash_area', 'average_group_area', 'minimum_flash_area', 'event_density']


def dataset(rng):
    from glmtools.io.imagery import get_goes_imager_proj
    ny, nx, nt = int(rng.integers(2, 14)), int(rng.integers(2, 14)), int(rng.integers(1, 4))
    nadir = float(rng.choice([-75., -137., -89.5]))
    dx = float(rng.choice([56e-6, 280e-6, 14e-6]))
    x = np.arange(nx) * dx + rng.uniform(-.1, .1)
    y = (np.arange(ny) * dx + rng.uniform(-.1, .1))[::-1]
    t = pd.Timestamp('2019-05-04T03:02:00') + pd.to_timedelta(int(rng.choice([0, 20, 35, 86159])), unit='s') + pd.to_timedelta(np.arange(nt) * 60, unit='s')
    v = {}
    for name in FIELDS:
        a = 10 ** rng.uniform(-9 if name == 'total_energy' else -3, rng.choice([3, 3, 6]), (nt, ny, nx))
        a = np.where(rng.random(a.shape) < rng.choice([0, .4, .9]), np.nan, a)
        if rng.random() < .1:
            a[int(rng.integers(nt))] = np.nan
        v[name] = (('time', 'y', 'x'), a.astype('f4'))
    ds = xr.Dataset(v, coords=dict(time=t, x=x, y=y))
    ds['goes_imager_projection'] = get_goes_imager_proj(nadir)
    return ds, nadir, dx


def draw(case, fig, ds, nadir, dx, t, fields, shape):
    import cartopy.crs as ccrs
    from cartopy.mpl.geoaxes import GeoAxes
    from glmtools.plot.grid import plot_glm_grid
    from pyproj import CRS, Transformer
    h = 35786023.
    case.begin('plotting grids')
    out = plot_glm_grid(fig, ds, t, fields, subplots=shape)
    axes, bars = out
    case.check(len(axes) == len(fields), 'one panel for each field', got=len(axes), want=len(fields))
    case.check(len(bars) == len(fields), 'one colour bar for each field', got=len(bars))
    maps = [a for a in fig.axes if isinstance(a, GeoAxes)]
    case.check(len(maps) == len(fields), 'one panel for each field', why='figure')
    x, y = ds.x.data * h, ds.y.data * h
    lon, lat = ds.x.data.mean(), ds.y.data.mean()
    geos = CRS.from_dict(dict(proj='geos', h=h, lon_0=nadir, sweep='x', a=6378137.0, b=6356752.31414))
    to = Transformer.from_crs(CRS.from_dict(dict(proj='longlat', a=6378137.0, b=6356752.31414)), geos, always_xy=True)
    for ax, bar, name in zip(axes, bars, fields):
        ims = ax.get_images()
        case.check(len(ims) == 1, 'one image in a panel', n=len(ims))
        im = ims[0]
        want = ds[name].sel(time=t).data.astype('f8')
        want = np.where(np.isnan(want), 0, want)
        got = np.ma.filled(np.ma.asarray(im.get_array(), dtype='f8'), 0)
        case.check(got.shape == want.shape, 'the values of the field', why='shape')
        # where each stored value is drawn
        l, r, b, top = im.get_extent()
        ny, nx = got.shape
        px = l + (np.arange(nx) + .5) * (r - l) / nx
        py = b + (np.arange(ny) + .5) * (top - b) / ny
        if im.origin == 'upper':
            py = py[::-1]
        case.close(px, x, 'drawn at its place east-west', rtol=0, atol=.51 * dx * h, field=name)
        case.close(py, y, 'drawn at its place north-south', rtol=0, atol=.51 * dx * h, field=name)
        case.close(got, want, 'the values of the field', rtol=1e-6, atol=0, field=name)
        case.check(im.norm.vmin is not None and 0 < im.norm.vmin < im.norm.vmax, 'a scale of colours')
        case.check(bar.mappable is im, 'the colour bar of a panel is that of its image', field=name)
        lim = sorted(ax.get_xlim()) + sorted(ax.get_ylim())
        case.close(lim, [x.min(), x.max(), y.min(), y.max()], 'panels show the extent of the grid', rtol=0,
                   atol=.51 * dx * h)
        case.check(ax.get_xlim()[0] < ax.get_xlim()[1] and ax.get_ylim()[0] < ax.get_ylim()[1], 'east is to the right and north is up')
        text = '\n'.join(v.get_text() for v in ax.texts)
        case.check(t.isoformat().replace('T', ' ') in text, 'labelled with the time', text=text)
        case.check(name.replace('_', ' ') in text.lower(), 'labelled with the field', text=text)
        top = re.search(r'max\s+([-+.\deE]+)', text)
        case.check(top is not None, 'labelled with the maximum', text=text)
        tol = .051 * want.max() if name == 'total_energy' else .5 + 1e-4 * want.max()
        case.check(abs(float(top.group(1)) - want.max()) <= tol, 'labelled with the maximum', text=text, want=want.max())
        # positions on the map are where the fixed grid has them
        q = nadir + case.rng.uniform(-50, 50), case.rng.uniform(-50, 50)
        p = ax.projection.transform_point(q[0], q[1], ccrs.Geodetic(globe=ax.projection.globe))
        case.close(p, to.transform(*q), 'map positions agree with the fixed grid', rtol=1e-9, atol=1., at=q)
    labels = [v.get_text().strip() for a in axes for v in a.texts if len(v.get_text().strip()) == 1]
    case.check(len(labels) == len(fields) == len(set(labels)), 'panels are lettered differently', labels=labels)
    a0 = axes[int(case.rng.integers(len(axes)))]
    a0.set_xlim(x.min() - 5., x.min() + 7.)
    a0.set_ylim(y.min() - 3., y.min() + 9.)
    for ax in axes:
        case.close(ax.get_xlim() + ax.get_ylim(), a0.get_xlim() + a0.get_ylim(), 'panels move together', rtol=0, atol=1e-6)


def grids(case):
    import matplotlib.pyplot as plt
    import cartopy.feature
    from glmtools.plot.grid import plot_glm_grid
    # the outlines come from the network
    cartopy.feature.NaturalEarthFeature.geometries = lambda self: iter(())
    cartopy.feature.NaturalEarthFeature.intersecting_geometries = lambda self, extent: iter(())
    rng = case.rng
    ds, nadir, dx = dataset(rng)
    shape = [(1, 1), (1, 2), (2, 2), (2, 3), (2, 4), (3, 3)][int(rng.integers(6))]
    n = shape[0] * shape[1] if rng.random() < .5 else int(rng.integers(1, shape[0] * shape[1] + 1))
    keep = ds.copy(deep=True)
    fig = plt.figure()
    case.describe(sizes=dict(ds.sizes), panels=shape, fields=n, nadir=nadir)
    try:
        for turn in range(int(rng.integers(1, 3))):
            fields = [FIELDS[i] for i in rng.permutation(len(FIELDS))[:n]]
            t = pd.Timestamp(ds.time.data[int(rng.integers(ds.sizes['time']))])
            draw(case, fig, ds, nadir, dx, t, fields, shape)
            same_dataset(case, ds, keep, 'the data set is left as it was')
        if rng.random() < .3:
            # nothing can be shown for a time without a frame
            case.begin('plotting a time without a frame')
            off = pd.Timestamp(ds.time.data[int(rng.integers(ds.sizes['time']))]) + pd.to_timedelta(int(rng.choice([-1, 1, 20, 86400])), unit='s')
            try:
                plot_glm_grid(fig, ds, off, fields, subplots=shape)
                drawn = True
            except Exception:
                drawn = False
            case.count('input: times without a frame')
            case.check(not drawn, 'a time without a frame is refused', asked=str(off), frames=[str(v) for v in ds.time.data])
    finally:
        plt.close('all')
    if n > 1 and ds.sizes['time'] > 1:
        case.nontrivial(ds[fields[0]].data.tolist())


SCENARIOS = [('grids', grids, 40, 250)]
REQUIRED = {'the values of the field': (100, 600), 'map positions agree with the fixed grid': (50, 300),
            'panels move together': (50, 300)}
