"""Tiles of a subdivided grid against the undivided grid."""
import os
from datetime import datetime, timedelta

import numpy as np
import xarray as xr

from vf import gen, images

PROPERTY = 'C23'
RULE = ('one evaluation per subdivision of a domain; distinct non-trivial when there are at least four '
        'tiles; distinct by domain, spacing and number of tiles')
ASSUMPTIONS = ['the domain is a whole number of cells and has at least two cells per tile along each axis']


def domain(rng):
    dx = float(rng.choice([14e-6, 28e-6, 56e-6, 56e-6, 112e-6, 280e-6]))
    dy = dx if rng.random() < .7 else float(rng.choice([28e-6, 56e-6, 112e-6]))
    s = int(rng.choice([1, 2, 3, 4, 5, 8, 8, int(rng.integers(9, 15))]))
    nx, ny = (int(v) for v in rng.integers(2 * s, 12 * s + 9, 2))
    if rng.random() < .3:
        nx, ny = nx // s * s, ny // s * s
    x0, y0 = (float(v) for v in rng.uniform(-.12, .08, 2))
    xb, yb = (x0, x0 + nx * dx), (y0, y0 + ny * dy)
    if rng.random() < .5:
        xb, yb = np.asarray(xb), np.asarray(yb)
    return dx, dy, s, nx, ny, xb, yb


def tiles(case):
    from glmtools.grid.make_grids import subdivided_fixed_grid
    rng = case.rng
    dx, dy, s, nx, ny, xb, yb = domain(rng)
    kw = dict(dx=dx, dy=dy, x_bnd=xb, y_bnd=yb, proj_name='geos', frame_interval=60., do_3d=False)
    pk = dict(nadir_lon=float(rng.choice([-75., -137.2])), fixed_grid=True, clip_events=True, ellipse_rev=-1,
              min_points_per_flash=int(rng.integers(1, 5)))
    ok = dict(output_filename_prefix='GLM', output_writer=None, outpath='somewhere/{dataset_name}',
              output_kwargs=dict(scale_and_offset=False))
    calls = []
    if rng.random() < .5:
        ok['output_writer'] = lambda *a, **k: calls.append((a, k))
        ok['output_filename_prefix'] = str(rng.choice(['GLM', 'a-b', '']))
    opt = {}
    if rng.random() < .5:
        opt = dict(x_pad=float(rng.choice([0., 3.2, 10., 40.])) * dx, y_pad=float(rng.choice([0., 2.7, 20.])) * dy)
    case.describe(dx=dx, dy=dy, s=s, n=(nx, ny), x=list(map(float, xb)), y=list(map(float, yb)), **opt)
    keep = [np.array(v, float) for v in (xb, yb)]
    case.begin('subdividing')
    got = list(subdivided_fixed_grid(kw, pk, ok, s=s, **opt)) if s > 1 or rng.random() < .5 else \
        list(subdivided_fixed_grid(kw, pk, ok, **opt))
    case.check(len(got) == s * s and sorted(t[0] for t in got) == [(i, j) for i in range(s) for j in range(s)],
               's by s tiles', got=[t[0] for t in got][:6])
    case.check(all(np.array_equal(a, b) for a, b in zip(keep, (kw['x_bnd'], kw['y_bnd']))), 'the domain is not altered')
    tol = (1e-6 * dx, 1e-6 * dy)
    wantpad = [opt.get(k, 100 * 28e-6) for k in ('x_pad', 'y_pad')]
    strips = ({}, {})
    last = tuple(int(v) for v in rng.integers(0, s, 2))
    for (i, j), k, p, o, pads in got:
        npx, npy, px, py = pads
        case.check(npx == int(npx) and npy == int(npy) and npx >= 0 and npy >= 0, 'padding is a whole number of cells')
        case.check(abs(px - npx * dx) < tol[0] and abs(py - npy * dy) < tol[1], 'padding width is its cells')
        # at most the padding asked for, and not a whole cell less
        for n, d, w in ((npx, dx, wantpad[0]), (npy, dy, wantpad[1])):
            case.check(w - d * (1 + 1e-6) <= n * d <= w + d * 1e-6, 'padding is the width asked for', got=n * d, want=w)
        for b, wnd in ((k['x_bnd'], p['x_bnd']), (k['y_bnd'], p['y_bnd'])):
            case.check(np.array_equal(np.asarray(b, float), np.asarray(wnd, float)), 'the search window is the padded tile',
                       tile=list(b), window=list(wnd))
        for axis, (b, n, d) in enumerate(((k['x_bnd'], npx, dx), (k['y_bnd'], npy, dy))):
            strips[axis].setdefault((i, j)[axis], []).append((float(b[0]) + n * d, float(b[1]) - n * d))
        for name in kw:
            if name not in ('x_bnd', 'y_bnd'):
                case.check(k.get(name) == kw[name], 'grid options reach the tile', option=name)
        for name in pk:
            case.check(p.get(name) == pk[name], 'selection options reach the tile', option=name)
        case.check(p.get('lon_bnd') is None and p.get('lat_bnd') is None, 'no other window limits the selection')
        for name in ('outpath', 'output_kwargs'):
            case.check(o.get(name) == ok[name], 'output options reach the tile', option=name)
        case.check(o['output_filename_prefix'] == '%s-%02d-%02d' % (ok['output_filename_prefix'], i, j),
                   'files are named by the tile', got=o['output_filename_prefix'], tile=(i, j))
        if ok['output_writer'] and (i, j) == last:
            # what a gridder passes to the writer of the tile reaches the one given, without the padding
            xx, yy = np.arange(3 + 2 * npx), np.arange(4 + 2 * npy)
            o['output_writer']('a.nc', 1, 2, xx, yy, 5, 6, 7, 8, xx[:, None] + 1000. * yy, 10)
            names = o['preprocess_out'].write_all()
            case.check(list(names) == ['a.nc'] and len(calls) == 1, 'the writer given is used', got=len(calls))
            case.equal(calls[0][0][9], (npx + np.arange(3))[:, None] + 1000. * (npy + np.arange(4)), 'the writer receives the tile without padding')
            case.count('input: writer given')
    for axis, (n, d, b) in enumerate(((nx, dx, xb), (ny, dy, yb))):
        spans = []
        for q in range(s):
            v = np.array(strips[axis][q])
            case.check(np.ptp(v, axis=0).max() <= tol[axis], 'rows and columns of tiles line up')
            spans.append(v[0])
        spans = np.array(spans)
        case.check(abs(spans[0, 0] - b[0]) <= tol[axis] and abs(spans[-1, 1] - b[1]) <= tol[axis],
                   'tiles cover the domain', got=spans, want=list(b))
        if s > 1:
            case.check(np.abs(spans[1:, 0] - spans[:-1, 1]).max() <= tol[axis], 'tiles abut', got=spans)
        cells = (spans - b[0]) / d
        case.check(np.abs(cells - np.round(cells)).max() <= 1e-5, 'tile edges are cell edges', cells=cells)
        case.check((np.diff(spans, axis=1) > .5 * d).all(), 'every tile has cells', got=spans)
        size = np.round(np.diff(cells, axis=1))
        case.check(size.sum() == n, 'tiles have the cells of the whole', got=size.sum(), want=n)
        if s > 1:
            case.check(np.ptp(size[:-1]) == 0 and size[-1] >= size[0], 'tiles are of equal size, the last takes the rest',
                       sizes=size.ravel())
    if s > 1:
        case.nontrivial(dx, dy, s, nx, ny, list(map(float, xb)))


def trimming(case):
    """The trimming of padded arrays."""
    from glmtools.grid.make_grids import subdivided_fixed_grid, GridOutputPreprocess
    rng = case.rng
    n = tuple(int(v) for v in rng.integers(1, 9, 2))
    pad = tuple(int(v) for v in rng.choice([0, 1, 2, 7], 2))
    x = np.arange(n[0] + 2 * pad[0]) - pad[0]
    y = np.arange(n[1] + 2 * pad[1]) - pad[1]
    grid = x[:, None] * 1000. + y[None, :]
    case.describe(n=n, pad=pad)
    case.begin('trimming')
    calls = []
    p = GridOutputPreprocess(pads=(pad[0], pad[1], pad[0] * .1, pad[1] * .1), writer=lambda *a, **k: calls.append((a, k)))
    xs, ys = p.get_pad_slices()
    case.equal(x[xs], np.arange(n[0]), 'margins are removed')
    case.equal(y[ys], np.arange(n[1]), 'margins are removed')
    args = ['out%d.nc' % case.index, 1, 2, x, y, 5, 6, 7, 8, grid, 'name', 'more']
    p.capture_write_call(*args, option=3)
    case.check(not calls, 'nothing is written before the end')
    out = p.write_all()
    case.check(list(out) == [args[0]], 'names of the files written', got=out)
    case.check(len(calls) == 1 and calls[0][1] == dict(option=3), 'each call is passed on once with its options')
    a = calls[0][0]
    case.equal(a[3], np.arange(n[0]), 'trimmed coordinates are written')
    case.equal(a[4], np.arange(n[1]), 'trimmed coordinates are written')
    case.equal(a[9], np.arange(n[0])[:, None] * 1000. + np.arange(n[1])[None, :], 'trimmed values are written')
    case.check([a[i] for i in (0, 1, 2, 5, 6, 7, 8, 10, 11)] == [args[i] for i in (0, 1, 2, 5, 6, 7, 8, 10, 11)],
               'other arguments are passed on')
    case.nontrivial('trim', n, pad)


def options(case):
    """Every tile is written as asked."""
    from glmtools.grid.make_grids import subdivided_fixed_grid, proc_each_grid
    from lmatools.grid.fixed import get_GOESR_coordsys
    rng = case.rng
    start = datetime(2019, 5, 3, 4, 10)
    f = gen.make_file(rng, n_flashes=3, nadir=-75.0, start=start, box=(-2., 2., -2., 2.))
    path = case.tmp + '/t%d.nc' % case.index
    f.write(path)
    n, dx = 20, 56e-6
    packed = bool(rng.random() < .5)
    eager = bool(rng.random() < .5)
    case.describe(packed=packed, eager=eager)
    cs, lla = get_GOESR_coordsys(sat_lon_nadir=-75.)
    kw = dict(dx=dx, dy=dx, x_bnd=np.array([-n / 2 * dx, (n / 2) * dx]), y_bnd=np.array([-n / 2 * dx, n / 2 * dx]),
              proj_name='geos', frame_interval=60., do_3d=False, base_date=datetime(2019, 5, 3), ctr_lat=0., ctr_lon=-75.,
              pixel_coords=cs, energy_grids=('total_energy',), spatial_scale_factor=1., event_grid_area_fraction_key='mesh_frac')
    pk = dict(nadir_lon=-75., fixed_grid=True, clip_events=True, ellipse_rev=-1)
    ok = dict(output_filename_prefix='GLM', output_writer=None, outpath='', output_kwargs=dict(scale_and_offset=packed))
    case.begin('writing tiles')
    subs = subdivided_fixed_grid(kw, pk, ok, s=2, x_pad=2 * dx, y_pad=2 * dx)
    if eager:
        subs = list(subs)
    for t in subs:
        t[3]['outpath'] = os.path.join(case.tmp, 'tile%d%d.nc' % t[0])
        proc_each_grid(t, start_time=start, end_time=start + timedelta(seconds=60), GLM_filenames=[path])
    for i in (0, 1):
        for j in (0, 1):
            with xr.open_dataset(os.path.join(case.tmp, 'tile%d%d.nc' % (i, j)), decode_cf=False) as d:
                for name in images.FIELDS:
                    case.check((d[name].dtype.kind == 'i') == packed, 'every tile is written as asked', tile=(i, j),
                               field=name, dtype=str(d[name].dtype), packed=packed)
    case.nontrivial('options', packed, eager, case.index)


SCENARIOS = [('tiles', tiles, 400, 5000), ('trimming', trimming, 200, 2000), ('options', options, 6, 30)]
REQUIRED = {'input: writer given': (100, 1500), 'tiles abut': (400, 5000), 'tiles cover the domain': (600, 8000),
            'every tile is written as asked': (150, 700), 'trimmed values are written': (200, 2000)}
