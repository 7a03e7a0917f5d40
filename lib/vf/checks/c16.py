"""Image files against the grids they were written from."""
import os
from datetime import datetime, timedelta

import numpy as np
import pandas as pd
import xarray as xr

from vf import images
from vf.checks import c29

PROPERTY = 'C16'
RULE = ('one evaluation per image file; distinct non-trivial when it has lightning and missing cells; '
        'distinct by grid placement, frame and values')
ASSUMPTIONS = ['values beyond the range of the packing are stored as the largest value', 'cells of at least 2 km when coordinates '
               'are looked up (the stored coordinates lie on the 2 km lattice)',
               'gridder objects are made with a stand-in for the missing lmatools package']

TEMPLATES = ['{dataset_name}', 'deep/er/{dataset_name}', '{start_time:%Y/%b/%d}/{dataset_name}',
             '{start_time:%Y%j/%H%M%S%f}/{dataset_name}', '{start_time:%H%M%S%f}/{end_time:%H%M%S%f}.nc',
             'a_{start_time:%Y%m%d_%H%M%S}-{end_time:%H%M%S}.nc',
             '{start_time:%Y}/{end_time:%j}/GLM_{start_time:%Y%m%d_%H%M%S%f}.nc']
SCENE = {'FULL': ('F', 'Full Disk'), 'CONUS': ('C', 'CONUS'), 'MESO1': ('M1', 'Mesoscale'), 'OTHER': ('M1', 'Custom')}


def margins(rng, nx, ny):
    a = int(rng.integers(0, max(1, (nx - 2) // 2)))
    b = int(rng.integers(0, max(1, (ny - 2) // 2)))
    return (slice(a, -a) if a else slice(None, None)), (slice(b, -b) if b else slice(None, None)), (a, b)


def stamp(t):
    return t.strftime('%Y%j%H%M%S') + '%d' % (t.microsecond // 100000)


def write(case):
    from glmtools.io.imagery import write_goes_imagery
    from glmtools.io.glm import parse_glm_filename
    rng = case.rng
    dx = float(rng.choice([14e-6, 28e-6, 56e-6, 56e-6, 112e-6, 224e-6, 280e-6]))
    interval = float(rng.choice([60., 60., 20., 300., 3600., .5]))
    # frame edges may fall after midnight
    start = images.start_time(rng)
    if rng.random() < .15:
        start += timedelta(seconds=float(rng.choice([.1, .7, 20.5])))
    if case.index % 9 == 4:
        # the first frame begins before midnight
        start = start.replace(hour=23, minute=59)
    days = int(rng.choice([0, 0, 0, 1, 40]))
    case.count('input: counted from an earlier day', int(days > 0))
    nx, ny = (int(v) for v in rng.integers(5, 16, 2))
    frames = None
    if case.index % 7 == 3:
        # a standard scene with or without its margin
        frames = 1
        dx = 280e-6 if rng.random() < .7 else 224e-6
        sx, sy = c29.SPAN['MESO1' if rng.random() < .6 else 'CONUS']
        nx, ny = int(round(sx / dx)) + 1, int(round(sy / dx)) + 1
        u = rng.random()
        if u < .7:
            p, q = (int(v) for v in rng.integers(6, 16, 2))
            nx, ny = nx + 2 * p, ny + 2 * q
            fixed = p, q
        else:
            fixed = (0, 0) if u < .85 else tuple(int(v) for v in rng.integers(6, 16, 2))
    bounds = None
    if frames:
        # the whole grid is on the disk
        i = int(rng.integers(0, 5424 - nx * dx / images.LATTICE))
        j = int(rng.integers(ny * dx / images.LATTICE, 5424))
        bounds = images.lattice(i, 'x') - dx / 2, images.lattice(j, 'y') - dx / 2
    g, x, y, edges, nadir = images.make_gridder(rng, nx=nx, ny=ny, dx=dx, interval=interval, start=start, frames=frames, bounds=bounds,
                                                days=days)
    values = images.fill(rng, g, cover=float(rng.choice([0., .2, .6, 1.], p=[.05, .35, .4, .2])),
                         huge=bool(rng.random() < .2))
    packed = bool(rng.random() < .6)
    xs, ys, cut = margins(rng, len(x), len(y))
    if frames:
        cut = fixed
        xs, ys = (slice(v, -v) if v else slice(None, None) for v in cut)
    template = os.path.join(case.tmp, str(rng.choice(TEMPLATES)))
    case.describe(dx=dx, shape=(len(x), len(y)), frames=len(edges) - 1, interval=interval, start=str(start),
                  packed=packed, margins=cut, template=os.path.basename(template))
    case.begin('writing')
    kw = {}
    if rng.random() < .5 or not packed:
        kw['scale_and_offset'] = packed
    if cut != (0, 0) or rng.random() < .5:
        kw['pad'] = (xs, ys)
    here = os.getcwd()
    bare = rng.random() < .15
    if bare:
        template = '{dataset_name}'
    try:
        if bare:
            os.chdir(case.tmp)
        t0 = datetime.now()
        if rng.random() < .3:
            files = g.write_grids(outpath=template, output_kwargs=dict(kw))
            case.count('input: written by the gridder')
        else:
            files = write_goes_imagery(g, outpath=template, **kw)
        t1 = datetime.now()
        files = [os.path.abspath(f) for f in files]
    finally:
        os.chdir(here)
    case.check(len(files) == len(edges) - 1, 'one file per frame', files=len(files), frames=len(edges) - 1)
    found = sorted(os.path.join(d, f) for d, _, fs in os.walk(case.tmp) for f in fs)
    case.check(found == sorted(files), 'exactly these files are made', found=[os.path.relpath(f, case.tmp) for f in found],
               told=[os.path.relpath(f, case.tmp) for f in files])
    xc, yc = x[xs], y[ys]
    for k, path in enumerate(files):
        case.trial()
        s, e = edges[k], edges[k + 1]
        with xr.open_dataset(path) as d:
            d.load()
        name = d.attrs['dataset_name']
        want = template.format(dataset_name=name, start_time=s, end_time=e)
        case.check(os.path.abspath(os.path.join(case.tmp, want)) == path, 'the path follows the template',
                   got=path, want=want)
        env, prod, plat, ps, pe, pc = parse_glm_filename(name)
        case.check('_s%s_e%s_c' % (stamp(s), stamp(e)) in name, 'the name holds the frame times', name=name,
                   start=str(s), end=str(e))
        case.check(plat == g.first_file_attrs['platform_ID'], 'the name holds the platform', name=name)
        case.check(abs((ps - s).total_seconds()) < .1 and abs((pe - e).total_seconds()) < .1,
                   'the name parses to the frame times', name=name)
        case.check(t0 - timedelta(seconds=2) <= pc <= t1 + timedelta(seconds=2), 'the name holds the creation time')
        for a, t in (('time_coverage_start', s), ('time_coverage_end', e)):
            got = pd.Timestamp(d.attrs[a]).tz_localize(None).to_pydatetime()
            case.check(got == t, 'coverage attributes are the frame edges', attribute=a, got=str(got), want=str(t))
        for a in ('platform_ID', 'orbital_slot', 'instrument_ID'):
            case.check(d.attrs[a] == g.first_file_attrs[a], 'source attributes are passed on', attribute=a)
        scene = c29.scene_of(xc, yc)
        if scene is not None:
            case.check('_GLM-L2-GLM%s-' % SCENE[scene][0] in name and d.attrs['scene_id'] == SCENE[scene][1],
                       'the name and attributes hold the scene', name=name, got=d.attrs['scene_id'], want=scene)
            case.count('input: scene ' + scene)
        case.check(d.attrs['spatial_resolution'] == c29.RES[dx] + ' at nadir', 'the attributes hold the resolution',
                   got=d.attrs['spatial_resolution'], want=dx)
        p = d[d['total_energy'].attrs.get('grid_mapping', 'goes_imager_projection')].attrs
        case.close(p['longitude_of_projection_origin'], nadir, 'the projection is that of the satellite', rtol=0, atol=1e-5)
        case.close(float(d['nominal_satellite_subpoint_lon']), nadir, 'the projection is that of the satellite', rtol=0, atol=1e-4)
        gx, gy = d['x'].values.astype('f8'), d['y'].values.astype('f8')
        case.check(gx.shape == xc.shape and gy.shape == yc.shape, 'coordinates have the trimmed size',
                   got=(gx.shape, gy.shape), want=(xc.shape, yc.shape))
        half = images.LATTICE / 2 + 5e-8
        case.check(np.abs(gx - xc).max() <= half, 'x runs from west to east over the cell centres', got=gx[:3], want=xc[:3])
        case.check(np.abs(gy - yc[::-1]).max() <= half, 'y runs from north to south over the cell centres',
                   got=gy[:3], want=yc[::-1][:3])
        for f in images.FIELDS:
            case.check(f in d, 'every field is in the file', name=f)
            case.check(d[f].dims == ('y', 'x'), 'images are rows of y', name=f, dims=d[f].dims)
            w = images.expected(values, f)[xs, ys, k].T[::-1]
            images.compare(case, d[f].values.astype('f8'), w, f, packed, 'value of the cell at that place and time',
                           frame=k)
        if dx >= images.LATTICE:
            # look values up by coordinate
            for _ in range(4):
                i, j = int(rng.integers(0, len(xc))), int(rng.integers(0, len(yc)))
                f = str(rng.choice(images.FIELDS))
                got = float(d[f].sel(x=xc[i], y=yc[j], method='nearest'))
                w = images.expected(values, f)[xs, ys, k][i, j]
                images.compare(case, np.array([got]), np.array([w]), f, packed, 'value looked up by coordinate')
        v = values['flash_extent_density'][xs, ys, k]
        if (v > 0).any() and (v == 0).any():
            case.nontrivial(dx, k, str(s), v.tolist())


SCENARIOS = [('write', write, 70, 900)]
REQUIRED = {'value of the cell at that place and time': (800, 10000),
            'value looked up by coordinate': (250, 3000), 'input: written by the gridder': (8, 100), 'input: scene MESO1': 1, 'input: scene CONUS': 1, 'input: scene OTHER': 30}
