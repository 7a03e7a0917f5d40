"""The gridding command: grid, frames and contents follow from its arguments and the file names."""
import os
import subprocess
import sys
from datetime import timedelta

import glmtools
import numpy as np
import pyproj

from vf import gen, images
from vf.checks import c15

PROPERTY = 'C37'
RULE = ('one evaluation per image; distinct non-trivial when it shows lightning in at least two cells; '
        'distinct by arguments, files and frame')
ASSUMPTIONS = ['base gridder classes and the table of views come from a stand-in for the missing lmatools package',
               'a further row or column that comes from rounding of the bounds is left out',
               'the reference image was packed in 1 km2 steps and without a smallest value']
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(glmtools.__file__)))
NADIR = {'east': -75.0, 'west': -137.2, 'test': -89.5}
CONUS = {'east': (-0.031360, 0.086240), 'west': (0.0, 0.086240), 'test': (-0.005040, 0.084560)}
KM = 28e-6


def command(case, args):
    """Run the command in a directory of its own; its files are left there."""
    cwd = os.path.join(case.tmp, 'run_%d' % case.index)
    os.makedirs(cwd)
    r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(ROOT, 'examples', 'grid', 'make_GLM_grids.py')] + args,
                       cwd=cwd, capture_output=True, text=True, timeout=600)
    case.check(r.returncode == 0, 'the command succeeds', error=r.stderr[-1500:])
    found = []
    for d, _, names in os.walk(cwd):
        found += [os.path.join(d, n) for n in names if n.endswith('.nc')]
    return cwd, sorted(found)


def centre(lon, lat, nadir):
    """Fixed grid position of a place at sea level."""
    t = pyproj.Transformer.from_crs(
        pyproj.CRS.from_dict(dict(proj='longlat', a=6378137.0, b=6356752.31414)),
        pyproj.CRS.from_dict(dict(proj='geos', h=35786023.0, lon_0=nadir, sweep='x', a=6378137.0, b=6356752.31414)), always_xy=True)
    x, y = t.transform(lon, lat)
    return x / 35786023.0, y / 35786023.0


def made_up(case):
    rng = case.rng
    where = str(rng.choice(['east', 'west', 'test']))
    nadir = NADIR[where]
    sector = [None, 'meso', None, 'conus'][case.index % 4]
    interval = float(rng.choice([60., 20., 40.]))
    lat, dlon = float(np.round(rng.uniform(-45, 45), 2)), float(np.round(rng.uniform(-40, 40), 2))
    if sector == 'conus':
        lat, dlon = float(np.round(rng.uniform(22, 40), 2)), float(np.round(rng.uniform(-20, 0), 2))
    km = float(rng.choice([2., 4., 5., 8., 10.])) if sector is None else 10.
    kmy = km
    if sector == 'meso':
        km = kmy = float(rng.choice([10., 8., 4.]))
        nx = ny = int(1000 / km)
    elif sector == 'conus':
        nx, ny = 500, 300
    elif case.index % 3:
        # cells that are not square
        nx, ny = int(rng.integers(20, 120)), int(rng.integers(20, 120))
        kmy = float(rng.choice([2., 4., 5., 8., 10.]))
    else:
        nx, ny = int(rng.integers(20, 120)), int(rng.integers(20, 120))
    clat, clon = np.round(lat + rng.uniform(-.5, .5), 3), np.round(nadir + dlon + rng.uniform(-.5, .5), 3)
    x, y = CONUS[where] if sector == 'conus' else centre(clon, clat, nadir)
    start = images.start_time(rng)
    if 2018.75 < start.year + start.timetuple().tm_yday / 366. < 2018.87:
        start = start.replace(year=2019)
    inputs = []
    for i in sorted(rng.choice(6, int(rng.integers(1, 4)), replace=False)):
        t = start + timedelta(seconds=20 * int(i))
        f = gen.make_file(rng, n_flashes=int(rng.choice([1, 2, 5])), nadir=float(np.float32(nadir)), start=t,
                          box=(dlon - .8, dlon + .8, lat - .8, lat + .8), group_style=str(rng.choice(['one', 'few'])),
                          event_style=str(rng.choice(['one', 'few', 'geometric'])))
        f.event_energy_raw[f.event_energy_raw == 65535] = 5
        stop = t + timedelta(seconds=float(rng.choice([20, 20.4, 19.9])))
        name = 'OR_GLM-L2-LCFA_G16_s%s0_e%s%d_c%s7.nc' % (t.strftime('%Y%j%H%M%S'), stop.strftime('%Y%j%H%M%S'),
                                                          stop.microsecond // 100000, stop.strftime('%Y%j%H%M%S'))
        path = os.path.join(case.tmp, 'l2_%d' % case.index, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        f.write(path)
        inputs.append([f, path, None, None])
    t0, t1 = min(it[0].start for it in inputs), max(it[0].start for it in inputs) + timedelta(seconds=20)
    args = ['--fixed_grid', '--split_events', '--goes_position', where, '--dt', str(interval)]
    if rng.random() < .4:
        t0 = t0 - timedelta(seconds=int(rng.integers(0, 3)) * 20)
        args += ['--start', t0.isoformat()]
    if rng.random() < .4:
        t1 = t1 + timedelta(seconds=int(rng.integers(0, 3)) * 20)
        args += ['--end', t1.isoformat()]
    frames = int(np.ceil((t1 - t0).total_seconds() / interval))
    if sector:
        # the nearest standard resolution is used
        args += ['--goes_sector', sector, '--dx', str(rng.choice({10.: ['10.0', '9.7', '12'], 8.: ['8', '8.3', '7'], 4.: ['4', '3.2', '5.5']}[km])), '--dy', '10.0']
    else:
        args += ['--dx', str(km), '--dy', str(kmy), '--width', str(km * (nx + .5)), '--height', str(kmy * (ny + .5))]
    if sector != 'conus':
        args += ['--ctr_lat=%r' % float(clat), '--ctr_lon=%r' % float(clon)]
    ev = int(rng.integers(1, 5)) if rng.random() < .3 else None
    gr = int(rng.integers(1, 3)) if rng.random() < .3 else None
    args += (['--nevents', str(ev)] if ev else []) + (['--ngroups', str(gr)] if gr else [])
    packed = bool(rng.random() < .5)
    args += [] if packed else ['--float_output']
    rev = [None, None, 0, 1, -1][int(rng.integers(5))]
    if rev is not None:
        args += ['--ellipse=%d' % rev]
    out = [None, '{start_time:%Y/%b/%d}/{dataset_name}', 'img_{start_time:%H%M%S}_{end_time:%H%M%S}.nc'][int(rng.integers(3))]
    args += ['-o', out] if out else []
    args += [it[1] for it in (inputs[i] for i in rng.permutation(len(inputs)))]
    case.describe(args=args, files=[it[0].style for it in inputs])
    case.begin('command')
    cwd, made = command(case, args)
    c15.open_inputs(case, inputs, rev)
    for it in inputs:
        it[3] = int(np.floor((it[0].start - t0).total_seconds() / interval))
    case.check(len(made) == frames, 'one image per frame', made=made, frames=frames)
    d = km * KM, kmy * KM
    xb, yb = (x - nx / 2. * d[0], x + nx / 2. * d[0]), (y - ny / 2. * d[1], y + ny / 2. * d[1])
    want = c15.expected(case, inputs, np.array(xb), np.array(yb), nx, ny, d, frames, interval, t0, ev, gr)
    ims = {}
    for path in made:
        im = c15.read_image(path)
        ims[im.attrs['time_coverage_start'][:19]] = path, im
    for k in range(frames):
        a, b = t0 + timedelta(seconds=k * interval), t0 + timedelta(seconds=(k + 1) * interval)
        case.check(a.isoformat() in ims, 'an image for every frame', frame=str(a), found=sorted(ims))
        path, im = ims[a.isoformat()]
        rel = os.path.relpath(path, cwd)
        if out is None or 'dataset_name' in out:
            case.check(os.path.basename(rel).startswith('OR_GLM-L2-') and '_s' + a.strftime('%Y%j%H%M%S') in rel and
                       '_e' + b.strftime('%Y%j%H%M%S') in rel, 'images are named by their frame', name=rel, frame=str(a))
            case.check(os.path.dirname(rel) == (a.strftime('%Y/%b/%d') if out else ''), 'images are put where asked', name=rel)
        else:
            case.check(rel == a.strftime('img_%H%M%S') + b.strftime('_%H%M%S.nc'), 'images are put where asked', name=rel)
        # rounding of the bounds can give a further column or row
        more = im.x.size - nx, im.y.size - ny
        case.check(more[0] in (0, 1) and more[1] in (0, 1), 'images have the size asked for', got=dict(im.sizes), want=(nx, ny))
        im = im.isel(x=slice(0, nx), y=slice(more[1], None))
        case.close(im.x.values, x + (np.arange(nx) - (nx - 1) / 2.) * d[0], 'cells are where asked for', rtol=0, atol=2.9e-5)
        case.close(im.y.values, y - (np.arange(ny) - (ny - 1) / 2.) * d[1], 'cells are where asked for', rtol=0, atol=2.9e-5)
        c15.judge(case, im, want[k], packed)
        if want[k].hit.sum() > 1:
            case.nontrivial(case.index, k, d, list(xb))


def shipped(case):
    """The sample files give the reference image that comes with them."""
    data = os.path.join(ROOT, 'glmtools', 'test', 'data')
    files = sorted(os.path.join(data, n) for n in os.listdir(data) if n.startswith('OR_GLM'))
    ref = os.path.join(data, 'conus', '2018', 'Jul', '02')
    ref = [os.path.join(ref, n) for n in os.listdir(ref) if n.startswith('OR_GLM')][0]
    args = ['--fixed_grid', '--split_events', '--goes_position', 'east', '--goes_sector', 'conus', '--dx=2.0', '--dy=2.0', '--ellipse=0']
    case.describe(args=args)
    case.begin('sample files')
    cwd, made = command(case, args + files)
    case.check(len(made) == 1, 'one image per frame', made=made)
    a, b = c15.read_image(made[0]), c15.read_image(ref)
    case.trial()
    case.check(os.path.basename(made[0])[:54] == os.path.basename(ref)[:54], 'named as the reference', name=made[0])
    case.close(a.x.values, b.x.values, 'reference cells', rtol=0, atol=1e-7)
    case.close(a.y.values, b.y.values, 'reference cells', rtol=0, atol=1e-7)
    for f in images.FIELDS:
        if f not in b:
            continue
        p, q = a[f].values.astype('f8'), b[f].values.astype('f8')
        # small values were stored as none
        low = 1.01 * b[f].encoding['scale_factor']
        case.check(not (np.isnan(p) & ~np.isnan(q)).any(), 'reference lightning is shown', field=f)
        new = np.isnan(q) & ~np.isnan(p) & (p > max(low, images.STEP[f] * 1.01))
        if f.startswith('average'):
            new &= ~np.isnan(b['flash_extent_density'].values)
        case.check(not new.any(), 'nothing else is shown', field=f, n=int(new.sum()), got=p[new][:4])
        m = ~np.isnan(p) & ~np.isnan(q)
        tol = .51 * images.STEP[f] + .51 * b[f].encoding['scale_factor']
        off = np.abs(p[m] - q[m]) > tol
        # a few cells are on the edge of a footprint
        case.check(off.mean() < 5e-3, 'reference ' + f.replace('_', ' '), off=int(off.sum()), cells=int(m.sum()), got=p[m][off][:4], want=q[m][off][:4])
        case.close(np.where(m, p, 0).sum(), np.where(m, q, 0).sum(), 'reference total', rtol=2e-3, field=f)
    case.nontrivial('shipped')


SCENARIOS = [('made up', made_up, 16, 160), ('shipped', shipped, 1, 1)]
REQUIRED = {'cell total energy': (20, 250), 'cells are where asked for': (40, 500), 'reference total': (7, 7)}
