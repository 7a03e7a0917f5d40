"""Image files made from level-2 files against sums computed directly from the records."""
import os
from datetime import datetime, timedelta

import numpy as np
import xarray as xr

from vf import gen, gridref, images, oracle
from vf.core import Skip

PROPERTY = 'C15'
RULE = ('one evaluation per image; distinct non-trivial when it shows lightning in at least two cells; '
        'distinct by files, grid and frame')
ASSUMPTIONS = ['base gridder classes come from a stand-in for the missing lmatools package',
               'flashes are small enough that the search margin of 100 km reaches their centroids',
               'cell sums are exact to the resolution of the integer coordinates used for clipping']
PAD = 100 * 28e-6


def count_edges(b0, b1, d):
    return len(np.arange(b0, b1 + d, d)) - 1


def window(rng, x, y, d, reach, s=1):
    """Bounds and size of a grid near positions x, y for which every padded tile has the intended cells."""
    dx, dy = (float(v) for v in np.broadcast_to(d, 2))
    exact = np.log2(dx) % 1 == 0 and np.log2(dy) % 1 == 0
    for _ in range(200):
        a = x.min() - reach[0] - rng.uniform(0, 3) * dx
        b = y.min() - reach[1] - rng.uniform(0, 3) * dy
        if exact:
            # sums of such numbers are not rounded
            a, b = np.floor(a / dx * 16) * dx / 16, np.floor(b / dy * 16) * dy / 16
        nx = max(3 * s, int(np.ceil((x.max() + reach[2] - a) / dx)))
        ny = max(3 * s, int(np.ceil((y.max() + reach[3] - b) / dy)))
        if nx > 400 or ny > 400:
            raise Skip('domain too large')
        xb, yb = np.array([a, a + nx * dx]), np.array([b, b + ny * dy])
        good = True
        for lo, n, h in ((a, nx, dx), (b, ny, dy)):
            p = int(PAD / h)
            for parts in (1, s):
                m = int((lo + n * h - lo) / h) // parts
                e = np.append(lo + h * m * np.arange(parts), lo + n * h)
                for u, v in zip(e[:-1], e[1:]):
                    good &= count_edges(u - p * h, v + p * h, h) == int(round((v - u) / h)) + 2 * p
        if good:
            return xb, yb, nx, ny
    raise Skip('no bounds free of rounding')


def make_inputs(case, n_files, interval, frames, start, width, nadir):
    """Files, their records as opened, and the frame of each."""
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    lat, lon = float(rng.uniform(-48, 48)), float(rng.uniform(-45, 45))
    out = []
    source = (str(rng.choice(['G16', 'G17', 'G19'])), str(rng.choice(['GOES-East', 'GOES-West', 'GOES-Test'])),
              str(rng.choice(['FM1', 'FM2', 'GLM-1'])))
    for k in range(n_files):
        t = start + timedelta(seconds=20 * int(rng.integers(0, max(1, int(frames * interval / 20)))))
        u = rng.random()
        if u < .1:
            t = start - timedelta(seconds=20)
        elif u < .2:
            t = start + timedelta(seconds=interval * frames)
        empty = rng.random() < .15
        f = gen.make_file(rng, n_flashes=0 if empty else int(rng.choice([1, 2, 5])), nadir=nadir, start=t,
                          box=(lon, lon + width, lat, lat + width),
                          group_style=str(rng.choice(['one', 'few', 'geometric'])),
                          event_style=str(rng.choice(['one', 'few', 'geometric'])))
        f.event_energy_raw[f.event_energy_raw == 65535] = 5
        f.platform, f.slot, f.instrument = source
        path = os.path.join(case.tmp, 'in_%d_%d.nc' % (case.index, k))
        f.write(path)
        out.append([f, path, None, int(np.floor((t - start).total_seconds() / interval))])
    return out


def open_inputs(case, inputs, rev=None):
    from glmtools.io.glm import GLMDataset
    for item in inputs:
        g = GLMDataset(item[1], **({} if rev is None else {'ellipse_rev': rev}))
        g.dataset.load() if item[0].n('event') else None
        item[2] = g.dataset
        f = item[0]
        if f.n('event'):
            x, y = oracle.fixed_grid(f.event_lon, f.event_lat, f.nadir, oracle.revision(f.start) if rev in (None, -1) else rev)
            case.close(g.dataset.event_x.data, x, 'positions used are those of the records', rtol=0, atol=6e-8)
            case.close(g.dataset.event_y.data, y, 'positions used are those of the records', rtol=0, atol=6e-8)


class Frame(object):
    """Expected images of one frame, arrays [x, y]."""

    def __init__(self, case, chosen, all_, xe, ye, t0, t1, min_events, min_groups):
        self.xe, self.ye = np.asarray(xe), np.asarray(ye)
        self.cells = [self.of_file(case, it, min_events, min_groups) for it in chosen]
        shape = (len(xe) - 1, len(ye) - 1)
        self.sum = {k: sum([c.sum[k] for c in self.cells], np.zeros(shape)) for k in gridref.SUMS}
        self.tol = {k: sum([c.tol[k] for c in self.cells], np.zeros(shape)) for k in gridref.SUMS}
        self.hit = np.any([np.zeros(shape, bool)] + [c.hit for c in self.cells], axis=0)
        self.maybe = np.any([np.zeros(shape, bool)] + [c.maybe for c in self.cells], axis=0)
        self.low = np.min([np.full(shape, np.inf)] + [c.low for c in self.cells], axis=0)
        self.lowest = np.min([np.full(shape, np.inf)] + [c.lowest for c in self.cells], axis=0)
        self.inside = sum(c.inside for c in self.cells)
        # centroids count in the frame of the flash or group itself
        self.centroids = {}
        for level, tv in (('flash', 'flash_time_offset_of_first_event'), ('group', 'group_time_offset')):
            x, y, t = [], [], []
            for it in all_:
                if it[0].n('event'):
                    keep = self.selected(it, min_events, min_groups)
                    ds = it[2]
                    m = np.isin(ds.flash_id.data, keep) if level == 'flash' else np.isin(ds.group_parent_flash_id.data, keep)
                    x.append(ds[level + '_x'].data[m]); y.append(ds[level + '_y'].data[m]); t.append(ds[tv].data[m])
            n = np.zeros(shape)
            loose = np.zeros(shape)
            if x:
                x, y, t = np.concatenate(x), np.concatenate(y), np.concatenate(t)
                m = (t >= np.datetime64(t0)) & (t < np.datetime64(t1))
                x, y = x[m], y[m]
                i, j = np.searchsorted(self.xe, x) - 1, np.searchsorted(self.ye, y) - 1
                near = (np.abs(self.xe[np.clip(i + np.array([[0], [1]]), 0, shape[0])] - x).min(axis=0) < 3e-8) | \
                       (np.abs(self.ye[np.clip(j + np.array([[0], [1]]), 0, shape[1])] - y).min(axis=0) < 3e-8)
                for a, b, c in zip(i, j, near):
                    if c:
                        loose[max(0, a - 1):a + 2, max(0, b - 1):b + 2] += 1
                    elif 0 <= a < shape[0] and 0 <= b < shape[1]:
                        n[a, b] += 1
            self.centroids[level] = n, loose

    @staticmethod
    def selected(it, min_events, min_groups):
        f = it[0]
        g2f, e2g = f.relations()
        ng = np.bincount(g2f, minlength=f.n('flash'))
        ne = np.bincount(g2f[e2g], minlength=f.n('flash'))
        return f.flash_id[(ng >= (min_groups or 1)) & (ne >= (min_events or 1))]

    def of_file(self, case, it, min_events, min_groups):
        f, path, ds, k = it
        if f.n('event') == 0:
            return gridref.Cells(self.xe, self.ye)
        keep = self.selected(it, min_events, min_groups)
        m = np.isin(ds.event_parent_flash_id.data, keep)
        # energies and areas from the integers of the file
        en = dict(zip(f.event_id.tolist(), f.energy_nJ('event').tolist()))
        ga = dict(zip(f.group_id.tolist(), f.area_km2('group').tolist()))
        fa = dict(zip(f.flash_id.tolist(), f.area_km2('flash').tolist()))
        eid = ds.event_id.data[m].astype('i8')
        gid, fid = ds.group_id.data.astype('i8'), ds.flash_id.data.astype('i8')
        entries = gridref.gather(ds.event_x.data[m], ds.event_y.data[m], [en[i] for i in eid.tolist()],
                                 ds.event_parent_group_id.data[m].astype('i8'), gid,
                                 ds.group_parent_flash_id.data.astype('i8'), [ga[i] for i in gid.tolist()], fid,
                                 [fa[i] for i in fid.tolist()])
        return gridref.cells_of(case, entries, self.xe, self.ye)

    def sub(self, xs, ys):
        """The part of this frame on a tile."""
        out = object.__new__(Frame)
        out.sum = {k: v[xs, ys] for k, v in self.sum.items()}
        out.tol = {k: v[xs, ys] for k, v in self.tol.items()}
        for k in ('hit', 'maybe', 'low', 'lowest'):
            setattr(out, k, getattr(self, k)[xs, ys])
        out.centroids = {k: (n[xs, ys], l[xs, ys]) for k, (n, l) in self.centroids.items()}
        return out


def read_image(path):
    with xr.open_dataset(path) as d:
        d.load()
    return d


def judge(case, d, want, packed):
    """Values of one image against the expected sums."""
    case.trial()
    got = {f: d[f].values.astype('f8')[::-1].T for f in images.FIELDS}
    shape = want.hit.shape
    for f in images.FIELDS:
        case.check(got[f].shape == shape, 'image has the size asked for', field=f, got=got[f].shape, want=shape)
    key = dict(flash_extent_density='flash_count', group_extent_density='group_count', total_energy='energy')
    for f, k in key.items():
        v, miss = got[f], np.isnan(got[f])
        w, tol = want.sum[k], want.tol[k] + 1.2e-5 * want.sum[k]
        if packed:
            tol = tol + .5005 * images.STEP[f]
            w = np.where(want.maybe, np.clip(w, images.STEP[f], 65535 * images.STEP[f]), w)
        # an accumulated value below the tolerance may be nothing at all
        case.check(not (miss & want.hit & (want.sum[k] > want.tol[k])).any(), 'lightning is shown where it occurred', field=f,
                   want=w[miss & want.hit][:4])
        case.check(not (~miss & ~want.maybe).any(), 'nothing is shown elsewhere', field=f, got=v[~miss & ~want.maybe][:4])
        bad = ~miss & ~(np.abs(v - w) <= tol)
        case.check(not bad.any(), 'cell ' + f.replace('_', ' '), got=v[bad][:4], want=w[bad][:4], packed=packed, n=int(bad.sum()))
    for f, num, den in (('average_flash_area', 'total_flash_area', 'flash_count'),
                        ('average_group_area', 'total_group_area', 'group_count')):
        v, miss = got[f], np.isnan(got[f])
        n, t = want.sum[den], want.tol[den]
        sure = want.hit & (n > 20 * t)
        w = np.where(sure, want.sum[num] / np.where(sure, n, 1), 0)
        tol = w * (4 * t / np.where(sure, n, 1) + 3e-5)
        if packed:
            tol = tol + .5005 * images.STEP[f]
            w = np.clip(w, images.STEP[f], 65535 * images.STEP[f])
        bad = sure & ~(np.abs(v - w) <= tol)
        case.check(not bad.any(), 'cell ' + f.replace('_', ' '), got=v[bad][:4], want=w[bad][:4], packed=packed, n=int(bad.sum()))
        case.check(not (~miss & ~want.maybe).any(), 'nothing is shown elsewhere', field=f)
    v, miss = got['minimum_flash_area'], np.isnan(got['minimum_flash_area'])
    half = .5005 * 10. if packed else 0.
    low, high = want.lowest * (1 - 1e-6) - half, want.low * (1 + 1e-6) + half
    if packed:
        low = np.minimum(low, 655350.)
    bad = want.hit & ~((v >= low) & (v <= high))
    case.check(not bad.any(), 'cell minimum flash area', got=v[bad][:4], want=want.low[bad][:4], packed=packed)
    case.check(not (~miss & ~want.maybe).any(), 'nothing is shown elsewhere', field='minimum_flash_area')
    for level in ('flash', 'group'):
        f = level + '_centroid_density'
        n, loose = want.centroids[level]
        v = np.where(np.isnan(got[f]), 0, got[f])
        bad = ~((v >= n - loose - 1e-3) & (v <= n + loose + 1e-3))
        case.check(not bad.any(), 'cell %s centroid density' % level, got=v[bad][:4], want=n[bad][:4])
        case.count('input: %s centroids in the grid' % level, int(n.sum()))
    case.count('input: cells with lightning', int(want.hit.sum()))


def options(rng, d, xb, yb, nadir, start, out, packed, interval, ev, gr, rev):
    from lmatools.grid.fixed import get_GOESR_coordsys
    cs, lla = get_GOESR_coordsys(sat_lon_nadir=nadir)
    kw = dict(proj_name='geos', base_date=datetime(start.year, start.month, start.day), dx=float(np.broadcast_to(d, 2)[0]), dy=float(np.broadcast_to(d, 2)[1]),
              frame_interval=interval, x_bnd=xb, y_bnd=yb, ctr_lat=0., ctr_lon=nadir, outpath=out,
              output_filename_prefix='GLM', output_kwargs={'scale_and_offset': packed}, output_writer=None,
              spatial_scale_factor=1., fixed_grid=True, nadir_lon=nadir, clip_events=True, pixel_coords=cs,
              energy_grids=('total_energy',))
    if ev is not None:
        kw['min_points_per_flash'] = ev
    if gr is not None:
        kw['min_groups_per_flash'] = gr
    if rev is not None:
        kw['ellipse_rev'] = rev
    return kw


def setup(case, spacings, width, s=1):
    rng = case.rng
    d = float(rng.choice(spacings))
    interval = float(rng.choice([60., 60., 20., 40.]))
    frames = int(rng.integers(1, 4))
    start = images.start_time(rng)
    if rng.random() < .2:
        start = datetime(start.year, start.month, start.day) + timedelta(days=1) - timedelta(seconds=60)
    if datetime(2018, 10, 13) < start < datetime(2018, 11, 8):
        start = start + timedelta(days=40)
    nadir = float(rng.choice([-75.0, -137.2, -89.5]))
    packed = bool(rng.random() < .5)
    ev = int(rng.integers(1, 5)) if rng.random() < .3 else None
    gr = int(rng.integers(1, 3)) if rng.random() < .3 else None
    rev = [None, -1, -1, -1, 0, 1][int(rng.integers(6))]
    inputs = make_inputs(case, int(rng.integers(1, 4)), interval, frames, start, width, float(np.float32(nadir)))
    case.describe(spacing=d, interval=interval, frames=frames, start=str(start), nadir=nadir, packed=packed, min_events=ev,
                  min_groups=gr, ellipse=rev, files=[it[0].style for it in inputs])
    return d, interval, frames, start, nadir, packed, ev, gr, rev, inputs


def oblong(case, d):
    """Spacings east-west and north-south, in some cases different."""
    if case.rng.random() < .4:
        k = float(case.rng.choice([.5, 2.]))
        case.count('input: cells that are not square')
        case.describe(spacing=(d, d * k))
        return (d, d * k) if k * d >= 14e-6 else (d, 2 * d)
    return d, d


def grid_window(rng, inputs, d, s=1):
    x = np.concatenate([it[2].event_x.data for it in inputs if it[0].n('event')] or [np.array([.01, .0102])])
    y = np.concatenate([it[2].event_y.data for it in inputs if it[0].n('event')] or [np.array([.02, .0202])])
    reach = np.full(4, 140e-6)
    cut = rng.random() < .35
    if cut:
        # leave out some of the data
        reach = np.array([float(rng.choice([140e-6, -150e-6, -400e-6])) for _ in range(4)])
    return window(rng, x, y, d, reach, s) + (cut,)


def expected(case, inputs, xb, yb, nx, ny, d, frames, interval, start, ev, gr):
    dx, dy = np.broadcast_to(d, 2)
    xe, ye = xb[0] + dx * np.arange(nx + 1), yb[0] + dy * np.arange(ny + 1)
    out = []
    for k in range(frames):
        t0 = start + timedelta(seconds=k * interval)
        out.append(Frame(case, [it for it in inputs if it[3] == k], inputs, xe, ye, t0, t0 + timedelta(seconds=interval), ev, gr))
    return out


def whole(case):
    from glmtools.grid.make_grids import grid_GLM_flashes
    rng = case.rng
    d, interval, frames, start, nadir, packed, ev, gr, rev, inputs = setup(
        case, [56e-6, 56e-6, 112e-6, 224e-6, 280e-6, 2.**-14] + ([28e-6, 14e-6] if case.index % 7 == 0 else []), float(rng.choice([.1, .3])))
    d = oblong(case, d)
    case.begin('gridding')
    open_inputs(case, inputs, rev)
    xb, yb, nx, ny, cut = grid_window(rng, inputs, d)
    case.describe(x=list(xb), y=list(yb), n=(nx, ny), cut=cut)
    out = os.path.join(case.tmp, 'out')
    kw = options(rng, d, xb, yb, nadir, start, out + '/{dataset_name}', packed, interval, ev, gr, rev)
    if rng.random() < .5:
        kw['subdivide'] = 1
    files = [it[1] for it in inputs]
    order = list(rng.permutation(len(files)))
    grid_GLM_flashes([files[i] for i in order], start, start + timedelta(seconds=interval * frames), **kw)
    made = sorted(os.listdir(out))
    case.check(len(made) == frames, 'one image per frame', made=made, frames=frames)
    want = expected(case, inputs, xb, yb, nx, ny, d, frames, interval, start, ev, gr)
    for k, name in enumerate(made):
        im = read_image(os.path.join(out, name))
        t0 = start + timedelta(seconds=k * interval)
        case.check(('_s' + t0.strftime('%Y%j%H%M%S')) in name, 'images are named by their frame', name=name, frame=str(t0))
        judge(case, im, want[k], packed)
        for a, v in (('platform_ID', 'platform'), ('orbital_slot', 'slot'), ('instrument_ID', 'instrument')):
            case.check(im.attrs[a] == getattr(inputs[0][0], v), 'images name the source of the files', attribute=a, got=im.attrs[a])
        if not packed:
            case.close(float(np.nansum(im['total_energy'].values.astype('f8'))), want[k].inside, 'energy on the grid',
                       rtol=5e-5, atol=1e-9 + float(want[k].tol['energy'].sum()))
        if want[k].hit.sum() > 1:
            case.nontrivial(case.index, k, d, list(xb))
        if not any(it[0].n('event') for it in inputs):
            case.count('input: only files without lightning')


def tiles(case):
    """Each tile is written to its own file and compared with its part of the whole."""
    from glmtools.grid.make_grids import subdivided_fixed_grid, proc_each_grid
    rng = case.rng
    s = int(rng.choice([2, 2, 3]))
    d, interval, frames, start, nadir, packed, ev, gr, rev, inputs = setup(case, [2.**-14, 2.**-13, 2.**-12], .3)
    frames = 1
    d = oblong(case, d)
    case.begin('gridding tiles')
    open_inputs(case, inputs, rev)
    xb, yb, nx, ny, cut = grid_window(rng, inputs, d, s)
    case.describe(x=list(xb), y=list(yb), n=(nx, ny), cut=cut, tiles=s)
    kw = options(rng, d, xb, yb, nadir, start, '', packed, interval, ev, gr, rev)
    kw['do_3d'] = False
    kw['event_grid_area_fraction_key'] = 'mesh_frac'
    proc = {k: kw.pop(k) for k in ('min_points_per_flash', 'min_groups_per_flash', 'clip_events', 'fixed_grid', 'nadir_lon',
                                   'ellipse_rev') if k in kw}
    outk = {k: kw.pop(k) for k in ('outpath', 'output_writer', 'output_kwargs', 'output_filename_prefix')}
    want = expected(case, inputs, xb, yb, nx, ny, d, frames, interval, start, ev, gr)[0]
    end = start + timedelta(seconds=interval)
    done = np.zeros((nx, ny), int)
    for t in subdivided_fixed_grid(kw, proc, outk, s=s):
        (i, j), pads = t[0], t[4]
        path = os.path.join(case.tmp, 'tile_%d_%d_%d.nc' % (case.index, i, j))
        t[3]['outpath'] = path
        lo = [t[1][a][0] + pads[2 + q] for q, a in enumerate(('x_bnd', 'y_bnd'))]
        hi = [t[1][a][1] - pads[2 + q] for q, a in enumerate(('x_bnd', 'y_bnd'))]
        proc_each_grid(t, start_time=start, end_time=end, GLM_filenames=[it[1] for it in inputs])
        xs = slice(int(round((lo[0] - xb[0]) / d[0])), int(round((hi[0] - xb[0]) / d[0])))
        ys = slice(int(round((lo[1] - yb[0]) / d[1])), int(round((hi[1] - yb[0]) / d[1])))
        done[xs, ys] += 1
        judge(case, read_image(path), want.sub(xs, ys), packed)
        case.count('input: tiles')
    case.check((done == 1).all(), 'tiles make up the whole')
    if want.hit.sum() > 1:
        case.nontrivial('tiles', case.index, d, list(xb), s)


def divided(case):
    """Dividing through the top-level call: the files together hold the whole."""
    from glmtools.grid.make_grids import grid_GLM_flashes
    rng = case.rng
    d, interval, frames, start, nadir, packed, ev, gr, rev, inputs = setup(case, [2.**-13, 2.**-12], .3)
    frames = 1
    case.begin('gridding a divided domain')
    open_inputs(case, inputs, rev)
    xb, yb, nx, ny, cut = grid_window(rng, inputs, d, 2)
    out = os.path.join(case.tmp, 'out')
    kw = options(rng, d, xb, yb, nadir, start, out + '/{dataset_name}', packed, interval, ev, gr, rev)
    grid_GLM_flashes([it[1] for it in inputs], start, start + timedelta(seconds=interval), subdivide=2, **kw)
    made = [os.path.join(out, name) for name in os.listdir(out)]
    if len(made) < 4:
        # files are named by the time they are made, in tenths of a second
        raise Skip('two tiles made within a tenth of a second')
    want = expected(case, inputs, xb, yb, nx, ny, d, 1, interval, start, ev, gr)[0]
    ims = [read_image(p) for p in made]
    case.trial()
    case.equal(sum(im['flash_extent_density'].size for im in ims), nx * ny, 'tiles have the cells of the whole')
    for f, k in (('flash_extent_density', 'flash_count'), ('group_extent_density', 'group_count'), ('total_energy', 'energy')):
        half = .5005 * images.STEP[f] * want.maybe.sum() if packed else 0.
        case.close(sum(float(np.nansum(im[f].values.astype('f8'))) for im in ims), want.sum[k].sum(),
                   'tiles have the content of the whole', rtol=5e-5, atol=half + 1e-9 + float(want.tol[k].sum()))
    if want.hit.sum() > 1:
        case.nontrivial('divided', case.index)


SCENARIOS = [('whole', whole, 40, 500), ('tiles', tiles, 8, 80), ('divided', divided, 2, 8)]
REQUIRED = {'input: cells that are not square': (6, 100), 'cell total energy': (50, 600), 'cell minimum flash area': (50, 600), 'input: tiles': (20, 250),
            'energy on the grid': (10, 150), 'input: cells with lightning': (500, 8000)}
