"""Plots of one flash show its records where they are."""
import os

import cartopy.crs as ccrs
import numpy as np

from ..gen import make_file
from ..trees import same_dataset

PROPERTY = 'C33'
RULE = ('one evaluation per plotted flash; distinct non-trivial when the file has other flashes and the flash '
        'has several groups; distinct by records')
ASSUMPTIONS = ['energies are present (a missing energy has no colour)']


def marks(ax):
    """(offsets, values, norm) of every set of marks, in the coordinates they were given in."""
    out = []
    for c in ax.collections:
        xy = np.ma.getdata(c.get_offsets()).reshape(-1, 2)
        a = c.get_array()
        out.append((xy, None if a is None else np.ma.filled(np.ma.asarray(a, dtype='f8'), np.nan), c.norm))
    return out


def rows(*cols):
    return sorted(zip(*[np.asarray(c, dtype='f8').tolist() for c in cols]))


def near(a, b):
    return len(a) == len(b) and np.allclose(np.array(a, dtype='f8').reshape(len(a), -1),
                                            np.array(b, dtype='f8').reshape(len(b), -1), rtol=1e-6, atol=1e-12)


def maps(rng):
    k = int(rng.integers(0, 3))
    lon, lat = float(rng.uniform(-110, -60)), float(rng.uniform(-40, 40))
    return ccrs.Mercator(lon) if k == 0 else ccrs.LambertAzimuthalEqualArea(lon, lat) if k == 1 else \
        ccrs.PlateCarree(lon)


def on_the_map(case, ax):
    """Marks lie where the map has their longitude and latitude."""
    for c in ax.collections:
        xy = np.ma.getdata(c.get_offsets()).reshape(-1, 2)
        there = ax.projection.transform_points(ccrs.PlateCarree(), xy[:, 0], xy[:, 1])[:, :2]
        got, want = c.get_offset_transform().transform(xy), ax.transData.transform(there)
        case.check(np.allclose(got, want, rtol=1e-7, atol=1e-4), 'marks lie at their place on the map',
                   got=got[:3], want=want[:3])


def flash(case):
    import matplotlib.pyplot as plt
    from glmtools.io.glm import GLMDataset
    from glmtools.plot.locations import plot_flash
    rng = case.rng
    f = make_file(rng, n_flashes=int(rng.choice([1, 2, 5, 9])), group_style=str(rng.choice(['few', 'one', 'geometric'])))
    f.event_energy_raw = np.minimum(f.event_energy_raw, 60000)
    f.group_energy_raw = np.minimum(f.group_energy_raw, 60000)
    f.flash_energy_raw = np.minimum(f.flash_energy_raw, 60000)
    case.describe(**f.style)
    path = f.write(os.path.join(case.tmp, 'in%d.nc' % case.index))
    g = GLMDataset(path)
    g.dataset.load()
    keep = g.dataset.copy(deep=True)
    g2f, e2g = f.relations()
    i = int(rng.integers(f.n('flash')))
    gr = np.flatnonzero(g2f == i)
    ev = np.flatnonzero(np.isin(e2g, gr))
    fid = int(f.flash_id[i])
    case.begin('plotting a flash')
    own = bool(rng.random() < .5)
    proj = None
    try:
        if own and rng.random() < .4:
            # a map in another projection than that of the positions
            proj = ccrs.PlateCarree()
            fig = plt.figure()
            ax = fig.add_subplot(111, projection=maps(rng))
            got = plot_flash(g, fid, ax=ax, proj=proj)
            case.check(got is ax, 'drawn on the axes asked for')
            case.count('input: drawn on a map')
        elif own:
            fig, (first, ax) = plt.subplots(1, 2)
            got = plot_flash(g, fid, ax=ax)
            case.check(got is ax, 'drawn on the axes asked for')
            case.check(not first.collections, 'drawn on the axes asked for', why='other axes')
        else:
            plt.figure()
            n = len(plt.get_fignums())
            got = plot_flash(g, fid)
            case.check(len(plt.get_fignums()) == n + 1, 'a figure of its own otherwise')
        ax = got
        m = marks(ax)
        if proj is not None:
            on_the_map(case, ax)
        ev_want = rows(f.event_lon[ev], f.event_lat[ev], f.energy_nJ('event')[ev])
        gr_want = rows(f.group_lon[gr], f.group_lat[gr], f.energy_nJ('group')[gr])
        found = {}
        for name, want in (('event', ev_want), ('group', gr_want)):
            hit = [k for k, (xy, v, norm) in enumerate(m)
                   if v is not None and len(v) == len(xy) and near(rows(xy[:, 0], xy[:, 1], v), want)
                   and k not in found.values()]
            case.check(bool(hit), 'every %s is marked with its energy' % name, want=want[:5],
                       got=[(xy[:5].tolist(), None if v is None else v[:5].tolist()) for xy, v, _ in m])
            found[name] = hit[0]
        norms = [m[k][2] for k in found.values()]
        case.check(norms[0].vmin == norms[1].vmin and norms[0].vmax == norms[1].vmax
                   and norms[0].vmin < norms[0].vmax, 'one scale of colours for events and groups')
        hit = [k for k, (xy, v, norm) in enumerate(m) if k not in found.values()
               and near(xy.tolist(), [(f.flash_lon[i], f.flash_lat[i])])]
        case.check(bool(hit), 'the flash is marked at its centroid', got=[xy[:3].tolist() for xy, _, _ in m])
        case.check(len(m) == 3, 'nothing else is marked', n=len(m))
        title = ax.get_title()
        case.check(str(fid) in title, 'the title names the flash', title=title)
        for raw in (f.flash_first_raw[i], f.flash_last_raw[i]):
            t = str(f.times(np.array([raw]))[0].astype('M8[us]'))[:-3]
            case.check(t in title, 'the title tells the time of the flash', title=title, time=t)
        same_dataset(case, g.dataset, keep, 'the data set is left as it was')
    finally:
        plt.close('all')
    if f.n('flash') > 1 and len(gr) > 1:
        case.nontrivial(ev_want[:20], gr_want[:20])


SCENARIOS = [('flash', flash, 60, 400)]
REQUIRED = {'every event is marked with its energy': (60, 400), 'every group is marked with its energy': (60, 400),
            'marks lie at their place on the map': (10, 100), 'drawn on the axes asked for': (20, 200), 'a figure of its own otherwise': (15, 100)}
