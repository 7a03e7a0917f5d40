"""Flash filters against a direct evaluation of every criterion."""
import os

import numpy as np

from ..gen import make_file
from ..oracle import fixed_grid, revision
from ..trees import same_rows
from .c02 import family, ID_VARS, DIMS

PROPERTY = 'C03'
RULE = ('a query is distinct non-trivial when the filter keeps some but not all flashes of its '
        'file; distinct by the kept set and the criteria')
ASSUMPTIONS = ['range limits are representable in single precision for longitude and latitude, '
               'since files hold centroids in single precision',
               'the instrument field of view is +/- 0.1349 rad in both directions']
FOV = 0.1349


def pick_range(rng, v, lo, hi, f4=False):
    """A range: through actual values (to test strictness), around them, inverted, or very wide."""
    kind = int(rng.integers(7))
    v = np.sort(np.asarray(v, dtype='f8'))
    if kind == 0 and len(v):
        a, b = sorted(rng.choice(v, 2))
    elif kind == 1:
        a, b = lo, hi
    elif kind == 2 and len(v):
        a = v[int(rng.integers(len(v)))]
        b = hi
    elif kind == 3 and len(v):
        a = lo
        b = v[int(rng.integers(len(v)))]
    elif kind == 4 and len(v):
        a, b = np.quantile(v, sorted(rng.random(2)))
        if rng.random() < .1:
            a, b = b, a
    elif kind == 5 and len(v):
        # around one centroid, perhaps without its events
        c, w = rng.choice(v), (hi - lo) * 10 ** rng.uniform(-5, -1.5)
        a, b = c - w, c + w
    else:
        a, b = sorted(rng.uniform(lo, hi, 2))
    if f4:
        a, b = float(np.float32(a)), float(np.float32(b))
    return float(a), float(b)


def filters(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    fov = ['inside', 'edge', 'spill'][case.index % 3]
    f = make_file(rng, n_flashes=int(rng.choice([1, 3, 8, 20, 50])), fov=fov,
                  pixels=bool(rng.integers(2)))
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('subsetting')
    g = GLMDataset(path)
    src = g.dataset.copy(deep=True)
    rev = revision(f.start)
    fx, fy = src.flash_x.data, src.flash_y.data
    ex, ey = src.event_x.data, src.event_y.data
    ox, oy = fixed_grid(f.event_lon, f.event_lat, f.nadir, rev)
    case.close(ex, ox, 'event positions', rtol=0, atol=2e-9)
    case.close(ey, oy, 'event positions', rtol=0, atol=2e-9)
    g2f, e2g = f.relations()
    nf = f.n('flash')
    e2f = g2f[e2g]
    n_ev = np.bincount(e2f, minlength=nf)
    n_gr = np.bincount(g2f, minlength=nf)
    parents = [None, g2f, e2g]
    for rep in range(6):
        case.trial()
        kw = {}
        p = rng.choice([0.15, 0.5])
        if rng.random() < p:
            kw['lon_range'] = pick_range(rng, f.flash_lon, f.nadir - 70, f.nadir + 70, True)
        if rng.random() < p:
            kw['lat_range'] = pick_range(rng, f.flash_lat, -70, 70, True)
        if rng.random() < p:
            kw['x_range'] = pick_range(rng, fx, -0.16, 0.16)
        if rng.random() < p:
            kw['y_range'] = pick_range(rng, fy, -0.16, 0.16)
        if rng.random() < p:
            kw['min_events'] = int(rng.choice([0, 1, 2, 3, int(rng.choice(n_ev)),
                                               int(rng.choice(n_ev)) + 1]))
        if rng.random() < p:
            kw['min_groups'] = int(rng.choice([0, 1, 2, int(rng.choice(n_gr)),
                                               int(rng.choice(n_gr)) + 1]))
        window = rng.random() > 0.25
        if rng.random() < .2:
            # a small window on one flash
            k, w = int(rng.integers(nf)), 10 ** rng.uniform(-5, -2.5)
            kw = dict(x_range=(float(fx[k] - w), float(fx[k] + w)), y_range=(float(fy[k] - w), float(fy[k] + w)))
            if rng.random() < .5:
                kw[str(rng.choice(['x_range', 'y_range']))] = (-.13, .13)
        elif rng.random() < .2:
            # limits that just miss or just take in the events nearest to a centroid
            k = int(rng.integers(nf))
            kw = {}
            for axis, c, e in (('x_range', fx[k], ex[e2f == k]), ('y_range', fy[k], ey[e2f == k])):
                if rng.random() < .4:
                    continue
                below, above = e[e < c].max(initial=-.15), e[e > c].min(initial=.15)
                eps = float(10 ** rng.uniform(-7.5, -4.5)) * (1 if rng.random() < .7 else -1)
                kw[axis] = (float(below + min(eps, (c - below) / 2)), float(above - min(eps, (above - c) / 2)))
            case.count('input: limits next to events', len(kw))
        if not window or rng.random() < .3:
            kw['check_event_xy'] = bool(window)
        keep = np.ones(nf, dtype=bool)
        if 'lon_range' in kw:
            keep &= (f.flash_lon > kw['lon_range'][0]) & (f.flash_lon < kw['lon_range'][1])
        if 'lat_range' in kw:
            keep &= (f.flash_lat > kw['lat_range'][0]) & (f.flash_lat < kw['lat_range'][1])
        if 'x_range' in kw:
            keep &= (fx > kw['x_range'][0]) & (fx < kw['x_range'][1])
        if 'y_range' in kw:
            keep &= (fy > kw['y_range'][0]) & (fy < kw['y_range'][1])
        if 'min_events' in kw:
            keep &= n_ev >= kw['min_events']
        if 'min_groups' in kw:
            keep &= n_gr >= kw['min_groups']
        if window:
            xr_ = kw.get('x_range', (-FOV, FOV))
            yr_ = kw.get('y_range', (-FOV, FOV))
            inside = ((ex > max(xr_[0], -FOV)) & (ex < min(xr_[1], FOV)) &
                      (ey > max(yr_[0], -FOV)) & (ey < min(yr_[1], FOV)))
            has = np.zeros(nf, dtype=bool)
            has[e2f[inside]] = True
            if (keep & ~has).any():
                case.count('input: flash dropped for lack of events in the window')
            keep &= has
        else:
            case.count('input: window check off')
        case.describe(criteria=kw, fov=fov, **f.style)
        sub = g.subset_flashes(**kw)
        got = sub.flash_id.data.tolist()
        want = set(f.flash_id[keep].tolist())
        case.check(set(got) == want and len(got) == len(want), 'kept flashes', criteria=kw,
                   extra=sorted(set(got) - want)[:5], missing=sorted(want - set(got))[:5])
        fam = family(parents, [nf, f.n('group'), f.n('event')], 0, np.flatnonzero(keep))
        for k in (1, 2):
            ids = [f.flash_id, f.group_id, f.event_id][k]
            got = sub[ID_VARS[k]].data.tolist()
            w = set(ids[sorted(fam[k])].tolist())
            case.check(set(got) == w and len(got) == len(w), 'all groups and events of kept flashes',
                       level=k, extra=sorted(set(got) - w)[:5], missing=sorted(w - set(got))[:5])
        for k in range(3):
            same_rows(case, sub, src, DIMS[k], ID_VARS[k], 'values of kept rows')
        if 0 < keep.sum() < nf:
            case.nontrivial(sorted(kw), np.flatnonzero(keep).tolist(), f.flash_id.tolist()[:5])
        for k in kw:
            case.count('input: criterion ' + k)
        if window and keep.any():
            k_ev = np.isin(e2f, np.flatnonzero(keep))
            if (k_ev & ~inside).any():
                case.count('input: kept flash with events outside the window')


SCENARIOS = [('filters', filters, 180, 2400)]
REQUIRED = {'kept flashes': (700, 9000),
            'input: flash dropped for lack of events in the window': (10, 100),
            'input: kept flash with events outside the window': (10, 100),
            'input: window check off': (50, 500),
            'input: limits next to events': (60, 800)}
