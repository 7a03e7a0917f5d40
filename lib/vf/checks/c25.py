"""Pixel lookup against brute-force search; save and load."""
import io
import os
import pickle

import numpy as np

PROPERTY = 'C25'
RULE = ('one evaluation per looked-up location, saved object or table read; distinct non-trivial '
        'when at least four pixels are valid; distinct by location and pixel array shape')
ASSUMPTIONS = ['distance is measured in the plane of longitude and latitude']


def centres(rng):
    n0, n1 = (int(v) for v in rng.integers(1, 25, 2))
    step = float(rng.choice([.08, 1., 3.]))
    lon, lat = np.meshgrid(np.arange(n0) * step, np.arange(n1) * step, indexing='ij')
    a = rng.uniform(-.3, .3)
    lon, lat = lon + a * lat, lat - a * lon
    lon += rng.normal(0, .1 * step, lon.shape) - 90
    lat += rng.normal(0, .1 * step, lat.shape)
    if rng.random() < .5:
        lon, lat = lon.astype('f4').astype('f8'), lat.astype('f4').astype('f8')
    return lon, lat, step


def mask(rng, shape):
    kind = str(rng.choice(['none', 'few', 'many', 'block']))
    m = np.zeros(shape, bool)
    if kind == 'few':
        m = rng.random(shape) < .1
    elif kind == 'many':
        m = rng.random(shape) < .6
    elif kind == 'block':
        m[:shape[0] // 2, :shape[1] // 3 + 1] = True
    if m.all():
        m.flat[int(rng.integers(0, m.size))] = False
    return kind, m


def lookup(case):
    from glmtools.io.ccd import create_pixel_lookup, save_pixel_lookup, load_pixel_lookup
    rng = case.rng
    lon, lat, step = centres(rng)
    form = str(rng.choice(['plain', 'both', 'both', 'both nomask', 'lon only', 'lat only']))
    bad = np.zeros(lon.shape, bool)
    style = 'none'
    lons, lats = lon, lat
    if form in ('both', 'lon only', 'lat only'):
        style, m1 = mask(rng, lon.shape)
        m2 = m1 if rng.random() < .5 else m1 & (rng.random(lon.shape) < .5)
        fill = float(rng.choice([np.nan, -999., 0.])) if form == 'both' else -999.
        if form != 'lat only':
            lons = np.ma.masked_array(np.where(m1, fill, lon), m1)
        if form != 'lon only':
            lats = np.ma.masked_array(np.where(m2 if form == 'both' else m1, fill, lat),
                                      m2 if form == 'both' else m1)
        bad = m1
    elif form == 'both nomask':
        lons, lats = np.ma.masked_array(lon), np.ma.masked_array(lat)
    k = int(rng.integers(1, 20))
    where = np.array([rng.uniform(lon.min() - 2 * step, lon.max() + 2 * step, k),
                      rng.uniform(lat.min() - 2 * step, lat.max() + 2 * step, k)]).T
    at = rng.integers(0, lon.size, k)
    near = rng.random(k) < .4
    where[near] = np.array([lon.ravel()[at], lat.ravel()[at]]).T[near]
    leaf = int(rng.choice([1, 2, 10, 40, 100]))
    case.describe(shape=lon.shape, form=form, mask=style, locations=where, leaf=leaf)
    case.begin('pixel lookup')
    tree, X, Y = create_pixel_lookup(lons, lats, leaf_size=leaf) if rng.random() < .7 else \
        create_pixel_lookup(lons, lats)
    good = ~bad
    case.check(sorted(zip(X.tolist(), Y.tolist())) == sorted(map(tuple, np.argwhere(good).tolist())),
               'every valid pixel is listed once', listed=len(X), valid=int(good.sum()))
    glon, glat = lon[good], lat[good]

    def judge(tree, X, Y, lons, lats, tag):
        d, idx = tree.query(where)
        for q in range(k):
            case.trial()
            i, j = int(X[idx[q, 0]]), int(Y[idx[q, 0]])
            case.check(0 <= i < lon.shape[0] and 0 <= j < lon.shape[1], 'indices address the arrays')
            case.check(good[i, j], 'a valid pixel is found', pixel=(i, j))
            have = np.hypot(float(lons[i, j]) - where[q, 0], float(lats[i, j]) - where[q, 1])
            best = np.hypot(glon - where[q, 0], glat - where[q, 1]).min()
            case.check(have <= best * (1 + 1e-12) + 1e-12, 'nearest pixel', got=have, best=best, how=tag)
            case.check(abs(float(d[q, 0]) - best) <= 1e-9 + 1e-9 * best, 'distance is that of the pixel')
            if good.sum() >= 4:
                case.nontrivial(tag, lon.shape, np.round(where[q], 9).tolist())

    judge(tree, X, Y, lons, lats, 'built')
    if rng.random() < .5:
        path = os.path.join(case.tmp, 'lookup.pickle')
        case.check(save_pixel_lookup(tree, X, Y, lons, lats, filename=path) is None or True, 'saved')
        back = load_pixel_lookup(path)
        tag = 'file'
    else:
        data = save_pixel_lookup(tree, X, Y, lons, lats)
        case.check(isinstance(data, bytes), 'bytes when no file is named')
        path = os.path.join(case.tmp, 'bytes.pickle')
        with open(path, 'wb') as f:
            f.write(data)
        back = load_pixel_lookup(path) if rng.random() < .5 else pickle.loads(data)
        tag = 'bytes'
    case.check(len(back) == 5, 'everything saved comes back', n=len(back))
    for name, a, b in (('X', X, back[1]), ('Y', Y, back[2])):
        case.equal(b, a, 'saved indices come back', name=name)
    for name, a, b in (('lon', lons, back[3]), ('lat', lats, back[4])):
        case.check(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and
                   np.array_equal(np.ma.filled(a, -7.), np.ma.filled(b, -7.), equal_nan=True),
                   'saved positions come back', name=name)
    judge(back[0], back[1], back[2], back[3], back[4], tag)


def corners(case):
    """Distribution formats of the corner table and of the pixel positions."""
    import h5py
    from scipy.io import savemat
    from glmtools.io.ccd import (read_official_corner_lut, save_pixel_corner_lookup,
                                 load_pixel_corner_lookup, read_pixel_location_mat_file)
    rng = case.rng
    n0, n1 = (int(v) for v in rng.integers(1, 20, 2))
    names = dict(lat_grid=0, lon_grid=0)
    order = ('nw', 'sw', 'se', 'ne')
    data = {'lon_grid': rng.normal(size=(n0, n1)), 'lat_grid': rng.normal(size=(n0, n1))}
    for o in order:
        for d in ('lon', 'lat'):
            data[o + d] = rng.normal(size=(n0, n1))
    rename = {k: k for k in data}
    kw = {}
    if rng.random() < .4:
        rename = {k: 'v%d' % i for i, k in enumerate(rng.permutation(list(data)).tolist())}
        kw = dict(y_grid=rename['lat_grid'], x_grid=rename['lon_grid'],
                  x_corners=[rename[o + 'lon'] for o in order],
                  y_corners=[rename[o + 'lat'] for o in order])
    case.describe(shape=(n0, n1), renamed=bool(kw))
    path = os.path.join(case.tmp, 'corners.mat')
    savemat(path, {rename[k]: v for k, v in data.items()})
    case.begin('corner table')
    lons, lats, lut = read_official_corner_lut(path, **kw)
    case.trial()
    case.equal(lons, data['lon_grid'], 'table longitudes')
    case.equal(lats, data['lat_grid'], 'table latitudes')
    case.check(lut.shape == (n0, n1, 4, 2), 'four corners of two coordinates', shape=lut.shape)
    for i, o in enumerate(order):
        for j, d in enumerate(('lon', 'lat')):
            case.equal(lut[:, :, i, j], data[o + d], 'each corner in its place', corner=o + d)
    out = os.path.join(case.tmp, 'lut.pickle')
    if rng.random() < .5:
        save_pixel_corner_lookup(lons, lats, lut, filename=out)
    else:
        b = save_pixel_corner_lookup(lons, lats, lut)
        case.check(isinstance(b, bytes), 'bytes when no file is named')
        with open(out, 'wb') as f:
            f.write(b)
    back = load_pixel_corner_lookup(out)
    for a, b, name in zip((lons, lats, lut), back, ('lon', 'lat', 'corners')):
        case.equal(b, a, 'saved table comes back', name=name)
    if n0 * n1 >= 4:
        case.nontrivial(n0, n1, float(lons[0, 0]))

    case.trial()
    p = os.path.join(case.tmp, 'pixels.mat')
    lat = rng.uniform(-50, 50, (n0, n1))
    lon = rng.uniform(190, 320, (n0, n1))
    bad = rng.random((n0, n1)) < .2
    lat[bad] = np.nan
    lon[bad] = np.nan
    vn = ('mean_lat', 'mean_lon') if rng.random() < .6 else ('la', 'lo')
    with h5py.File(p, 'w') as h:
        h[vn[0]] = lat
        h[vn[1]] = lon
    lons, lats = read_pixel_location_mat_file(p) if vn[0] == 'mean_lat' else \
        read_pixel_location_mat_file(p, lat_var=vn[0], lon_var=vn[1])
    case.equal(np.ma.getmaskarray(lons), bad, 'missing positions are masked')
    case.equal(np.ma.getmaskarray(lats), bad, 'missing positions are masked')
    case.close(np.asarray(lons)[~bad], lon[~bad] - 360, 'west longitudes are negative', rtol=0, atol=1e-9)
    case.equal(np.asarray(lats)[~bad], lat[~bad], 'latitudes as stored')
    if n0 * n1 >= 4:
        case.nontrivial('pixels', n0, n1, float(np.nansum(lat)))


SCENARIOS = [('lookup', lookup, 300, 4000), ('corners', corners, 60, 600)]
REQUIRED = {'nearest pixel': (3000, 40000), 'each corner in its place': (400, 4000),
            'saved table comes back': (100, 1000)}
