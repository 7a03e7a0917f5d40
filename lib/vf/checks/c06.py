"""Lon/lat to fixed-grid conversion against line-of-sight geometry."""
import numpy as np

from ..oracle import fixed_grid, visible

PROPERTY = 'C06'
RULE = ('a case is distinct non-trivial when it evaluates at least one visible off-nadir point; '
        'distinct by satellite longitude, revision, input kind and points')
ASSUMPTIONS = ['points face the satellite on the chosen ellipsoid',
               'single-precision input is allowed single-precision error (1.5e-6 rad)']


def convert(*a, **k):
    from glmtools.io.lightning_ellipse import ltg_ellps_lon_lat_to_fixed_grid
    return ltg_ellps_lon_lat_to_fixed_grid(*a, **k)


def points(rng, n, sat_lon, rev):
    """Visible points, including near-limb and exactly axial ones, longitudes in -180..180."""
    r = np.where(rng.random(n) < .2, rng.uniform(70, 80, n), rng.uniform(0, 70, n))
    th = rng.uniform(0, 2 * np.pi, n)
    dl, lat = r * np.cos(th), r * np.sin(th)
    k = rng.random(n)
    dl = np.where(k < .05, 0, dl)
    lat = np.where((k > .05) & (k < .1), 0, lat)
    dl, lat = np.round(dl, 6), np.round(lat, 6)
    ok = visible(sat_lon + dl, lat, sat_lon, rev, margin=0.01)
    dl, lat = dl[ok], lat[ok]
    lon = (sat_lon + dl + 180.0) % 360.0 - 180.0
    return lon, lat


def sat(rng):
    return float(rng.choice([-75.0, -137.0, -75.2, -137.2, -89.5, 0.0, 140.7, 179.5, -179.9, 180.0,
                             -180.0, float(np.round(rng.uniform(-180, 180), 3))]))


def geometry(case):
    rng = case.rng
    s, rev = sat(rng), int(rng.integers(2))
    lon, lat = points(rng, int(rng.choice([1, 5, 60])), s, rev)
    if len(lon) == 0:
        lon, lat = np.array([s]), np.array([1.0])
    kind = ['f8', 'f4', 'list', 'scalar', 'int', 'int_all', '2d', 'shifted', 'strided'][case.index % 9]
    tol = 2e-12
    sarg = s
    if kind == 'f4':
        lon, lat = lon.astype('f4'), lat.astype('f4')
        tol = 1.5e-6
        a, b = lon, lat
    elif kind == 'list':
        a, b = lon.tolist(), lat.tolist()
    elif kind == 'scalar':
        lon, lat = lon[:1], lat[:1]
        a, b = float(lon[0]), float(lat[0])
    elif kind in ('int', 'int_all'):
        lon, lat = np.round(lon).astype(int), np.round(lat).astype(int)
        if kind == 'int_all':
            s = float(round(s))
            sarg = int(s)
        lon = np.where(visible(lon, lat, s, rev, 0.01), lon, int(round(s)))
        lat = np.where(visible(lon, lat, s, rev, 0.01), lat, 0)
        a, b = lon, lat
        if rng.random() < .5:
            a, b = lon.tolist(), lat.tolist()
    elif kind == '2d':
        m = (len(lon) // 2) * 2
        if m == 0:
            lon, lat, m = np.repeat(lon, 2), np.repeat(lat, 2), 2
        lon, lat = lon[:m].reshape(2, -1), lat[:m].reshape(2, -1)
        a, b = lon, lat
    elif kind == 'shifted':
        # the same meridians on the 0..360 convention, within one turn of the satellite
        lon = np.where(lon < 0, lon + 360, lon) if s <= 0 else lon
        a, b = lon, lat
    elif kind == 'strided':
        big = np.zeros((len(lon), 3))
        big[:, 1] = lon
        a, b = big[:, 1], lat[::-1].copy()[::-1]
    else:
        a, b = lon, lat
    case.describe(kind=kind, sat_lon=sarg, rev=rev, n=int(np.size(lon)), lon0=np.ravel(lon)[:4],
                  lat0=np.ravel(lat)[:4])
    a0, b0 = np.array(a, copy=True), np.array(b, copy=True)
    case.begin('conversion')
    x, y = convert(a, b, sarg, rev)
    wx, wy = fixed_grid(lon, lat, s, rev) if np.ndim(lon) < 2 else [
        v.reshape(lon.shape) for v in fixed_grid(lon.ravel(), lat.ravel(), s, rev)]
    case.close(x, wx, 'x angle', rtol=0, atol=tol)
    case.close(y, wy, 'y angle', rtol=0, atol=tol)
    case.equal(np.array(a), a0, 'longitude input untouched')
    case.equal(np.array(b), b0, 'latitude input untouched')
    case.count('input: points', np.size(lon))
    case.count('input: kind ' + kind)
    if np.any(np.abs(np.asarray(lon) - s) > 180):
        case.count('input: views across the antimeridian')
    case.nontrivial(kind, s, rev, np.ravel(wx)[:3].tolist())


def symmetry(case):
    rng = case.rng
    rev = int(rng.integers(2))
    s = float(rng.choice([0.0, -75.0, 64.0]))
    dl, lat = points(rng, 30, 0.0, rev)
    case.describe(sat_lon=s, rev=rev, n=len(dl))
    case.begin('conversion of mirrored points')
    x, y = convert(s + dl, lat, s, rev)
    x2, y2 = convert(s - dl, lat, s, rev)
    case.close(x2, -x, 'east-west mirror', rtol=0, atol=2e-12)
    case.close(y2, y, 'east-west mirror', rtol=0, atol=2e-12)
    x3, y3 = convert(s + dl, -lat, s, rev)
    case.close(x3, x, 'north-south mirror', rtol=0, atol=2e-12)
    case.close(y3, -y, 'north-south mirror', rtol=0, atol=2e-12)
    x0, y0 = convert(s, 0.0, s, rev)
    case.close([x0[0], y0[0]], [0, 0], 'nadir maps to zero', rtol=0, atol=1e-14)
    big = (np.abs(dl) > 1e-3)
    case.check(np.sign(x[big]) == np.sign(dl[big]), 'x is positive east')
    big = (np.abs(lat) > 1e-3)
    case.check(np.sign(y[big]) == np.sign(lat[big]), 'y is positive north')
    # each point on its own gives the same answer
    i = int(rng.integers(len(dl)))
    xi, yi = convert(s + dl[i], lat[i], s, rev)
    case.close([xi[0], yi[0]], [x[i], y[i]], 'points are independent', rtol=0, atol=1e-15)
    case.nontrivial(s, rev, x[:3].tolist())


def satellites(case):
    """Other heights of the satellite and other figures of the earth."""
    rng = case.rng
    s, rev = sat(rng), int(rng.integers(2))
    lon, lat = points(rng, 40, s, rev)
    d = np.abs((lon - s + 180) % 360 - 180)
    near = (d < 60) & (np.abs(lat) < 60)
    lon, lat = np.append(lon[near], s), np.append(lat[near], 10.)
    kw, want = {}, {}
    for name, key, low, high in (('sat_grs80_height', 'h', 30e6, 42e6), ('re_grs80', 're', 6.37e6, 6.39e6),
                                 ('rp_grs80', 'rp', 6.34e6, 6.37e6)):
        if rng.random() < .5:
            kw[name] = want[key] = float(rng.uniform(low, high))
    case.describe(sat_lon=s, rev=rev, given=kw)
    case.begin('conversion for another satellite')
    x, y = convert(lon, lat, s, rev, **kw)
    wx, wy = fixed_grid(lon, lat, s, rev, **want)
    case.close(x, wx, 'x angle for the satellite and earth given', rtol=0, atol=2e-12, given=sorted(kw))
    case.close(y, wy, 'y angle for the satellite and earth given', rtol=0, atol=2e-12, given=sorted(kw))
    for name in kw:
        case.count('input: ' + name)
    if kw:
        case.nontrivial(s, rev, sorted(kw.items()))


SCENARIOS = [('satellites', satellites, 120, 1500), ('geometry', geometry, 900, 12000), ('symmetry', symmetry, 100, 1500)]
REQUIRED = {'x angle': (800, 11000), 'input: views across the antimeridian': 50,
            'nadir maps to zero': 50, 'input: sat_grs80_height': (30, 400), 'input: re_grs80': (30, 400),
            'input: rp_grs80': (30, 400)}
