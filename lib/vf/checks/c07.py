"""Which lightning ellipsoid is used."""
import os
from datetime import datetime, timedelta

import numpy as np

from ..gen import make_file
from ..oracle import fixed_grid, revision, LTG

PROPERTY = 'C07'
RULE = ('a case is distinct non-trivial when the two ellipsoids give positions more than 3 '
        'microradians apart for some record, so the wrong one would be seen; distinct by product '
        'time and revision option')
ASSUMPTIONS = ['product times are those of the instrument era (2017 to 2030)']
CHANGE = datetime(2018, 10, 15)


def when(rng):
    k = int(rng.integers(8))
    if k == 0:
        return CHANGE
    if k == 1:
        return CHANGE - timedelta(seconds=1)
    if k == 2:
        return CHANGE + timedelta(seconds=int(rng.integers(1, 100)))
    if k == 3:
        return CHANGE - timedelta(seconds=int(rng.integers(1, 100000)))
    if k == 4:
        return CHANGE + timedelta(days=int(rng.integers(0, 30)), seconds=20)
    if k == 5:
        y = int(rng.choice([2017, 2018, 2019, 2020, 2024]))
        return datetime(y, 12, 31, 23, 59, 40)
    if k == 6:
        return datetime(2020, 2, 29, int(rng.integers(24)), int(rng.integers(60)), 20)
    return datetime(2017, 6, 1) + timedelta(seconds=20 * int(rng.integers(0, 6000000)))


def open_file(case):
    from glmtools.io.glm import GLMDataset
    rng = case.rng
    f = make_file(rng, n_flashes=int(rng.integers(1, 8)), start=when(rng))
    if rng.random() < .3:
        f.product_time_offset = float(np.round(rng.uniform(0, 0.9), 1))
    opt = [None, None, 0, 1, -1][case.index % 5]
    pt = f.start
    want = opt if opt in (0, 1) else revision(pt)
    case.describe(product_time=str(pt), option=opt, offset=f.product_time_offset, **f.style)
    path = f.write(os.path.join(case.tmp, 'in.nc'))
    case.begin('opening a file')
    ds = (GLMDataset(path) if opt is None else GLMDataset(path, ellipse_rev=opt)).dataset
    far = 0.0
    for level, lon, lat, tol in (('event', f.event_lon, f.event_lat, 1e-9),
                                 ('group', f.group_lon, f.group_lat, 1.5e-6),
                                 ('flash', f.flash_lon, f.flash_lat, 1.5e-6)):
        x, y = fixed_grid(lon, lat, f.nadir, want)
        xo, yo = fixed_grid(lon, lat, f.nadir, 1 - want)
        far = max(far, np.max(np.hypot(x - xo, y - yo)))
        case.close(ds[level + '_x'].data, x, level + ' x for the ellipsoid in force', rtol=0,
                   atol=tol, option=opt, time=str(pt))
        case.close(ds[level + '_y'].data, y, level + ' y for the ellipsoid in force', rtol=0,
                   atol=tol, option=opt, time=str(pt))
    case.count('input: revision %d in force' % want)
    case.count('input: option %s' % opt)
    if abs((pt - CHANGE).total_seconds()) < 120:
        case.count('input: within two minutes of the change')
    if far > 3e-6:
        case.nontrivial(str(pt), opt)


def lookup(case):
    from glmtools.io.lightning_ellipse import ltg_ellpse_rev, ltg_ellps_radii
    rng = case.rng
    pt = when(rng)
    if rng.random() < .4:
        pt += timedelta(microseconds=int(rng.integers(0, 1000000)))
    if rng.random() < .1:
        pt = CHANGE - timedelta(microseconds=1)
    want = 0 if pt < CHANGE else 1
    case.describe(date=str(pt))
    case.begin('revision lookup')
    case.check(ltg_ellpse_rev(pt) == want, 'revision for a date', date=str(pt))
    case.close(ltg_ellps_radii(pt), LTG[want], 'radii for a date', rtol=1e-9, date=str(pt))
    case.nontrivial(str(pt))


SCENARIOS = [('open_file', open_file, 200, 2400), ('lookup', lookup, 150, 1500)]
REQUIRED = {'event x for the ellipsoid in force': (150, 2000), 'radii for a date': 100,
            'input: revision 0 in force': 40, 'input: revision 1 in force': 40,
            'input: within two minutes of the change': 20}
