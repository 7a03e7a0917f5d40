"""Pixel footprints against hand-made linear interpolation of the corner table."""
import logging
import os

import numpy as np

PROPERTY = 'C20'
RULE = ('one evaluation per pixel; distinct non-trivial when it lies strictly inside a table cell or '
        'outside the table; distinct by table and pixel position')
ASSUMPTIONS = ['where four table nodes form a rectangle either diagonal may carry the '
               'triangulation; both are accepted, consistently for all corners of a pixel']


def table(rng, kind):
    n0, n1 = (int(v) for v in rng.integers(3, 9, 2))
    scale = float(rng.choice([1., 1e-2, 1e4]))
    x = np.cumsum(rng.uniform(.5, 1.5, n0)) * scale
    y = np.cumsum(rng.uniform(.5, 1.5, n1)) * scale
    x -= x[n0 // 2]
    y -= y[n1 // 2]
    if rng.random() < .5:
        X, Y = np.meshgrid(x, y, indexing='ij')
    else:
        X, Y = np.meshgrid(x, y)
    if rng.random() < .3:
        X, Y = X[::-1], Y[::-1]
    size = scale * float(rng.choice([.01, .3]))
    if kind == 'affine':
        A = rng.normal(0, 1, (4, 2, 3)) * size
        C = A[..., 0] + A[..., 1] * X[..., None, None] / scale + A[..., 2] * Y[..., None, None] / scale
    else:
        C = rng.normal(0, 1, X.shape + (4, 2)) * size
    return X, Y, C, scale


def bary(p, a, b, c):
    """Weights of p in triangle abc."""
    m = np.array([b - a, c - a]).T
    u, v = np.linalg.solve(m, p - a)
    return np.array([1 - u - v, u, v])


def candidates(X, Y, C, p):
    """Admissible (4, 2) offsets at p inside a rectilinear table."""
    rows = X[:, 0] if abs(X[0, 0] - X[1, 0]) > abs(Y[0, 0] - Y[1, 0]) else Y[:, 0]
    first_is_x = rows is X[:, 0] or abs(X[0, 0] - X[1, 0]) > abs(Y[0, 0] - Y[1, 0])
    a0 = X[:, 0] if first_is_x else Y[:, 0]
    a1 = Y[0, :] if first_is_x else X[0, :]
    p0, p1 = (p[0], p[1]) if first_is_x else (p[1], p[0])
    def cell(axis, v):
        s = np.sort(axis)
        k = int(np.clip(np.searchsorted(s, v, side='right') - 1, 0, len(s) - 2))
        return [int(np.nonzero(axis == s[k])[0][0]), int(np.nonzero(axis == s[k + 1])[0][0])]
    i, j = cell(a0, p0), cell(a1, p1)
    q = {}
    for m in (0, 1):
        for n in (0, 1):
            q[m, n] = (np.array([a0[i[m]], a1[j[n]]]), C[i[m], j[n]])
    out = []
    pp = np.array([p0, p1])
    for tris in ((((0, 0), (1, 0), (1, 1)), ((0, 0), (0, 1), (1, 1))),
                 (((0, 0), (1, 0), (0, 1)), ((1, 1), (1, 0), (0, 1)))):
        best = None
        for t in tris:
            w = bary(pp, *[q[k][0] for k in t])
            if best is None or w.min() > best[0]:
                best = (w.min(), sum(wi * q[k][1] for wi, k in zip(w, t)))
        out.append(best[1])
    return out


def warnings_of(fn):
    log = logging.getLogger('glmtools.io.ccd')
    got = []
    class H(logging.Handler):
        def emit(self, r):
            got.append(r.getMessage())
    h = H(level=logging.WARNING)
    log.addHandler(h)
    try:
        return fn(), got
    finally:
        log.removeHandler(h)


def footprints(case):
    from glmtools.io.ccd import quads_from_corner_lookup
    rng = case.rng
    kind = str(rng.choice(['affine', 'random']))
    X, Y, C, scale = table(rng, kind)
    n = int(rng.integers(1, 25))
    lo, hi = np.array([X.min(), Y.min()]), np.array([X.max(), Y.max()])
    px = rng.uniform(lo, hi, (n, 2))
    where = np.array(['cell'] * n, object)
    for k in range(n):
        u = rng.random()
        if u < .25:
            i, j = rng.integers(0, X.shape[0]), rng.integers(0, X.shape[1])
            px[k] = X[i, j], Y[i, j]
            where[k] = (int(i), int(j))
        elif u < .5:
            d = int(rng.integers(0, 2))
            px[k, d] = (hi[d] + rng.uniform(.05, 3) * scale) if rng.random() < .5 else \
                (lo[d] - rng.uniform(.05, 3) * scale)
            where[k] = 'outside'
    nadir = float(rng.choice([0., -75., -137., 12.5])) * (scale if scale > 10 else 1)
    if kind == 'random' and scale < 1:
        nadir = 0.
    inflate = float(rng.choice([1., 1., 1.02, .5, 2.]))
    extrap = bool(rng.random() < .7)
    pos = px.copy()
    pos[:, 0] += nadir
    case.describe(table=(X.shape, scale, kind), nadir=nadir, inflate=inflate, extrapolate=extrap, pixels=pos)
    case.begin('footprints')
    kw = dict(nadir_lon=nadir) if nadir or rng.random() < .5 else {}
    case.count('input: no longitude given', int(not kw))
    if inflate != 1. or rng.random() < .5:
        kw['inflate'] = inflate
    if not extrap or rng.random() < .5:
        kw['extrapolate'] = extrap
    keep = X.copy(), Y.copy(), C.copy(), pos.copy()
    got, warned = warnings_of(lambda: quads_from_corner_lookup(X, Y, C, pos[:, 0], pos[:, 1], **kw))
    case.check(got.shape == (n, 4, 2), 'four corners per pixel', shape=got.shape)
    case.check(all(np.array_equal(a, b) for a, b in zip(keep, (X, Y, C, pos))), 'inputs are not altered')
    # rounding of the shifted table positions, times the steepest change of the offsets
    size = np.abs(C).max()
    tol = 1e-9 * size + 1e-13 * (np.abs(pos).max() + abs(nadir)) * (1 + 8 * size / scale)
    flat = np.array([X.ravel(), Y.ravel()]).T
    hull_ok = True
    for k in range(n):
        case.trial()
        off = (got[k] - pos[k]) / inflate
        if where[k] == 'outside':
            hull_ok = False
            if not extrap:
                case.check(np.isnan(got[k]).all(), 'outside the table without extrapolation is undefined',
                           got=got[k])
            else:
                d = np.hypot(*(flat - px[k]).T)
                o = np.sort(d)
                if o[1] - o[0] > 1e-9 * scale:
                    want = C.reshape(-1, 4, 2)[int(d.argmin())]
                    case.close(off, want, 'outside the table the nearest offsets are used', rtol=0, atol=tol * 4)
                    case.nontrivial('outside', np.round(pos[k], 9).tolist(), C.shape)
            continue
        if np.isnan(got[k]).any():
            # a node on the hull can fall outside by rounding of the shift
            edge = bool(np.any(np.abs(px[k] - lo) < 1e-9 * scale) or np.any(np.abs(px[k] - hi) < 1e-9 * scale))
            case.check(edge and not extrap, 'defined inside the table', pixel=pos[k])
            continue
        if where[k] != 'cell':
            case.close(off, C[where[k]], 'tabulated offsets at table nodes', rtol=0, atol=tol * 40)
            continue
        cand = candidates(X, Y, C, px[k])
        err = [np.abs(off - c).max() for c in cand]
        case.check(min(err) <= tol * 40, 'linear interpolation inside the table', error=min(err), tolerance=tol * 40,
                   got=off, want=cand)
        case.nontrivial('cell', np.round(pos[k], 9).tolist(), C.shape)
    if extrap:
        if not hull_ok:
            case.check(len(warned) > 0, 'extrapolation is reported')
    if n > 1:
        k = int(rng.integers(0, n))
        one = quads_from_corner_lookup(X, Y, C, pos[k:k + 1, 0], pos[k:k + 1, 1], **kw)
        case.check(np.allclose(one[0], got[k], rtol=0, atol=tol * 40, equal_nan=True),
                   'pixels are independent', pixel=pos[k])


def distributed(case):
    """The table that ships with the package, in the range used by gridding."""
    import glmtools.io.ccd as ccd
    from glmtools.io.ccd import load_pixel_corner_lookup, quads_from_corner_lookup
    rng = case.rng
    path = os.path.join(os.path.dirname(ccd.__file__), 'G16_corner_lut_fixedgrid.pickle')
    case.describe(path='shipped table')
    case.begin('shipped table')
    x, y, c = load_pixel_corner_lookup(path)
    x, y, c = x * 1e-6, y * 1e-6, c * 1e-6
    n = 30
    px = np.array([rng.uniform(x.min(), x.max(), n), rng.uniform(y.min(), y.max(), n)]).T
    inflate = float(rng.choice([1., 1.02]))
    got = quads_from_corner_lookup(x, y, c, px[:, 0], px[:, 1], nadir_lon=0., inflate=inflate)
    for k in range(n):
        case.trial()
        off = (got[k] - px[k]) / inflate
        err = min(np.abs(off - q).max() for q in candidates(x, y, c, px[k]))
        case.check(err <= 1e-13, 'linear interpolation inside the table', error=err)
        case.nontrivial('shipped', np.round(px[k], 12).tolist())


SCENARIOS = [('footprints', footprints, 400, 5000), ('distributed', distributed, 4, 40)]
REQUIRED = {'linear interpolation inside the table': (800, 10000),
            'outside the table the nearest offsets are used': (300, 4000),
            'outside the table without extrapolation is undefined': (100, 1500),
            'tabulated offsets at table nodes': (300, 4000)}
